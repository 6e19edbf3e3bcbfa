// Package cv converts between the reference models' values and gotor's.
package cv

import (
	"fmt"

	"gotor/bencode"
)

// ToRef converts a decoded gotor value.
func ToRef(v interface{}) (interface{}, error) {
	switch v := v.(type) {
	case string:
		return v, nil
	case int64:
		return v, nil
	case bencode.List:
		out := make([]interface{}, 0, len(v))
		for _, x := range v {
			y, err := ToRef(x)
			if err != nil {
				return nil, err
			}
			out = append(out, y)
		}
		return out, nil
	case bencode.Dict:
		out := make(map[string]interface{}, len(v))
		for k, x := range v {
			y, err := ToRef(x)
			if err != nil {
				return nil, err
			}
			out[k] = y
		}
		return out, nil
	}
	return nil, fmt.Errorf("decoded value of type %T", v)
}

// FromRef builds the gotor value.
func FromRef(v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		out := make(bencode.List, 0, len(v))
		for _, x := range v {
			out = append(out, FromRef(x))
		}
		return out
	case map[string]interface{}:
		out := make(bencode.Dict)
		for k, x := range v {
			out[k] = FromRef(x)
		}
		return out
	}
	return v
}
