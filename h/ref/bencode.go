// Package ref holds the boring reference models the checks compare with.
package ref

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Values of the reference bencode model: string, int64, []interface{}, map[string]interface{}.

// Ben is the canonical bencoding of v.
func Ben(v interface{}) string {
	var b strings.Builder
	ben(&b, v)
	return b.String()
}

func ben(b *strings.Builder, v interface{}) {
	switch v := v.(type) {
	case string:
		b.WriteString(strconv.Itoa(len(v)))
		b.WriteByte(':')
		b.WriteString(v)
	case int64:
		b.WriteByte('i')
		b.WriteString(strconv.FormatInt(v, 10))
		b.WriteByte('e')
	case []interface{}:
		b.WriteByte('l')
		for _, x := range v {
			ben(b, x)
		}
		b.WriteByte('e')
	case map[string]interface{}:
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('d')
		for _, k := range ks {
			ben(b, k)
			ben(b, v[k])
		}
		b.WriteByte('e')
	default:
		panic(fmt.Sprintf("ref: %T", v))
	}
}

// Verdict of the reference parser.
type Verdict int

const (
	OK    Verdict = iota // well-formed; the whole input is the value
	Tail                 // well-formed value followed by more data
	Loose                // well-formed apart from spellings the properties leave open
	Bad                  // must be rejected
)

type parser struct {
	s     string
	p     int
	loose bool
	bad   bool
	depth int
}

// Parse decides whether s starts with a bencoded value, and which. The value
// is meaningful for OK and Tail.
func Parse(s string) (v interface{}, end int, r Verdict) {
	p := &parser{s: s}
	v = p.value()
	if p.bad {
		return nil, p.p, Bad
	}
	if p.loose {
		return v, p.p, Loose
	}
	if p.p < len(s) {
		return v, p.p, Tail
	}
	return v, p.p, OK
}

func (p *parser) fail() interface{} { p.bad = true; return nil }

func (p *parser) value() interface{} {
	if p.p >= len(p.s) {
		return p.fail()
	}
	switch c := p.s[p.p]; {
	case c == 'i':
		p.p++
		st := p.p
		for p.p < len(p.s) && p.s[p.p] != 'e' {
			p.p++
		}
		if p.p >= len(p.s) {
			return p.fail()
		}
		t := p.s[st:p.p]
		p.p++
		d := strings.TrimPrefix(t, "-")
		if d == "" {
			return p.fail()
		}
		for i := 0; i < len(d); i++ {
			if d[i] < '0' || d[i] > '9' {
				return p.fail()
			}
		}
		if len(d) > 1 && d[0] == '0' {
			return p.fail()
		}
		if t == "-0" {
			p.loose = true
			return int64(0)
		}
		n, err := strconv.ParseInt(t, 10, 64)
		if err != nil {
			return p.fail()
		}
		return n
	case c == 'l':
		p.p++
		out := []interface{}{}
		for {
			if p.p >= len(p.s) {
				return p.fail()
			}
			if p.s[p.p] == 'e' {
				p.p++
				return out
			}
			x := p.value()
			if p.bad {
				return nil
			}
			out = append(out, x)
		}
	case c == 'd':
		p.p++
		out := map[string]interface{}{}
		for {
			if p.p >= len(p.s) {
				return p.fail()
			}
			if p.s[p.p] == 'e' {
				p.p++
				return out
			}
			if p.s[p.p] < '0' || p.s[p.p] > '9' {
				return p.fail()
			}
			k := p.str()
			if p.bad {
				return nil
			}
			if _, dup := out[k]; dup {
				p.loose = true
			}
			x := p.value()
			if p.bad {
				return nil
			}
			out[k] = x
		}
	case c >= '0' && c <= '9':
		return p.str()
	}
	return p.fail()
}

func (p *parser) str() string {
	st := p.p
	for p.p < len(p.s) && p.s[p.p] >= '0' && p.s[p.p] <= '9' {
		p.p++
	}
	if p.p == st || p.p >= len(p.s) || p.s[p.p] != ':' {
		p.bad = true
		return ""
	}
	t := p.s[st:p.p]
	p.p++
	if len(t) > 1 && t[0] == '0' {
		p.loose = true
	}
	n, err := strconv.ParseUint(t, 10, 63)
	if err != nil || n > uint64(len(p.s)-p.p) {
		p.bad = true
		return ""
	}
	v := p.s[p.p : p.p+int(n)]
	p.p += int(n)
	return v
}

// Equal compares reference values (nil and empty lists are the same).
func Equal(a, b interface{}) bool { return Ben(a) == Ben(b) }

// TopSpans returns where the values of key lie in the dictionary s starts
// with; ok is false when s doesn't start with a dictionary.
func TopSpans(s, key string) (spans [][2]int, ok bool) {
	p := &parser{s: s}
	if s == "" || s[0] != 'd' {
		return nil, false
	}
	p.p = 1
	for p.p < len(s) && s[p.p] != 'e' {
		k := p.str()
		if p.bad {
			return nil, false
		}
		st := p.p
		p.value()
		if p.bad {
			return nil, false
		}
		if k == key {
			spans = append(spans, [2]int{st, p.p})
		}
	}
	return spans, p.p < len(s)
}
