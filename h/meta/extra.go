package meta

import (
	"fmt"
	"sort"
)

// Keys that torrent files carry besides those the client reads, by place.
var (
	topKeys  = []string{"announce-list", "comment", "comment.utf-8", "created by", "creation date", "encoding", "files", "httpseeds", "info_hash", "infohash", "length", "name", "name.utf-8", "nodes", "piece layers", "piece length", "pieces", "publisher", "url-list"}
	infoKeys = []string{"announce", "attr", "cross_seed_entry", "ed2k", "file tree", "files.utf-8", "infohash", "md5sum", "meta version", "mtime", "name.utf-8", "path", "path.utf-8", "pieces root", "private", "profiles", "publisher", "root hash", "sha1", "source", "symlink path"}
	fileKeys = []string{"attr", "crc32", "ed2k", "filehash", "hidden", "length.utf-8", "md5sum", "mtime", "name", "name.utf-8", "offset", "path.utf-8", "pieces root", "sha1", "symlink path"}
)

var extraValues = []string{"1:x", "2:..", "5:a/b/c", "1:p", "1:h", "1:l", "2:xp", "0:", "i0e", "i1e", "i2e", "i7e", "i-1e", "le", "l1:xe", "l2:..1:xe", "l1:a1:be", "ll1:xee", "ll2:hi2:hoel1:yee", "l4:httpe", "de", "d1:ai1ee"}

// Dict builds a dictionary with its keys in order.
func Dict(kv map[string]string) string {
	var ks []string
	for k := range kv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var a []string
	for _, k := range ks {
		a = append(a, k, kv[k])
	}
	return D(a...)
}

// Extras calls f with valid torrents that have one more key somewhere, of
// every value, or all of them at once.
func Extras(f func(desc, data string)) {
	base := func(multi bool, top, info, file map[string]string, which int) string {
		in := map[string]string{"name": "3:tor", "piece length": "i4e"}
		if multi {
			var fs []string
			total := 0
			for i, p := range [][]string{{"a"}, {"d", "b"}, {"d", "c"}} {
				kv := map[string]string{"length": I(int64(3 + i)), "path": L()}
				total += 3 + i
				var cs []string
				for _, c := range p {
					cs = append(cs, S(c))
				}
				kv["path"] = L(cs...)
				if which < 0 || which == i {
					for k, v := range file {
						kv[k] = v
					}
				}
				fs = append(fs, Dict(kv))
			}
			in["files"] = L(fs...)
			in["pieces"] = S(Hashes((total + 3) / 4))
		} else {
			in["length"] = "i9e"
			in["pieces"] = S(Hashes(3))
		}
		for k, v := range info {
			in[k] = v
		}
		t := map[string]string{"announce": "10:http://t/a", "info": Dict(in)}
		for k, v := range top {
			t[k] = v
		}
		return Dict(t)
	}
	for _, multi := range []bool{false, true} {
		for _, v := range extraValues {
			all := func(ks []string) map[string]string {
				m := map[string]string{}
				for _, k := range ks {
					m[k] = v
				}
				return m
			}
			for _, k := range topKeys {
				f(fmt.Sprintf("extra key %q = %q at the top", k, v), base(multi, map[string]string{k: v}, nil, nil, 0))
			}
			f(fmt.Sprintf("every extra key %q at the top", v), base(multi, all(topKeys), nil, nil, 0))
			for _, k := range infoKeys {
				f(fmt.Sprintf("extra key %q = %q in info", k, v), base(multi, nil, map[string]string{k: v}, nil, 0))
			}
			f(fmt.Sprintf("every extra key %q in info", v), base(multi, nil, all(infoKeys), nil, 0))
			if !multi {
				continue
			}
			for which := -1; which < 3; which++ {
				for _, k := range fileKeys {
					f(fmt.Sprintf("extra key %q = %q in file %d", k, v, which), base(multi, nil, nil, map[string]string{k: v}, which))
				}
				f(fmt.Sprintf("every extra key %q in file %d", v, which), base(multi, nil, nil, all(fileKeys), which))
			}
		}
	}
}
