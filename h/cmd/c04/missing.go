package main

import (
	"fmt"
	"os"
	"path/filepath"

	"gotor/torrent"
	"vh/run"
)

func missing() error {
	d := filepath.Join(run.Scratch, "folder")
	_ = os.MkdirAll(d, 0700)
	for _, p := range []string{filepath.Join(run.Scratch, "absent"), d, "", "\x00", filepath.Join(d, "x", "y")} {
		t, err := torrent.FromTorrentFile(p, "/w")
		if err == nil || t != nil {
			return fmt.Errorf("loading %q gives %v, %v", p, t, err)
		}
	}
	return nil
}
