// Package sw starts the client's swarm the way the program does: from the
// command line options, a torrent file, a working directory and a tracker.
package sw

import (
	"os"
	"path/filepath"
	"sync"

	"gotor/swarm"
	"gotor/utils"
	"vh/ref"
	"vh/run"
	"vh/tor"
	"vh/trk"
)

// Port is the port given on the command line.
const Port = "6881"

var (
	once sync.Once
	Srv  *trk.Tracker
	WD   string // working directory
	TF   string // torrent file
	Args []string
	opts *utils.Opts
)

// Setup prepares the process: a tracker, and the options, which are read once.
func Setup() {
	once.Do(func() {
		Srv = trk.Start()
		WD = filepath.Join(run.Scratch, "wd")
		TF = filepath.Join(run.Scratch, "t.torrent")
		os.Args = append([]string{os.Args[0], "-i", TF, "-w", WD, "-p", Port}, Args...)
		opts = utils.GetOpts()
	})
}

// Put writes the torrent file of a layout.
func Put(l *tor.Layout) {
	Setup()
	inf := map[string]interface{}{"name": l.Name, "piece length": l.PieceLen, "pieces": l.Hashes()}
	if len(l.Lens) == 1 {
		inf["length"] = l.Total()
	} else {
		var fs []interface{}
		for i, n := range l.Lens {
			var p []interface{}
			for _, c := range split(l.Path(i)) {
				p = append(p, c)
			}
			fs = append(fs, map[string]interface{}{"length": n, "path": p})
		}
		inf["files"] = fs
	}
	raw := ref.Ben(map[string]interface{}{"announce": "http://" + Srv.Addr + "/announce", "info": inf})
	if err := os.WriteFile(TF, []byte(raw), 0600); err != nil {
		panic(err)
	}
}

func split(p string) []string {
	var out []string
	for p != "" && p != "." {
		out = append([]string{filepath.Base(p)}, out...)
		p = filepath.Dir(p)
	}
	return out
}

// New starts the swarm up (without starting its goroutines) and returns the
// announces it made.
func New() (*swarm.Swarm, []trk.Request, error) {
	Setup()
	Srv.Take()
	s, err := swarm.NewSwarm(opts)
	return s, Srv.Take(), err
}
