// C26: command-line limits and options mean what they say.
package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"gotor/swarm"
	"gotor/utils"
	"gotor/zv/vos"
	"gotor/zv/vs"
	"vh/ref"
	"vh/run"
	"vh/tor"
	"vh/trk"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "--opts" {
		serveOpts()
		return
	}
	run.Main(run.Spec{
		ID:    "C26",
		Fresh: true,
		Level: "exploration",
		Rule:  "every limit string of up to 3 (thorough 4) characters over digits, signs, units, spaces and other characters, every multiple-of-unit boundary around the 64-bit range with every unit, sign and case, as upload and as download limit; every port boundary and spelling; commands and paths from catalogues; each in a fresh process against the option parser, a part of them against the real program (exit status, no torrent shown, no tracker contacted, limits shown, announced port); and for small limits all schedules of what the started swarm's limiter admits in the first second",
		Blocks: func(tier string) []run.Block {
			th := tier == "thorough"
			var bs []run.Block
			for i := range alpha {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("limits/%d", i), Fn: func(b *run.B) { limits(b, i, th) }})
			}
			bs = append(bs, run.Block{Name: "options", Fn: options}, run.Block{Name: "program", Fn: program}, run.Block{Name: "swarm", Fn: swarmRuns})
			for _, u := range units {
				u := u
				bs = append(bs, run.Block{Name: "boundaries/" + u, Fn: func(b *run.B) { boundaries(b, u) }})
			}
			for _, u := range []string{"-1", "1", "3", "-7K", "0B"} {
				for _, d := range []string{"-1", "2", "-3G"} {
					u, d := u, d
					bs = append(bs, run.Block{Name: "effect/" + u + "/" + d, Fn: func(b *run.B) { effect(b, u, d) }})
				}
			}
			return bs
		},
	})
}

// serveOpts is the child: what the option parser makes of the arguments.
func serveOpts() {
	os.Args = append(os.Args[:1], os.Args[2:]...)
	o := utils.GetOpts()
	fmt.Printf("OPTS %q %q %q %d %d %d\n", o.Input(), o.WorkingDir(), o.Cmd(), o.Port(), o.UpLimit(), o.DnLimit())
	os.Exit(0)
}

type opts struct {
	in, wd, cmd string
	port        uint64
	up, dn      int64
}

// parse runs the option parser in a fresh process.
func parse(args ...string) (*opts, error) {
	c := exec.Command(os.Args[0], append([]string{"--opts"}, args...)...)
	out, err := c.Output()
	s := string(out)
	i := strings.Index(s, "OPTS ")
	if err != nil || i < 0 {
		if i >= 0 {
			return nil, fmt.Errorf("harness: %v with %q", err, s)
		}
		if _, ok := err.(*exec.ExitError); !ok && err != nil {
			panic(err)
		}
		return nil, nil // refused
	}
	var o opts
	if _, err := fmt.Sscanf(s[i:], "OPTS %q %q %q %d %d %d\n", &o.in, &o.wd, &o.cmd, &o.port, &o.up, &o.dn); err != nil {
		return nil, fmt.Errorf("harness: %v in %q", err, s)
	}
	return &o, nil
}

// limit is the reference reading of a limit.
func limit(s string) (int64, bool) {
	num := s
	mult := int64(1)
	if s != "" {
		switch s[len(s)-1] {
		case 'b', 'B':
			num = s[:len(s)-1]
		case 'k', 'K':
			num, mult = s[:len(s)-1], 1<<10
		case 'm', 'M':
			num, mult = s[:len(s)-1], 1<<20
		case 'g', 'G':
			num, mult = s[:len(s)-1], 1<<30
		}
	}
	digits := strings.TrimPrefix(num, "-")
	if digits == "" {
		return 0, false
	}
	for _, c := range []byte(digits) {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	v, _ := new(big.Int).SetString(digits, 10)
	if num != digits {
		v.Neg(v)
	}
	v.Mul(v, big.NewInt(mult))
	if !v.IsInt64() {
		return 0, false
	}
	return v.Int64(), true
}

func oneLimit(b *run.B, s string) {
	for which := 0; which < 2; which++ {
		which := which
		f := []string{"-u", "-d"}[which]
		b.Case(func() string { return fmt.Sprintf("%s=%q", f, s) }, func() error {
			o, err := parse("-i", "t.torrent", f+"="+s)
			if err != nil {
				return err
			}
			w, ok := limit(s)
			if o == nil {
				if ok {
					return fmt.Errorf("refused, it means %d", w)
				}
				return nil
			}
			got := [2]int64{o.up, o.dn}
			if !ok {
				return fmt.Errorf("accepted as %d", got[which])
			}
			if got[which] != w {
				return fmt.Errorf("taken as %d, want %d", got[which], w)
			}
			if got[1-which] >= 0 {
				return fmt.Errorf("the other limit is %d, the default is none", got[1-which])
			}
			return nil
		})
		b.Distinct(1)
	}
}

var alpha = []string{"0", "1", "7", "9", "-", "+", "B", "k", "M", "g", "x", " ", ".", "\xc4"}

func limits(b *run.B, first int, th bool) {
	max := 3
	if th {
		max = 4
	}
	if first == 0 {
		oneLimit(b, "")
	}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		oneLimit(b, s)
		if n == max || b.Expired() {
			return
		}
		for _, c := range alpha {
			rec(s+c, n+1)
		}
	}
	rec(alpha[first], 1)
}

var units = []string{"", "B", "b", "K", "k", "M", "m", "G", "g", "T", "KB", "kib", "Ki"}

func boundaries(b *run.B, u string) {
	{
		m := uint(0)
		switch strings.ToLower(u) {
		case "k":
			m = 10
		case "m":
			m = 20
		case "g":
			m = 30
		}
		base := new(big.Int).Lsh(big.NewInt(1), 63-m)
		b2 := new(big.Int).Lsh(big.NewInt(1), 64-m)
		b3 := new(big.Int).Lsh(big.NewInt(1), 65-m)
		b4 := new(big.Int).Lsh(big.NewInt(1), 64)
		for _, x := range []*big.Int{base, b2, b3, b4, big.NewInt(0), big.NewInt(1024), big.NewInt(1 << 31), big.NewInt(1 << 32)} {
			for d := int64(-2); d <= 2; d++ {
				v := new(big.Int).Add(x, big.NewInt(d))
				if v.Sign() < 0 {
					continue
				}
				for _, sign := range []string{"", "-", "+", "--", "-0", "00"} {
					oneLimit(b, sign+v.String()+u)
				}
			}
			if b.Expired() {
				return
			}
		}
	}
	if u != "" {
		return
	}
	for _, s := range []string{"1e3", "0x10", "1_000", "1,000", "1.5K", "K", "-K", "-", "--1", "1-", "1 K", " 1K", "1K ", "1\n", "１", "1KK", "1BK", "0x1K", "inf", "NaN", strings.Repeat("9", 5000), strings.Repeat("0", 5000) + "7K", "1\x00", "1\u212a", "9K\u0131"} {
		if !strings.Contains(s, "\x00") {
			oneLimit(b, s)
		}
	}
}

func options(b *run.B) {
	type tc struct {
		args []string
		want *opts // nil: refused
	}
	def := func(f func(o *opts)) *opts {
		o := &opts{in: "t", cmd: "swarm", port: 60666, up: -1, dn: -1}
		f(o)
		return o
	}
	var cs []tc
	cs = append(cs,
		tc{nil, nil}, tc{[]string{"-w", "dir"}, nil}, tc{[]string{"-i", ""}, nil}, tc{[]string{"-i="}, nil}, tc{[]string{"t"}, nil}, tc{[]string{"-cmd", "info"}, nil}, tc{[]string{"-p", "1", "-u", "1", "-d", "1"}, nil}, tc{[]string{"-i"}, nil}, tc{[]string{"-i", "t", "-zz"}, nil},
		tc{[]string{"-i", "t"}, def(func(o *opts) {})}, tc{[]string{"--i", "t"}, def(func(o *opts) {})},
		tc{[]string{"-i", "a b", "-w", "x y"}, def(func(o *opts) { o.in, o.wd = "a b", "x y" })},
		tc{[]string{"-i", "t", "-u", "5K", "-d", "7M"}, def(func(o *opts) { o.up, o.dn = 5<<10, 7<<20 })},
		tc{[]string{"-d", "5K", "-u", "-7M", "-i", "t"}, def(func(o *opts) { o.dn, o.up = 5<<10, -7<<20 })},
		tc{[]string{"-i", "t", "-u", "5K", "-d", "x"}, nil}, tc{[]string{"-i", "t", "-u", "x", "-d", "5K"}, nil},
	)
	for _, c := range []string{"swarm", "info", "", "Swarm", "INFO", "swarm ", "inf", "infos", "start", "help", "swarminfo", "s"} {
		c := c
		w := def(func(o *opts) { o.cmd = c })
		if c != "swarm" && c != "info" {
			w = nil
		}
		cs = append(cs, tc{[]string{"-i", "t", "-cmd", c}, w})
	}
	ports := map[string]bool{}
	for k := 0; k < 64; k++ {
		for _, d := range []int64{-1, 0, 1} {
			v := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(k)), big.NewInt(d))
			ports[v.String()] = true
		}
	}
	for _, s := range []string{"65534", "65535", "65536", "65537", "131072", "60666", "6881", "-1", "-65535", "x", "", "80 ", "18446744073709551615", "18446744073709551616", "4295032832"} {
		ports[s] = true
	}
	for p := 0; p <= 65535; p += 1021 {
		ports[strconv.Itoa(p)] = true
	}
	for p := 65536; p <= 200000; p += 7919 {
		ports[strconv.Itoa(p)] = true
	}
	for p := range ports {
		n, err := strconv.ParseUint(p, 10, 16)
		w := def(func(o *opts) { o.port = n })
		if err != nil {
			w = nil
		}
		cs = append(cs, tc{[]string{"-i", "t", "-p=" + p}, w})
	}
	sortCases(cs, func(i int) string { return strings.Join(cs[i].args, "\x00") })
	for _, c := range cs {
		c := c
		b.Case(func() string { return fmt.Sprintf("%q", c.args) }, func() error {
			o, err := parse(c.args...)
			if err != nil {
				return err
			}
			if (o == nil) != (c.want == nil) {
				return fmt.Errorf("got %+v, want %+v (nil: refused)", o, c.want)
			}
			if o != nil && *o != *c.want {
				return fmt.Errorf("got %+v, want %+v", *o, *c.want)
			}
			return nil
		})
		b.Distinct(1)
	}
}

func sortCases[T any](cs []T, key func(int) string) {
	for i := 1; i < len(cs); i++ {
		for j := i; j > 0 && key(j) < key(j-1); j-- {
			cs[j], cs[j-1] = cs[j-1], cs[j]
		}
	}
}

var once sync.Once
var srv *trk.Tracker
var wd, tf string

func setup() {
	once.Do(func() {
		srv = trk.Start()
		wd = filepath.Join(run.Scratch, "wd")
		tf = filepath.Join(run.Scratch, "t.torrent")
		l := tor.New(4, 6)
		l.Name = "marker-name"
		ann := "http://" + srv.Addr + "/announce"
		raw := ref.Ben(map[string]interface{}{"announce": ann, "info": map[string]interface{}{"name": l.Name, "piece length": l.PieceLen, "length": l.Total(), "pieces": l.Hashes()}})
		if err := os.WriteFile(tf, []byte(raw), 0600); err != nil {
			panic(err)
		}
	})
	_ = os.RemoveAll(wd)
	_ = os.MkdirAll(wd, 0700)
}

// prog runs the real program to its end; it must end by itself.
func prog(args ...string) (out string, code int, err error) {
	c := exec.Command(os.Getenv("VH_BIN"), args...)
	c.Dir = wd
	var sb strings.Builder
	c.Stdout, c.Stderr = &sb, io.Discard
	if err := c.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(20*time.Second, func() { _ = c.Process.Kill() })
	err = c.Wait()
	if !t.Stop() {
		return sb.String(), -1, fmt.Errorf("the program does not end")
	}
	return sb.String(), c.ProcessState.ExitCode(), nil
}

// program: refusals and the info command of the real binary.
func program(b *run.B) {
	refuse := func(desc string, args ...string) {
		b.Case(func() string { return desc }, func() error {
			setup()
			out, code, err := prog(args...)
			if err != nil {
				return err
			}
			if code == 0 || strings.Contains(out, "marker-name") {
				return fmt.Errorf("exit status %d, output %.300q: not refused", code, out)
			}
			if n := len(srv.Take()); n > 0 {
				return fmt.Errorf("the tracker was contacted")
			}
			if es, _ := os.ReadDir(wd); len(es) > 0 {
				return fmt.Errorf("files were created")
			}
			return nil
		})
		b.Distinct(1)
	}
	setup()
	for _, cmd := range []string{"info", "swarm"} {
		base := []string{"-w", wd, "-cmd", cmd, "-p", "0"}
		full := append([]string{"-i", tf}, base...)
		refuse(cmd+": no torrent path", base...)
		for _, l := range []string{"", "x", "1.5K", "K", "+1", "1KB", "99999999999999999999", "9223372036854775807K", "9007199254740992K", "8589934592G", "8796093022208M", "9223372036854775808", "18446744073709551616"} {
			refuse(fmt.Sprintf("%s: upload limit %q", cmd, l), append([]string{"-u=" + l}, full...)...)
			refuse(fmt.Sprintf("%s: download limit %q", cmd, l), append([]string{"-d=" + l}, full...)...)
		}
		for _, p := range []string{"65536", "65537", "126202", "4294967296", "-1", "x"} {
			refuse(fmt.Sprintf("%s: port %s", cmd, p), "-i", tf, "-w", wd, "-cmd", cmd, "-p="+p)
		}
	}
	for _, c := range []string{"", "Info", "inf", "start", "swarms"} {
		refuse(fmt.Sprintf("command %q", c), "-i", tf, "-w", wd, "-p", "0", "-cmd", c)
	}
	refuse("a torrent that does not exist", "-i", tf+"x", "-w", wd, "-p", "0", "-cmd", "info")
	for _, l := range []string{"-1", "0", "5", "5B", "7k", "3M", "2G", "-4K", "9223372036854775807", "8388607M"} {
		l := l
		b.Case(func() string { return "info with limits " + l }, func() error {
			setup()
			out, code, err := prog("-i", tf, "-w", wd, "-cmd", "info", "-u="+l, "-d="+l, "-p", "0")
			if err != nil {
				return err
			}
			if code != 0 || !strings.Contains(out, "marker-name") {
				return fmt.Errorf("exit status %d, output %.300q", code, out)
			}
			return nil
		})
		b.Distinct(1)
	}
}

// swarmRuns: the real program announces and listens on the given port.
func swarmRuns(b *run.B) {
	for i := 0; i < 3; i++ {
		i := i
		b.Case(func() string { return fmt.Sprintf("swarm %d listens on and announces its port", i) }, func() error {
			setup()
			l, err := net.Listen("tcp", ":0")
			if err != nil {
				return err
			}
			port := l.Addr().(*net.TCPAddr).Port
			l.Close()
			c := exec.Command(os.Getenv("VH_BIN"), "-i", tf, "-w", wd, "-p", strconv.Itoa(port), "-u", "5K")
			c.Dir = wd
			so, _ := c.StdoutPipe()
			if err := c.Start(); err != nil {
				panic(err)
			}
			defer func() { _ = c.Process.Kill(); _ = c.Wait() }()
			go func() {
				r := bufio.NewReader(so)
				for {
					if _, err := r.ReadByte(); err != nil {
						return
					}
				}
			}()
			end := time.Now().Add(20 * time.Second)
			for time.Now().Before(end) {
				cn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
				if err != nil {
					time.Sleep(20 * time.Millisecond)
					continue
				}
				cn.Close()
				rs := srv.Take()
				if len(rs) != 1 || !strings.Contains(rs[0].URI, fmt.Sprintf("port=%d", port)) {
					return fmt.Errorf("announces: %v, want one with port %d", rs, port)
				}
				return nil
			}
			return fmt.Errorf("nothing listens on port %d", port)
		})
		b.Distinct(1)
	}
}

type sink struct{ n *int }

func (s sink) Write(p []byte) (int, error) { *s.n++; return len(p), nil }
func (s sink) Read(p []byte) (int, error)  { *s.n++; return len(p), nil }

// effect: the limits of the command line are those of the swarm's limiter.
func effect(b *run.B, u, d string) {
	setup()
	vos.Sched = false
	if len(os.Args) > 1 {
		os.Args = []string{os.Args[0], "-i", tf, "-w", wd, "-p", "6881", "-u=" + u, "-d=" + d}
	}
	o := utils.GetOpts()
	vu, _ := limit(u)
	vd, _ := limit(d)
	want := func(v int64, n int) int {
		if v >= 0 && v < int64(n) {
			return int(v)
		}
		return n
	}
	const n = 5
	b.Explore(fmt.Sprintf("%d writes and reads of 1 byte under -u %s -d %s", n, u, d), vs.Config{Bound: 0, MaxSteps: 5000}, func() {
		srv.Take()
		s, err := swarm.NewSwarm(o)
		if err != nil {
			panic(err)
		}
		defer s.Fileio.CloseAll()
		nw, nr := 0, 0
		vs.Go(func() {
			for i := 0; i < n; i++ {
				_ = s.RLIO.Write(sink{&nw}, []byte{1})
			}
		})
		vs.Go(func() {
			for i := 0; i < n; i++ {
				_ = s.RLIO.Read(sink{&nr}, make([]byte, 1))
			}
		})
		vs.Settle()
		vs.Observe("%d %d", nw, nr)
	}, func(x *vs.Exec) error {
		if x.Outcome != "done" || len(x.Obs) != 1 {
			return vs.DefaultCheck(x)
		}
		if w := fmt.Sprintf("%d %d", want(vu, n), want(vd, n)); x.Obs[0] != w {
			return fmt.Errorf("writes and reads admitted in the first second: %s, want %s", x.Obs[0], w)
		}
		return nil
	})
}
