// C27: the linked list and the set behave like their models. Every reachable
// arrangement of up to k nodes in two lists, with every operation from each,
// and every operation sequence up to a depth, run on the real containers.
package main

import (
	"fmt"
	"sort"
	"strings"

	"gotor/utils/ds"
	"vh/run"
)

func main() {
	run.Main(run.Spec{
		ID:    "C27",
		Level: "model_checking",
		Rule:  "linked lists: breadth-first closure over all arrangements of up to 5 (thorough 6) nodes in two lists, loose nodes included, with every insertion, removal, move and clear from each, plus every operation sequence up to depth 6 (7) on 3 nodes; sets: every operation sequence up to depth 7 (8) over 3 keys with two elements each, judged on membership, size, items and results after every step",
		Note:  []string{"removing a node from a list it is not in, and inserting a node that is in a list, are misuse and not called"},
		Blocks: func(tier string) []run.Block {
			nodes, depth, sdepth := 5, 6, 7
			if tier == "thorough" {
				nodes, depth, sdepth = 6, 7, 8
			}
			var bs []run.Block
			for n := 1; n <= nodes; n++ {
				n := n
				bs = append(bs, run.Block{Name: fmt.Sprintf("closure/%d", n), Fn: func(b *run.B) { closure(b, n) }})
			}
			for _, o := range newWorld(3).model.ops() {
				o := o
				bs = append(bs, run.Block{Name: "sequences/" + o.String(), Fn: func(b *run.B) { sequences(b, o, 3, depth) }})
			}
			for i := 0; i < len(setOps()); i++ {
				i := i
				bs = append(bs, run.Block{Name: fmt.Sprintf("sets/%d", i), Fn: func(b *run.B) { sets(b, i, sdepth) }})
			}
			bs = append(bs, run.Block{Name: "long", Fn: long})
			return bs
		},
	})
}

// model of two lists over nodes 0..n-1; a node is unborn, in a list or loose.
type model struct {
	list  [2][]int
	state []int // -1 unborn, 0/1 in that list, 2 loose
}

type op struct {
	kind string // new, add, remove, move, clear
	node int
	list int
}

func (o op) String() string { return fmt.Sprintf("%s-%d-%d", o.kind, o.node, o.list) }

func (m *model) ops() []op {
	var r []op
	for l := 0; l < 2; l++ {
		for n, s := range m.state {
			if s == -1 {
				r = append(r, op{"new", n, l})
				break
			}
		}
		for n, s := range m.state {
			switch s {
			case 2:
				r = append(r, op{"add", n, l})
			case l:
				r = append(r, op{"remove", n, l}, op{"move", n, l}, op{"front", n, l})
			}
		}
		r = append(r, op{"clear", 0, l})
	}
	return r
}

func (m *model) del(n, l int) {
	var k []int
	for _, x := range m.list[l] {
		if x != n {
			k = append(k, x)
		}
	}
	m.list[l] = k
	m.state[n] = 2
}

func (m *model) add(n, l int) {
	m.list[l] = append([]int{n}, m.list[l]...)
	m.state[n] = l
}

func (m *model) apply(o op) {
	switch o.kind {
	case "new", "add":
		m.add(o.node, o.list)
	case "remove":
		m.del(o.node, o.list)
	case "move":
		m.del(o.node, o.list)
		m.add(o.node, 1-o.list)
	case "front":
		m.del(o.node, o.list)
		m.add(o.node, o.list)
	case "clear":
		for _, x := range m.list[o.list] {
			m.state[x] = 2
		}
		m.list[o.list] = nil
	}
}

type world struct {
	model *model
	lists [2]ds.LinkedList[int]
	nodes []*ds.Node[int]
}

func newWorld(n int) *world {
	w := &world{model: &model{state: make([]int, n)}, nodes: make([]*ds.Node[int], n)}
	for i := range w.model.state {
		w.model.state[i] = -1
	}
	for l := range w.lists {
		w.lists[l] = ds.Make[int]()
	}
	return w
}

func (w *world) apply(o op) error {
	l := &w.lists[o.list]
	switch o.kind {
	case "new":
		w.nodes[o.node] = l.AddDataFront(o.node)
		if w.nodes[o.node] == nil || w.nodes[o.node].Data != o.node {
			return fmt.Errorf("AddDataFront returns another node")
		}
	case "add":
		l.AddNodeFront(w.nodes[o.node])
	case "remove":
		l.Remove(w.nodes[o.node])
	case "move":
		l.Remove(w.nodes[o.node])
		w.lists[1-o.list].AddNodeFront(w.nodes[o.node])
	case "front":
		l.Remove(w.nodes[o.node])
		l.AddNodeFront(w.nodes[o.node])
	case "clear":
		l.Clear()
	}
	w.model.apply(o)
	return w.check()
}

func (w *world) check() error {
	for l := range w.lists {
		want := w.model.list[l]
		var prev *ds.Node[int]
		cur := w.lists[l].Head()
		for i, x := range want {
			if cur == nil {
				return fmt.Errorf("list %d ends after %d elements, want %v", l, i, want)
			}
			if cur != w.nodes[x] || cur.Data != x {
				return fmt.Errorf("element %d of list %d is %d, want %v", i, l, cur.Data, want)
			}
			if cur.Prev() != prev {
				return fmt.Errorf("element %d of list %d does not point back to the one before (want %v)", i, l, want)
			}
			prev, cur = cur, cur.Next()
		}
		if cur != nil {
			return fmt.Errorf("list %d goes on after its %d elements %v with %d", l, len(want), want, cur.Data)
		}
	}
	return nil
}

// key: the arrangement and where every node's pointers lead, loose ones too.
func (w *world) key() string {
	var s strings.Builder
	id := func(n *ds.Node[int]) int {
		if n == nil {
			return -1
		}
		return n.Data
	}
	fmt.Fprint(&s, w.model.list, w.model.state)
	for _, n := range w.nodes {
		if n != nil {
			fmt.Fprintf(&s, " %d/%d", id(n.Next()), id(n.Prev()))
		}
	}
	return s.String()
}

func path(ops []op) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}

func replay(n int, ops []op) (*world, error) {
	w := newWorld(n)
	for i, o := range ops {
		if err := w.apply(o); err != nil {
			return w, fmt.Errorf("after step %d (%v): %v", i+1, o, err)
		}
	}
	return w, nil
}

// closure explores all arrangements breadth first.
func closure(b *run.B, n int) {
	type item struct{ ops []op }
	seen := map[string]bool{newWorld(n).key(): true}
	queue := []item{{}}
	limit := 60000
	if b.Thorough() {
		limit = 400000
	}
	for len(queue) > 0 && len(seen) < limit {
		if b.Expired() {
			return
		}
		it := queue[0]
		queue = queue[1:]
		w, _ := replay(n, it.ops)
		for _, o := range w.model.ops() {
			ops := append(it.ops[:len(it.ops):len(it.ops)], o)
			b.Transitions(1)
			b.Traces(1)
			key := ""
			b.Case(func() string { return path(ops) }, func() error {
				w, err := replay(n, ops)
				if err == nil {
					key = w.key()
				}
				return err
			})
			if b.Stopped() {
				return
			}
			if key != "" && !seen[key] {
				seen[key] = true
				queue = append(queue, item{ops})
			}
		}
	}
	if len(queue) > 0 {
		b.Count("unexpanded", int64(len(queue)))
	}
	b.States(int64(len(seen)))
	b.Sample("%d arrangements of %d nodes", len(seen), n)
}

// sequences: no state merging, in case something hidden tells states apart.
func sequences(b *run.B, first op, n, depth int) {
	var rec func(ops []op)
	rec = func(ops []op) {
		if b.Expired() {
			return
		}
		m := newWorld(n).model
		for _, o := range ops {
			m.apply(o)
		}
		if len(ops) == depth {
			ops := append([]op{}, ops...)
			b.Transitions(int64(depth))
			b.Traces(1)
			b.Case(func() string { return path(ops) }, func() error { _, err := replay(n, ops); return err })
			return
		}
		for _, o := range m.ops() {
			rec(append(ops[:len(ops):len(ops)], o))
		}
	}
	rec([]op{first})
}

func long(b *run.B) {
	for _, n := range []int{10, 63, 64, 65, 500} {
		for stride := 1; stride <= 7; stride += 2 {
			n, stride := n, stride
			b.Case(func() string { return fmt.Sprintf("%d nodes, moved in steps of %d", n, stride) }, func() error {
				w := newWorld(n)
				for i := 0; i < n; i++ {
					if err := w.apply(op{"new", i, 0}); err != nil {
						return err
					}
				}
				for i := 0; i < n; i++ {
					x := i * stride % n
					if err := w.apply(op{"move", x, w.model.state[x]}); err != nil {
						return err
					}
				}
				for i := 0; i < n; i += 2 {
					if err := w.apply(op{"remove", i, w.model.state[i]}); err != nil {
						return err
					}
				}
				for i := 0; i < n; i += 4 {
					if err := w.apply(op{"add", i, i / 4 % 2}); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
}

// sets

type elem struct{ key, tag string }

func (e *elem) Key() string { return e.key }

type setOp struct {
	add bool
	e   elem
}

func setOps() []setOp {
	var r []setOp
	for _, k := range []string{"", "a", "b"} {
		for _, t := range []string{"1", "2"} {
			r = append(r, setOp{true, elem{k, t}}, setOp{false, elem{k, t}})
		}
	}
	return r
}

func sets(b *run.B, first, depth int) {
	ops := setOps()
	var seq []int
	check := func(s *ds.Set[*elem], m map[string]bool) error {
		if s.Size() != len(m) {
			return fmt.Errorf("size %d, want %d", s.Size(), len(m))
		}
		for _, k := range []string{"", "a", "b", "c"} {
			if s.Has(&elem{k, "x"}) != m[k] {
				return fmt.Errorf("membership of %q is %v", k, !m[k])
			}
		}
		var got, want []string
		for _, e := range s.Items() {
			if e == nil {
				return fmt.Errorf("an item is nil")
			}
			got = append(got, e.key)
		}
		for k := range m {
			want = append(want, k)
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			return fmt.Errorf("items %q, want %q", got, want)
		}
		return nil
	}
	exec := func(seq []int) error {
		s := ds.MakeSet[*elem]()
		m := map[string]bool{}
		if err := check(&s, m); err != nil {
			return err
		}
		for i, x := range seq {
			o := ops[x]
			e := o.e
			was := m[e.key]
			var ret bool
			if o.add {
				ret = s.Add(&e)
				m[e.key] = true
			} else {
				ret = s.Remove(&e)
				delete(m, e.key)
			}
			if ret != (m[e.key] != was) {
				return fmt.Errorf("step %d (%+v) returns %v", i+1, o, ret)
			}
			if i >= len(seq)-2 {
				if err := check(&s, m); err != nil {
					return fmt.Errorf("after step %d (%+v): %v", i+1, o, err)
				}
			}
		}
		return nil
	}
	var rec func()
	rec = func() {
		if b.Expired() {
			return
		}
		c := append([]int{}, seq...)
		b.Transitions(1)
		b.Traces(1)
		b.Case(func() string {
			var d []string
			for _, x := range c {
				d = append(d, fmt.Sprintf("%+v", ops[x]))
			}
			return strings.Join(d, " ")
		}, func() error { return exec(c) })
		if len(seq) == depth-2 {
			return
		}
		for i := range ops {
			seq = append(seq, i)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	seq = []int{first}
	rec()
	b.States(8)
}
