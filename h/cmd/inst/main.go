// inst copies the Go module SRC to DST with every synchronisation operation
// replaced by a call into the controlled scheduler (shim packages in SHIM).
// Usage: inst SRC SHIM DST
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"sync": "vsync", "sync/atomic": "vatomic", "time": "vtime", "os": "vos",
	"net": "vnet", "log": "vlog", "fmt": "vfmt", "context": "vcontext",
}

type listed struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path string }
}

func fatal(args ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"inst:"}, args...)...)
	os.Exit(3)
}

func main() {
	src, shim, dst := os.Args[1], os.Args[2], os.Args[3]
	src, _ = filepath.Abs(src)
	dst, _ = filepath.Abs(dst)
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,Imports,Standard,Module", "./...")
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	export := map[string]string{}
	var own []listed
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		export[l.ImportPath] = l.Export
		if !l.Standard {
			own = append(own, l)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := export[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	if err := os.MkdirAll(dst, 0o755); err != nil {
		fatal(err)
	}
	if b, err := os.ReadFile(filepath.Join(src, "go.mod")); err == nil {
		if err := os.WriteFile(filepath.Join(dst, "go.mod"), b, 0o644); err != nil {
			fatal(err)
		}
	} else {
		fatal(err)
	}
	if b, err := os.ReadFile(filepath.Join(src, "go.sum")); err == nil {
		_ = os.WriteFile(filepath.Join(dst, "go.sum"), b, 0o644)
	}
	mod := ""
	for _, l := range own {
		if l.Module != nil {
			mod = l.Module.Path
		}
	}
	for _, l := range own {
		rel, err := filepath.Rel(src, l.Dir)
		if err != nil || strings.HasPrefix(rel, "..") {
			fatal("package outside the module:", l.Dir)
		}
		od := filepath.Join(dst, rel)
		if err := os.MkdirAll(od, 0o755); err != nil {
			fatal(err)
		}
		var files []*ast.File
		var texts [][]byte
		for _, g := range l.GoFiles {
			text, err := os.ReadFile(filepath.Join(l.Dir, g))
			if err != nil {
				fatal(err)
			}
			f, err := parser.ParseFile(fset, filepath.Join(l.Dir, g), text, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			files = append(files, f)
			texts = append(texts, text)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		_, _ = conf.Check(l.ImportPath, fset, files, info)
		for i, f := range files {
			r := &rewriter{fset: fset, file: f, text: texts[i], info: info, mod: mod}
			if err := os.WriteFile(filepath.Join(od, l.GoFiles[i]), []byte(r.run()), 0o644); err != nil {
				fatal(err)
			}
		}
	}
	if err := copyTree(shim, filepath.Join(dst, "zv")); err != nil {
		fatal(err)
	}
}

func copyTree(a, b string) error {
	return filepath.Walk(a, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(a, p)
		t := filepath.Join(b, rel)
		if fi.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		d, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, d, 0o644)
	})
}

type edit struct {
	start, end int
	seq        int
	f          func() string
}

type rewriter struct {
	fset  *token.FileSet
	file  *ast.File
	text  []byte
	info  *types.Info
	mod   string
	edits []edit
	n     int
	two   map[*ast.UnaryExpr]bool
	skip  map[ast.Node]bool
	label map[ast.Node]*ast.LabeledStmt
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) add(start, end int, f func() string) {
	r.edits = append(r.edits, edit{start, end, len(r.edits), f})
}

func (r *rewriter) str(start, end int, s string) { r.add(start, end, func() string { return s }) }

// gen renders the source range with all edits inside it applied.
func (r *rewriter) gen(a, b int) string {
	var out strings.Builder
	pos := a
	for _, e := range r.edits {
		if e.start < pos || e.start < a || e.end > b {
			continue
		}
		out.Write(r.text[pos:e.start])
		out.WriteString(e.f())
		pos = e.end
	}
	out.Write(r.text[pos:b])
	return out.String()
}

// genX renders a range without the edit that covers it exactly.
func (r *rewriter) node(n ast.Node) string { return r.gen(r.off(n.Pos()), r.off(n.End())) }

func (r *rewriter) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	o, ok := r.info.Uses[id]
	if !ok {
		return true
	}
	_, ok = o.(*types.Builtin)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	if e == nil {
		return nil
	}
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) run() string {
	r.two = map[*ast.UnaryExpr]bool{}
	r.skip = map[ast.Node]bool{}
	r.label = map[ast.Node]*ast.LabeledStmt{}
	for _, im := range r.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		sh, ok := shims[path]
		if !ok {
			continue
		}
		np := strconv.Quote(r.mod + "/zv/" + sh)
		a, b := r.off(im.Path.Pos()), r.off(im.Path.End())
		if im.Name == nil {
			base := path[strings.LastIndex(path, "/")+1:]
			r.str(a, b, base+" "+np)
		} else if im.Name.Name != "_" && im.Name.Name != "." {
			r.str(a, b, np)
		}
	}
	e := r.off(r.file.Name.End())
	r.str(e, e, "; import zvs "+strconv.Quote(r.mod+"/zv/vs"))
	ast.Inspect(r.file, r.visit)
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].start != r.edits[j].start {
			return r.edits[i].start < r.edits[j].start
		}
		return r.edits[i].end > r.edits[j].end
	})
	return r.gen(0, len(r.text)) + "\n\nvar _ = zvs.Use\n"
}

func (r *rewriter) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.LabeledStmt:
		if s, ok := n.Stmt.(*ast.SelectStmt); ok {
			r.label[s] = n
			// the label moves onto the switch
			r.str(r.off(n.Pos()), r.off(n.Colon)+1, "")
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u := arrow(n.Rhs[0]); u != nil {
				r.two[u] = true
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u := arrow(n.Values[0]); u != nil {
				r.two[u] = true
			}
		}
	case *ast.ForStmt:
		p := r.off(n.Body.Lbrace) + 1
		r.str(p, p, " zvs.Loop();")
	case *ast.RangeStmt:
		if r.isChan(n.X) {
			r.rangeChan(n)
		} else {
			p := r.off(n.Body.Lbrace) + 1
			r.str(p, p, " zvs.Loop();")
		}
	case *ast.SendStmt:
		if !r.skip[n] {
			a, b := r.off(n.Pos()), r.off(n.End())
			ca, cb := r.off(n.Chan.Pos()), r.off(n.Chan.End())
			va, vb := r.off(n.Value.Pos()), r.off(n.Value.End())
			r.add(a, b, func() string {
				return "zvs.Send(" + r.inner(ca, cb, a, b) + ")(" + r.inner(va, vb, a, b) + ")"
			})
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !r.skip[n] {
			a, b := r.off(n.Pos()), r.off(n.End())
			xa, xb := r.off(n.X.Pos()), r.off(n.X.End())
			fn := "zvs.Recv("
			if r.two[n] {
				fn = "zvs.Recv2("
			}
			r.add(a, b, func() string { return fn + r.inner(xa, xb, a, b) + ")" })
		}
	case *ast.CallExpr:
		if len(n.Args) == 1 && r.isBuiltin(n.Fun, "close") {
			r.str(r.off(n.Fun.Pos()), r.off(n.Fun.End()), "zvs.Close")
		}
		if len(n.Args) == 1 && r.isBuiltin(n.Fun, "len") && r.isChan(n.Args[0]) {
			r.str(r.off(n.Fun.Pos()), r.off(n.Fun.End()), "zvs.Len")
		}
	case *ast.GoStmt:
		r.goStmt(n)
	case *ast.SelectStmt:
		r.selectStmt(n)
	}
	return true
}

// inner renders a sub-range of the edit [a,b).
func (r *rewriter) inner(x, y, a, b int) string {
	if x == a && y == b {
		panic("inst: sub-range equals the edit")
	}
	return r.gen(x, y)
}

func (r *rewriter) rangeChan(n *ast.RangeStmt) {
	r.n++
	k := r.n
	head := r.off(n.Pos())
	lb := r.off(n.Body.Lbrace) + 1
	r.add(head, lb, func() string {
		s := fmt.Sprintf("for zvsR%d := (%s); ; { zvs.Loop(); zvsV%d, zvsOk%d := zvs.Recv2(zvsR%d); if !zvsOk%d { break }; ", k, r.node(n.X), k, k, k, k)
		if n.Key == nil {
			return s + fmt.Sprintf("_ = zvsV%d;", k)
		}
		key := r.node(n.Key)
		if key == "_" {
			return s + fmt.Sprintf("_ = zvsV%d;", k)
		}
		return s + fmt.Sprintf("%s %s zvsV%d;", key, n.Tok, k)
	})
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	r.n++
	k := r.n
	a, b := r.off(n.Pos()), r.off(n.End())
	call := n.Call
	r.add(a, b, func() string {
		var pre strings.Builder
		fun := ""
		if fl, ok := unparen(call.Fun).(*ast.FuncLit); ok {
			fun = r.node(fl)
			if len(call.Args) == 0 && fl.Type.Results.NumFields() == 0 {
				return "zvs.Go(" + fun + ")"
			}
		} else {
			tv := r.info.Types[call.Fun]
			fun = r.node(call.Fun)
			if !tv.IsBuiltin() && !tv.IsType() && !r.inferred(call.Fun) {
				fmt.Fprintf(&pre, "zvsF%d := %s; ", k, fun)
				fun = fmt.Sprintf("zvsF%d", k)
			}
		}
		var args []string
		for i, x := range call.Args {
			tv, ok := r.info.Types[x]
			t := r.node(x)
			if ok && (tv.Value != nil || tv.IsNil()) {
				args = append(args, t)
				continue
			}
			fmt.Fprintf(&pre, "zvsA%d_%d := %s; ", k, i, t)
			args = append(args, fmt.Sprintf("zvsA%d_%d", k, i))
		}
		ell := ""
		if call.Ellipsis.IsValid() {
			ell = "..."
		}
		return "{ " + pre.String() + "zvs.Go(func() { " + fun + "(" + strings.Join(args, ", ") + ell + ") }) }"
	})
}

// inferred reports a generic function called without explicit type arguments.
func (r *rewriter) inferred(e ast.Expr) bool {
	var id *ast.Ident
	switch e := unparen(e).(type) {
	case *ast.Ident:
		id = e
	case *ast.SelectorExpr:
		id = e.Sel
	default:
		return false
	}
	_, ok := r.info.Instances[id]
	return ok
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) {
	a, b := r.off(n.Pos()), r.off(n.End())
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			r.skip[s] = true
		case *ast.ExprStmt:
			if u := arrow(s.X); u != nil {
				r.skip[u] = true
			}
		case *ast.AssignStmt:
			if u := arrow(s.Rhs[0]); u != nil {
				r.skip[u] = true
			}
		}
	}
	r.n++
	base := r.n
	r.add(a, b, func() string {
		var pre, body strings.Builder
		var names []string
		def := ""
		hasDef := false
		idx := 0
		for i, c := range n.Body.List {
			cc := c.(*ast.CommClause)
			end := r.off(n.Body.Rbrace)
			if i+1 < len(n.Body.List) {
				end = r.off(n.Body.List[i+1].Pos())
			}
			text := r.gen(r.off(cc.Colon)+1, end)
			if cc.Comm == nil {
				hasDef = true
				def = text
				continue
			}
			name := fmt.Sprintf("zvsC%d_%d", base, idx)
			names = append(names, name)
			bind := ""
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				fmt.Fprintf(&pre, "%s := zvs.SendCase(%s)(%s); ", name, r.node(s.Chan), r.node(s.Value))
			case *ast.ExprStmt:
				fmt.Fprintf(&pre, "%s := zvs.RecvCase(%s); ", name, r.node(arrow(s.X).X))
			case *ast.AssignStmt:
				fmt.Fprintf(&pre, "%s := zvs.RecvCase(%s); ", name, r.node(arrow(s.Rhs[0]).X))
				var lhs []string
				for _, l := range s.Lhs {
					lhs = append(lhs, r.node(l))
				}
				f := "Val"
				if len(s.Lhs) == 2 {
					f = "Val2"
				}
				bind = fmt.Sprintf("%s %s %s.%s(); ", strings.Join(lhs, ", "), s.Tok, name, f)
			}
			fmt.Fprintf(&body, "case %d: %s%s\n", idx, bind, text)
			idx++
		}
		if hasDef {
			fmt.Fprintf(&body, "default: %s\n", def)
		} else {
			body.WriteString("default: panic(\"zvs: select\")\n")
		}
		lab := ""
		if l, ok := r.label[n]; ok {
			lab = l.Label.Name + ": "
		}
		args := append([]string{fmt.Sprint(hasDef)}, names...)
		return "{ " + pre.String() + lab + "switch zvs.Select(" + strings.Join(args, ", ") + ") {\n" + body.String() + "} }"
	})
}
