// Command instrument writes a build overlay that puts the code under test
// behind the simulator's seams, without touching it:
//
//   - in every non-test package of the repository, and in its bufferpool
//     dependency, the lock, pool, once, wait-group, condition and clock
//     primitives of the standard library are replaced by verifsim/rt's, the
//     atomics by verifsim/simatomic's, go statements by rt.Go, and rt.Y()
//     (a scheduling point that is a no-op unless a run asks for it) is put
//     before every statement;
//   - runtime/rand.go gets a switch that makes map iteration order a function
//     of the run's seed.
//
// Nothing else about the code changes, in particular no line numbers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	at, end int
	text    string
}

var syncNames = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "WaitGroup": true, "Cond": true, "NewCond": true, "Pool": true, "Map": true}
var timeNames = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "AfterFunc": true, "NewTimer": true, "Timer": true}

// chanNames are the names that a package declares as channels. Ranges over
// them are told from other ranges by that.
func chanNames(f *ast.File, into map[string]bool) {
	isChan := func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.ChanType:
			return true
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) > 0 {
				_, ok = x.Args[0].(*ast.ChanType)
				return ok
			}
		}
		return false
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Field:
			if isChan(x.Type) {
				for _, id := range x.Names {
					into[id.Name] = true
				}
			}
		case *ast.ValueSpec:
			for i, id := range x.Names {
				if x.Type != nil && isChan(x.Type) || i < len(x.Values) && isChan(x.Values[i]) {
					into[id.Name] = true
				}
			}
		case *ast.AssignStmt:
			for i, l := range x.Lhs {
				if i < len(x.Rhs) && isChan(x.Rhs[i]) {
					if id, ok := l.(*ast.Ident); ok {
						into[id.Name] = true
					}
				}
			}
		case *ast.FuncDecl:
			if x.Type.Results != nil {
				for _, r := range x.Type.Results.List {
					if isChan(r.Type) {
						into[x.Name.Name] = true
					}
				}
			}
		}
		return true
	})
}

// lastName is the name that an expression ends in.
func lastName(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return x.Sel.Name
	case *ast.CallExpr:
		return lastName(x.Fun)
	case *ast.ParenExpr:
		return lastName(x.X)
	}
	return ""
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x
			}
		}
		return nil
	}
}

var stats = map[string]int{}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

// apply returns src[from:to] with the edits made.
func apply(src []byte, from, to int, edits []edit) ([]byte, error) {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var out []byte
	pos := from
	for _, e := range edits {
		if e.at < pos || e.end > to {
			return nil, fmt.Errorf("overlapping edits at %d", e.at)
		}
		out = append(out, src[pos:e.at]...)
		out = append(out, e.text...)
		pos = e.end
	}
	return append(out, src[pos:to]...), nil
}

func rewrite(src []byte, name string, stmts bool, chans map[string]bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	names := map[string]string{} // local name -> import path
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		switch path {
		case "sync", "time":
			n := path
			if im.Name != nil {
				n = im.Name.Name
			}
			names[n] = path
		case "sync/atomic":
			text := `"verifsim/simatomic"`
			if im.Name == nil {
				text = "atomic " + text
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), text})
			stats["atomic_imports"]++
		}
	}
	useRT := false
	touched := map[string]bool{}
	insertY := func(list []ast.Stmt) {
		if !stmts {
			return
		}
		for _, st := range list {
			switch st.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			edits = append(edits, edit{off(st.Pos()), off(st.Pos()), "verifrt.Y(); "})
			stats["statement_points"]++
			useRT = true
		}
	}
	text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
	put := func(a, b token.Pos, s string) {
		edits = append(edits, edit{off(a), off(b), s})
		useRT = true
	}
	two := map[*ast.UnaryExpr]bool{}
	skip := map[ast.Node]bool{}
	var visit func(n ast.Node) bool
	var bad error
	// moved is the rewritten text of an expression that another edit places elsewhere.
	moved := func(n ast.Node) string {
		saved := edits
		edits = nil
		ast.Inspect(n, visit)
		out, err := apply(src, off(n.Pos()), off(n.End()), edits)
		if err != nil {
			bad = fmt.Errorf("%s: %w", name, err)
		}
		edits = saved
		return string(out)
	}
	visit = func(n ast.Node) bool {
		if n != nil && skip[n] {
			return false
		}
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u := recvOf(x.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := recvOf(x.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if stmts && x.Op == token.ARROW {
				fn := "verifrt.Recv("
				if two[x] {
					fn = "verifrt.Recv2("
				}
				put(x.OpPos, x.X.Pos(), fn)
				put(x.End(), x.End(), ")")
				stats["channel_ops"]++
			}
		case *ast.SendStmt:
			if stmts {
				put(x.Pos(), x.Pos(), "verifrt.Send(")
				put(x.Arrow, x.Value.Pos(), ", ")
				put(x.End(), x.End(), ")")
				stats["channel_ops"]++
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && stmts && id.Name == "close" && id.Obj == nil && len(x.Args) == 1 {
				put(id.Pos(), id.End(), "verifrt.Close")
				stats["channel_ops"]++
			}
		case *ast.RangeStmt:
			if stmts && chans[lastName(x.X)] {
				// for v := range ch  ->  for f := verifrt.Each(ch); ; { v, ok := f(); if !ok { break }; ... }
				v := "_"
				tok := ":="
				if x.Key != nil {
					v = text(x.Key.Pos(), x.Key.End())
					tok = x.Tok.String()
				}
				body := ""
				if v == "_" {
					body = "if _, verifok := verifnext(); !verifok { break }; "
				} else if tok == ":=" {
					body = v + ", verifok := verifnext(); if !verifok { break }; "
				} else {
					body = "verifv, verifok := verifnext(); if !verifok { break }; " + v + " = verifv; "
				}
				put(x.For, x.X.Pos(), "for verifnext := verifrt.Each(")
				put(x.X.End(), x.Body.Lbrace+1, "); ; {"+body)
				if x.Key != nil {
					skip[x.Key] = true
				}
				stats["channel_ops"]++
			}
		case *ast.SelectStmt:
			if !stmts {
				return true
			}
			stats["channel_ops"]++
			var vars, inits []string
			hasDefault := false
			for i, c := range x.Body.List {
				cc := c.(*ast.CommClause)
				if cc.Comm == nil {
					hasDefault = true
					continue
				}
				v := fmt.Sprintf("verifc%d", i)
				head := fmt.Sprintf("case %d: ", len(vars))
				switch st := cc.Comm.(type) {
				case *ast.SendStmt:
					inits = append(inits, "verifrt.CSend("+moved(st.Chan)+", "+moved(st.Value)+")")
				case *ast.ExprStmt:
					u := recvOf(st.X)
					inits = append(inits, "verifrt.CRecv("+moved(u.X)+")")
				case *ast.AssignStmt:
					u := recvOf(st.Rhs[0])
					inits = append(inits, "verifrt.CRecv("+moved(u.X)+")")
					for j, e := range st.Lhs {
						if j > 0 {
							head += ", "
						}
						head += moved(e)
					}
					head += " " + st.Tok.String() + " " + v + ".V"
					if len(st.Lhs) == 2 {
						head += ", " + v + ".OK"
					}
					head += "; "
				}
				vars = append(vars, v)
				put(cc.Case, cc.Colon+1, head)
				skip[cc.Comm] = true
			}
			if len(vars) == 0 && !hasDefault {
				put(x.Select, x.End(), "verifrt.Select(false); panic(0)")
				return false
			}
			head := "switch "
			if len(vars) > 0 {
				head += strings.Join(vars, ", ") + " := " + strings.Join(inits, ", ") + "; "
			}
			head += fmt.Sprintf("verifrt.Select(%s) {", strings.Join(append([]string{fmt.Sprint(hasDefault)}, vars...), ", "))
			put(x.Select, x.Body.Lbrace+1, head)
			if !hasDefault {
				put(x.Body.Rbrace, x.Body.Rbrace, "; default: panic(0)\n")
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			p := names[id.Name]
			if p == "sync" && syncNames[x.Sel.Name] || p == "time" && timeNames[x.Sel.Name] {
				edits = append(edits, edit{off(id.Pos()), off(id.End()), "verifrt"})
				stats[p+"."+x.Sel.Name]++
				useRT = true
				touched[id.Name] = true
			}
		case *ast.BlockStmt:
			insertY(x.List)
		case *ast.CaseClause:
			insertY(x.Body)
		case *ast.CommClause:
			insertY(x.Body)
		case *ast.GoStmt:
			if !stmts {
				return true
			}
			stats["go_statements"]++
			if _, lit := x.Call.Fun.(*ast.FuncLit); lit && len(x.Call.Args) == 0 {
				put(x.Go, x.Call.Pos(), "verifrt.Go(")
				put(x.Call.Lparen, x.Call.End(), ")")
			} else {
				// Arguments (and the receiver) are evaluated now, not later.
				var vars, vals []string
				keep := func(e ast.Expr, v string) {
					switch y := e.(type) {
					case *ast.BasicLit, *ast.FuncLit:
						return
					case *ast.Ident:
						if y.Name == "nil" || y.Name == "true" || y.Name == "false" {
							return
						}
					}
					vars = append(vars, v)
					vals = append(vals, moved(e))
					put(e.Pos(), e.End(), v)
					skip[e] = true
				}
				for i, a := range x.Call.Args {
					keep(a, fmt.Sprintf("verifa%d", i))
				}
				if id, ok := x.Call.Fun.(*ast.Ident); !ok || id.Obj != nil && id.Obj.Kind == ast.Var {
					keep(x.Call.Fun, "veriff")
				}
				pre := ""
				if len(vars) > 0 {
					pre = strings.Join(vars, ", ") + " := " + strings.Join(vals, ", ") + "; "
				}
				put(x.Go, x.Call.Pos(), "{ "+pre+"verifrt.Go(func() { ")
				put(x.Call.End(), x.Call.End(), " }) }")
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	if bad != nil {
		return nil, bad
	}
	if len(edits) == 0 {
		return nil, nil
	}
	tail := ""
	if useRT {
		p := off(f.Name.End())
		edits = append(edits, edit{p, p, `; import verifrt "verifsim/rt"`})
		for n := range touched {
			if names[n] == "sync" {
				tail += "\nvar _ " + n + ".Locker\n"
			} else {
				tail += "\nvar _ " + n + ".Duration\n"
			}
		}
		if len(edits) > 0 {
			tail += "\nvar _ = verifrt.Y\n"
		}
	}
	out, err := apply(src, 0, len(src), edits)
	if err != nil {
		return nil, fmt.Errorf("%s: %w", name, err)
	}
	out = append(out, tail...)
	return out, nil
}

func main() {
	repo := flag.String("repo", "/repo", "repository under test")
	out := flag.String("out", "", "output directory")
	goroot := flag.String("goroot", "", "GOROOT")
	pool := flag.String("bufferpool", "", "private copy of the bufferpool module, rewritten in place")
	noGo := flag.Bool("nogo", false, "leave go statements and statement boundaries alone")
	bridge := flag.String("bridge", "", "source of the bridge package placed inside the module")
	flag.Parse()
	replace := map[string]string{}
	inPlace := false
	add := func(path string, data []byte) {
		if inPlace {
			fatal(os.WriteFile(path, data, 0o644))
			return
		}
		dst := filepath.Join(*out, "ov", strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "__"))
		fatal(os.MkdirAll(filepath.Dir(dst), 0o755))
		fatal(os.WriteFile(dst, data, 0o644))
		replace[path] = dst
	}
	chans := map[string]map[string]bool{}
	walk := func(root string, stmts bool) {
		fatal(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() {
				b := fi.Name()
				if p != root && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			dir := filepath.Dir(p)
			if chans[dir] == nil {
				chans[dir] = map[string]bool{}
				names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
				for _, q := range names {
					if f, err := parser.ParseFile(token.NewFileSet(), q, nil, 0); err == nil && !strings.HasSuffix(q, "_test.go") {
						chanNames(f, chans[dir])
					}
				}
			}
			res, err := rewrite(src, p, stmts, chans[dir])
			if err != nil {
				return err
			}
			if res != nil {
				add(p, res)
				stats["files"]++
			}
			return nil
		}))
	}
	walk(*repo, !*noGo)
	if *pool != "" {
		// A private copy of the module: files of the module cache cannot be
		// overlaid.
		inPlace = true
		walk(*pool, false)
		inPlace = false
	}
	if *bridge != "" {
		src, err := os.ReadFile(*bridge)
		fatal(err)
		add(filepath.Join(*repo, "verifbridge", "bridge.go"), src)
	}
	mapRand := false
	rand := filepath.Join(*goroot, "src/runtime/rand.go")
	if src, err := os.ReadFile(rand); err == nil {
		text := string(src)
		a := "func maps_rand() uint64 {\n\treturn rand()\n}"
		b := "\tglobalRand.state.Init(*seed)\n"
		if strings.Count(text, a) == 1 && strings.Count(text, b) == 1 {
			text = strings.Replace(text, a, `func maps_rand() uint64 {
	if verifMapState != 0 {
		verifMapState += 0x9e3779b97f4a7c15
		x := verifMapState
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		x = (x ^ (x >> 27)) * 0x94d049bb133111eb
		return x ^ (x >> 31)
	}
	return rand()
}

//go:linkname verifMapState
var verifMapState uint64`, 1)
			text = strings.Replace(text, b, "\tfor i := range seed {\n\t\tseed[i] = byte(i*7 + 1)\n\t}\n"+b, 1)
			add(rand, []byte(text))
			mapRand = true
		}
	}
	data, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	fatal(os.WriteFile(filepath.Join(*out, "overlay.json"), data, 0o644))
	sdata, _ := json.Marshal(map[string]any{"stats": stats, "map_order_controlled": mapRand})
	fatal(os.WriteFile(filepath.Join(*out, "instrument.json"), sdata, 0o644))
	if mapRand {
		fmt.Println("verifmaprand")
	}
}
