package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// The instrumenter rewrites a scratch copy of the repository so that everything
// that could make an execution differ from another one is decided by simrt:
//
//   - simrt.Y() before every statement (preemption, crash and step points)
//   - iteration over hash maps, also through reflection
//   - goroutines, package sync, package time, package math/rand
//
// It never changes what the code does otherwise.

type edit struct {
	off  int
	del  int
	text string
	prio int
}

// InstrStats counts what was rewritten.
type InstrStats struct {
	Packages  int  `json:"packages"`
	Files     int  `json:"files"`
	Yields    int  `json:"yield_points"`
	MapRanges int  `json:"map_ranges"`
	GoStmts   int  `json:"go_statements"`
	ChanOps   int  `json:"channel_operations"`
	Imports   int  `json:"replaced_imports"`
	Coarse    bool `json:"coarse"`
}

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	DepOnly    bool
}

func goList(dir string, env []string, args ...string) ([]listPkg, error) {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = dir
	cmd.Env = env
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(&out)
	var res []listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			return res, nil
		} else if err != nil {
			return nil, err
		}
		res = append(res, p)
	}
}

func instrumentPkg(p listPkg, exports map[string]string, yields, replace bool, st *InstrStats) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		files, srcs, names = append(files, af), append(srcs, src), append(names, path)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		Error: func(error) {},
	}
	conf.Check(p.ImportPath, fset, files, info) // partial information is fine
	for i, f := range files {
		out := instrumentFile(fset, f, srcs[i], info, yields, replace, st)
		if out == nil {
			continue
		}
		st.Files++
		if err := os.WriteFile(names[i], out, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// waits lists what makes goroutines wait for each other inside the standard
// library, out of reach of the simulator.
var waits = map[string]bool{
	"io.Pipe": true, "os.Pipe": true, "net.Pipe": true,
	"context.WithCancel": true, "context.WithTimeout": true, "context.WithDeadline": true,
	"runtime.Gosched": true,
}

func instrumentFile(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, yields, replace bool, st *InstrStats) []byte {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(o, del int, text string, prio int) { edits = append(edits, edit{o, del, text, prio}) }
	needRT := false

	repl := map[string]string{
		`"sync"`:      "verif.local/simrt/ssync",
		`"time"`:      "verif.local/simrt/stime",
		`"math/rand"`: "verif.local/simrt/srand",
	}
	for _, im := range f.Imports {
		np, ok := repl[im.Path.Value]
		if !ok || !replace {
			continue
		}
		name := ""
		if im.Name == nil {
			name = strings.Trim(im.Path.Value, `"`)
			name = name[strings.LastIndex(name, "/")+1:] + " "
		}
		add(off(im.Path.Pos()), len(im.Path.Value), name+`"`+np+`"`, 0)
		st.Imports++
	}

	stmts := func(list []ast.Stmt) {
		if !yields {
			return
		}
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(off(s.Pos()), 0, "simrt__.Y();", 1)
			st.Yields++
			needRT = true
		}
	}
	rangeVar := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return string(src[off(e.Pos()):off(e.End())])
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			// clause lists of switch and select are handled at the clause
			skip := false
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					skip = true
				}
			}
			if !skip {
				stmts(x.List)
			}
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
			st.ChanOps++
		case *ast.SendStmt:
			st.ChanOps++
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				st.ChanOps++
			}
		case *ast.GoStmt:
			st.GoStmts++
			needRT = true
			if !replace {
				break
			}
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				add(off(x.Pos()), off(fl.Pos())-off(x.Pos()), "simrt__.Go(", 2)
				add(off(fl.End()), off(x.Call.End())-off(fl.End()), ")", 2)
			} else if tv := info.Types[x.Call.Fun]; x.Call.Ellipsis.IsValid() || tv.Type == nil || tv.IsBuiltin() || tv.IsType() {
				st.ChanOps++ // not controllable: coarse mode
			} else {
				// go f(a, b)  ->  func() { f__, a__ := f, a; simrt__.Go(func() { f__(a__, b) }) }()
				// as the arguments are evaluated by the go statement
				names, call, end := "f__", "", off(x.Call.Fun.End())
				for i, a := range x.Call.Args {
					tv := info.Types[a]
					if _, tuple := tv.Type.(*types.Tuple); tv.Type == nil || tuple {
						st.ChanOps++
					}
					if i > 0 {
						call += ", "
					}
					if tv.Value != nil || tv.IsNil() {
						call += string(src[off(a.Pos()):off(a.End())])
						continue
					}
					names += fmt.Sprintf(", a%d__", i)
					call += fmt.Sprintf("a%d__", i)
					add(end, off(a.Pos())-end, ", ", 2)
					end = off(a.End())
				}
				add(off(x.Pos()), off(x.Call.Fun.Pos())-off(x.Pos()), "func() { "+names+" := ", 2)
				add(end, off(x.Call.End())-end, "; simrt__.Go(func() { f__("+call+") }) }()", 2)
			}
		case *ast.RangeStmt:
			tv, ok := info.Types[x.X]
			if !ok || tv.Type == nil {
				return true
			}
			switch tv.Type.Underlying().(type) {
			case *types.Chan:
				st.ChanOps++
			case *types.Map:
				if x.Key == nil && x.Value == nil {
					return true
				}
				needRT = true
				st.MapRanges++
				xs := string(src[off(x.X.Pos()):off(x.X.End())])
				key, val := rangeVar(x.Key), rangeVar(x.Value)
				ptr := func(v string) string {
					if v == "_" {
						return "nil"
					}
					return "&" + v
				}
				var head string
				if x.Tok == token.DEFINE {
					head = fmt.Sprintf("for it__, %s, %s := simrt__.Range(%s); it__.Next(%s, %s); ", key, val, xs, ptr(key), ptr(val))
				} else {
					head = fmt.Sprintf("for it__, _, _ := simrt__.Range(%s); it__.Next(%s, %s); ", xs, ptr(key), ptr(val))
				}
				add(off(x.For), off(x.Body.Pos())-off(x.For), head, 2)
			}
		case *ast.SelectorExpr:
			if o := info.Uses[x.Sel]; o != nil && o.Pkg() != nil && waits[o.Pkg().Path()+"."+o.Name()] {
				st.ChanOps++
			}
		case *ast.CallExpr:
			sel, ok := x.Fun.(*ast.SelectorExpr)
			if !ok || len(x.Args) != 0 || (sel.Sel.Name != "MapRange" && sel.Sel.Name != "MapKeys") {
				return true
			}
			tv, ok := info.Types[sel.X]
			if !ok || tv.Type == nil || tv.Type.String() != "reflect.Value" {
				return true
			}
			needRT = true
			st.MapRanges++
			recv := string(src[off(sel.X.Pos()):off(sel.X.End())])
			add(off(x.Pos()), off(x.End())-off(x.Pos()), "simrt__."+sel.Sel.Name+"("+recv+")", 2)
		}
		return true
	})
	if len(edits) == 0 {
		return nil
	}
	if needRT {
		add(off(f.Name.End()), 0, `; import simrt__ "verif.local/simrt"`, 0)
	}
	// apply back to front; inner edits of a replaced region are dropped
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].prio < edits[j].prio
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			continue
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.off + e.del
	}
	out.Write(src[pos:])
	return out.Bytes()
}
