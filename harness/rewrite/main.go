// Command rewrite copies the non-test sources of the package in the directory
// FROM to TO, such that locks, condition variables, wait groups and goroutines
// are those of package vsync, and such that there is a scheduling point in
// front of every statement of the functions that deal with shared state.
// The meaning of the code is not changed: package vsync is a drop-in
// replacement of sync which lets the harness choose the interleaving.
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const vsyncPath = "github.com/bwesterb/go-xmssmt/vsync"

type edit struct {
	from, to int
	text     string
	prio     int
}

func main() {
	from, to := os.Args[1], os.Args[2]
	check(os.MkdirAll(to, 0755))
	copyTree(from, to)
	if len(os.Args) > 3 {
		return
	}
	ents, err := os.ReadDir(from)
	check(err)
	stats := map[string]int{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(from, n); err != nil || !ok {
			continue
		}
		rewrite(filepath.Join(from, n), filepath.Join(to, n), stats)
	}
	fmt.Println(stats)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(1)
	}
}

// Copies everything but tests, version control and the like.
func copyTree(from, to string) {
	check(filepath.Walk(from, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if info.IsDir() {
			if strings.HasPrefix(info.Name(), ".") && rel != "." {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		if strings.HasSuffix(p, "_test.go") || !info.Mode().IsRegular() {
			return nil
		}
		buf, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), buf, 0644)
	}))
}

func rewrite(src, dst string, stats map[string]int) {
	buf, err := os.ReadFile(src)
	check(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, src, buf, parser.ParseComments)
	check(err)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	text := func(n ast.Node) string { return string(buf[off(n.Pos()):off(n.End())]) }
	needed := false

	for _, imp := range f.Imports {
		p, _ := strconv.Unquote(imp.Path.Value)
		if p == "sync" {
			name := "sync"
			if imp.Name != nil {
				name = imp.Name.Name
			}
			edits = append(edits, edit{off(imp.Pos()), off(imp.End()), name + " " + strconv.Quote(vsyncPath), 0})
			stats["sync"]++
		}
	}

	yields := func(body *ast.BlockStmt) {
		ast.Inspect(body, func(n ast.Node) bool {
			var list []ast.Stmt
			switch b := n.(type) {
			case *ast.BlockStmt:
				list = b.List
			case *ast.CaseClause:
				list = b.Body
			case *ast.CommClause:
				list = b.Body
			}
			for _, s := range list {
				switch s.(type) {
				case *ast.LabeledStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "vsync.P(); ", 1})
				stats["points"]++
				needed = true
			}
			return true
		})
	}

	// What package vsync does not know
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ChanType, *ast.SendStmt, *ast.SelectStmt:
			check(fmt.Errorf("%s: channels are used", src))
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				check(fmt.Errorf("%s: channels are used", src))
			}
		}
		return true
	})

	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if sharesState(fd) {
			yields(fd.Body)
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			g, ok := n.(*ast.GoStmt)
			if !ok {
				return true
			}
			// go f(a, b)  =>  { vf, v0 := f, a; vsync.Go(func() { vf(v0, b) }) }
			c := g.Call
			k := stats["go"]
			stats["go"]++
			needed = true
			pre := fmt.Sprintf("{ v%df := ", k)
			call := fmt.Sprintf("v%df(", k)
			args := []string{}
			decl := ""
			for i, a := range c.Args {
				if isConst(a) {
					args = append(args, text(a))
					continue
				}
				v := fmt.Sprintf("v%da%d", k, i)
				decl += fmt.Sprintf("; %s := %s", v, text(a))
				args = append(args, v)
			}
			call += strings.Join(args, ", ")
			if c.Ellipsis.IsValid() {
				call += "..."
			}
			call += ")"
			// What's inside the function is edited too
			edits = append(edits, edit{off(g.Pos()), off(c.Fun.Pos()), pre, 2})
			edits = append(edits, edit{off(c.Fun.End()), off(c.End()),
				decl + fmt.Sprintf("; vsync.Go(func() { %s }) }", call), 2})
			return true
		})
	}
	if needed {
		edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), "; import vsync " + strconv.Quote(vsyncPath), 3})
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].from != edits[j].from {
			return edits[i].from < edits[j].from
		}
		return edits[i].prio < edits[j].prio
	})
	var out strings.Builder
	pos := 0
	for _, e := range edits {
		if e.from < pos {
			continue // inside of something replaced
		}
		out.Write(buf[pos:e.from])
		out.WriteString(e.text)
		pos = e.to
	}
	out.Write(buf[pos:])
	check(os.WriteFile(dst, []byte(out.String()), 0644))
}

func isConst(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return x.Name == "nil" || x.Name == "true" || x.Name == "false" || x.Name == "iota"
	case *ast.UnaryExpr:
		return isConst(x.X)
	}
	return false
}

// Whether the function deals with (what might be) shared state: those of and
// about private keys, and those which use locks.
func sharesState(fd *ast.FuncDecl) bool {
	mentions := func(n ast.Node) (ret bool) {
		if n == nil {
			return false
		}
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && id.Name == "PrivateKey" {
				ret = true
			}
			return true
		})
		return
	}
	if fd.Recv != nil && mentions(fd.Recv) {
		return true
	}
	for _, p := range fd.Type.Params.List {
		if mentions(p.Type) {
			return true
		}
	}
	uses := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			switch s.Sel.Name {
			case "Broadcast", "Signal", "mux", "cond", "retiredSeqNos", "leastSeqNoInUse", "subTreeReady", "subTreeChecked":
				uses = true
			}
		}
		return true
	})
	// (not the hot loops that compute subtrees)
	hot := false
	if fd.Recv != nil {
		ast.Inspect(fd.Recv, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && id.Name == "Context" {
				hot = true
			}
			return true
		})
	}
	return uses && !hot
}
