// Command instrument writes a copy of the library's non-test sources with a scheduling point before
// every statement and a harness-ordered loop for every range over a map, and an overlay for go build.
//
//	instrument REPO OUT   writes OUT/*.go and OUT/overlay.json, prints what it did
//
// Only the text around statements changes; statements stay on their lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	at   int // byte offset
	del  int
	text string
	seq  int
}

type pkg struct {
	dir   string
	name  string
	files []*ast.File
	paths []string
	types *types.Package
	info  *types.Info
	busy  bool
}

var (
	fset   = token.NewFileSet()
	module string
	repo   string
	pkgs   = map[string]*pkg{} // by import path
	std    types.Importer
	sites  int
)

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if p := pkgs[path]; p != nil {
		check(path)
		if p.types == nil {
			return nil, fmt.Errorf("import cycle at %s", path)
		}
		return p.types, nil
	}
	return std.Import(path)
}

func check(path string) {
	p := pkgs[path]
	if p.types != nil || p.busy {
		return
	}
	p.busy = true
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp{}, Error: func(err error) { fmt.Fprintln(os.Stderr, "note:", err) }}
	p.types, _ = conf.Check(path, fset, p.files, p.info)
}

func main() {
	repo = os.Args[1]
	out := os.Args[2]
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	die(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			module = strings.Trim(f[1], `"`)
		}
	}
	std = importer.ForCompiler(fset, "source", nil)
	die(filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return err
		}
		if n := d.Name(); path != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
			return fs.SkipDir
		}
		bp, err := build.Default.ImportDir(path, 0)
		if err != nil || bp.Name == "main" {
			return nil
		}
		rel, _ := filepath.Rel(repo, path)
		ip := module
		if rel != "." {
			ip += "/" + filepath.ToSlash(rel)
		}
		p := &pkg{dir: path, name: bp.Name}
		for _, f := range bp.GoFiles {
			fp := filepath.Join(path, f)
			af, err := parser.ParseFile(fset, fp, nil, parser.ParseComments)
			if err != nil {
				return err
			}
			p.files = append(p.files, af)
			p.paths = append(p.paths, fp)
		}
		pkgs[ip] = p
		return nil
	}))
	overlay := map[string]string{}
	var ips []string
	for ip := range pkgs {
		ips = append(ips, ip)
	}
	sort.Strings(ips)
	n, points, ranges, uncontrolled := 0, 0, 0, 0
	for _, ip := range ips {
		check(ip)
		p := pkgs[ip]
		for i, f := range p.files {
			src, err := os.ReadFile(p.paths[i])
			die(err)
			r := &rewriter{p: p, f: f, src: src}
			res := r.file()
			points += r.points
			ranges += r.ranges
			uncontrolled += r.uncontrolled
			n++
			dst := filepath.Join(out, fmt.Sprintf("%03d_%s", n, filepath.Base(p.paths[i])))
			die(os.WriteFile(dst, res, 0o644))
			overlay[p.paths[i]] = dst
		}
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	die(os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644))
	fmt.Printf("files=%d points=%d mapranges=%d uncontrolled=%d\n", n, points, ranges, uncontrolled)
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}

type rewriter struct {
	p            *pkg
	f            *ast.File
	src          []byte
	edits        []edit
	points       int
	ranges       int
	uncontrolled int
	imports      map[string]string // package path -> name usable in this file
	need         map[string]bool
}

func (r *rewriter) off(p token.Pos) int { return fset.Position(p).Offset }
func (r *rewriter) ins(p token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(p), 0, s, len(r.edits)})
}

func (r *rewriter) file() []byte {
	r.imports = map[string]string{}
	for _, im := range r.f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		} else if path == "sync" {
			// sync.X keeps its spelling
			r.ins(im.Path.Pos(), "sync ")
		}
		if path == "sync" {
			r.edits = append(r.edits, edit{r.off(im.Path.Pos()), len(im.Path.Value), `"verif.local/mc/vsync"`, len(r.edits)})
		}
		if name == "" {
			name = path[strings.LastIndexByte(path, '/')+1:]
			if q := pkgs[path]; q != nil {
				name = q.name
			}
		}
		r.imports[path] = name
	}
	ast.Inspect(r.f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			r.list(x.List)
		case *ast.CaseClause:
			r.list(x.Body)
		case *ast.CommClause:
			r.list(x.Body)
			r.uncontrolled++
		case *ast.GoStmt, *ast.SendStmt:
			r.uncontrolled++
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r.uncontrolled++
			}
		}
		return true
	})
	if r.points > 0 {
		r.ins(r.f.Name.End(), `; import vrt "verif.local/mc/vrt"`)
	}
	sort.SliceStable(r.edits, func(i, j int) bool { return r.edits[i].at < r.edits[j].at })
	var out []byte
	pos := 0
	for _, e := range r.edits {
		out = append(out, r.src[pos:e.at]...)
		out = append(out, e.text...)
		pos = e.at + e.del
	}
	return append(out, r.src[pos:]...)
}

func (r *rewriter) list(l []ast.Stmt) {
	for _, s := range l {
		switch e := s.(type) {
		case *ast.EmptyStmt:
			if e.Implicit {
				continue
			}
		case *ast.CaseClause, *ast.CommClause:
			return // the body of a switch or select
		}
		r.points++
		sites++
		r.ins(s.Pos(), fmt.Sprintf("vrt.P(%d);", sites))
		inner := s
		for {
			lb, ok := inner.(*ast.LabeledStmt)
			if !ok {
				break
			}
			inner = lb.Stmt
		}
		if rs, ok := inner.(*ast.RangeStmt); ok {
			r.rangeStmt(s, rs)
		}
	}
}

// rangeStmt rewrites a range over a map; s is the statement with its labels.
func (r *rewriter) rangeStmt(s ast.Stmt, rs *ast.RangeStmt) {
	tv, ok := r.p.info.Types[rs.X]
	if !ok || tv.Type == nil {
		return
	}
	mt, ok := tv.Type.Underlying().(*types.Map)
	if !ok {
		return
	}
	kt, ok1 := r.typeName(mt.Key())
	vt, ok2 := r.typeName(mt.Elem())
	if !ok1 || !ok2 {
		fmt.Fprintln(os.Stderr, "note: range over a map left alone at", fset.Position(rs.Pos()))
		return
	}
	r.ranges++
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	text := func(e ast.Expr) string { return string(r.src[r.off(e.Pos()):r.off(e.End())]) }
	pos := fset.Position(rs.Pos())
	it := fmt.Sprintf("vrtR%d", r.ranges)
	decl, asg := "{", ""
	one := func(e ast.Expr, fld, typ string) {
		if blank(e) {
			return
		}
		if rs.Tok == token.DEFINE {
			decl += "var " + text(e) + " " + typ + ";"
		}
		asg += text(e) + ", _ = " + it + "." + fld + ".(" + typ + ");"
	}
	one(rs.Key, "K", kt)
	one(rs.Value, "V", vt)
	r.ins(s.Pos(), decl)
	site := fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line)
	r.edits = append(r.edits, edit{r.off(rs.Pos()), r.off(rs.X.Pos()) - r.off(rs.Pos()), fmt.Sprintf("for %s := vrt.Range(%q, ", it, site), len(r.edits)})
	r.ins(rs.X.End(), "); "+it+".Next();")
	r.ins(rs.Body.Lbrace+1, asg)
	r.ins(s.End(), "}")
}

func (r *rewriter) typeName(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.p.types || p.Path() == r.p.types.Path() {
			return ""
		}
		if n, has := r.imports[p.Path()]; has && n != "." && n != "_" {
			return n
		}
		ok = false
		return p.Name()
	})
	return s, ok && !strings.Contains(s, "invalid type")
}
