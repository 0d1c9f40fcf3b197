package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/qiniu/uip"
const simPath = modPath + "/verifsim"

// shims: for each rewritten package, the stand-in package and the declaration
// that keeps the original import used.
var shims = map[string]struct {
	pkg  string
	keep string
	only map[string]bool // if set, only these names
}{
	"os":            {"simos", "os.FileMode", nil},
	"io/ioutil":     {"simos", "", map[string]bool{"ReadFile": true, "WriteFile": true, "TempFile": true, "TempDir": true}},
	"sync":          {"simsync", "sync.Locker", nil},
	"sync/atomic":   {"simatomic", "atomic.Value", nil},
	"log":           {"simlog", "log.Logger", nil},
	"math/rand":     {"simrand", "rand.Source", nil},
	"crypto/rand":   {"simrand", "", map[string]bool{"Read": true}},
	"net/http":      {"simnet", "http.Header", map[string]bool{"ListenAndServe": true, "Serve": true}},
	"net":           {"simnet", "net.IP", map[string]bool{"Listen": true}},
	"path/filepath": {"simos", "filepath.WalkFunc", map[string]bool{"EvalSymlinks": true}},
	"maps":          {"simmaps", "", map[string]bool{"All": true, "Keys": true, "Values": true}},
	"time":          {"rt", "time.Duration", map[string]bool{"Now": true, "Since": true, "Until": true}},
}

type edit struct {
	off  int
	end  int // replaced range [off,end)
	text string
	prio int
}

type siteInfo struct{ file, pos string }

type instrumenter struct {
	dir     string // module root of the copy
	fset    *token.FileSet
	exports map[string]map[string]bool // shim package -> exported names
	sites   []string
	resets  []string // import paths, dependencies first
	inits   int
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0]
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOPROXY=") ||
			strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "GODEBUG=") || strings.HasPrefix(e, "GOEXPERIMENT=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED="+cgo())
}

func cgo() string {
	if v := os.Getenv("CGO_ENABLED"); v != "" {
		return v
	}
	return "1"
}

// copyTree copies the non-test Go packages of the repository.
func copyTree(repo, dst string) error {
	skip := map[string]bool{".git": true, "java": true, "rust": true, "testdata": true, "node_modules": true}
	return filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if skip[fi.Name()] || rel == "db/format/generate" || (strings.HasPrefix(fi.Name(), "_") || (strings.HasPrefix(fi.Name(), ".") && rel != ".")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		isGo := strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go")
		isMod := rel == "go.mod" || rel == "go.sum"
		if !isGo && !isMod && !embedLike(p) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		q := filepath.Join(dst, rel)
		if err := os.MkdirAll(filepath.Dir(q), 0755); err != nil {
			return err
		}
		return os.WriteFile(q, b, 0644)
	})
}

// embedLike: files a package may embed or assemble.
func embedLike(p string) bool {
	switch filepath.Ext(p) {
	case ".txt", ".s", ".tsv", ".csv", ".json", ".h":
		return true
	}
	return false
}

func copyDir(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(q, 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, 0644)
	})
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Error      *struct{ Err string }
	DepsErrors []struct{ Err string }
}

func goList(dir string, args ...string) ([]listPkg, error) {
	cmd := exec.Command("go", append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,Standard,Error"}, args...)...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var r []listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, fmt.Errorf("go list %s: %s", p.ImportPath, p.Error.Err)
		}
		r = append(r, p)
	}
	return r, nil
}

// instrument rewrites every package of the module in dir in place.
func instrument(dir string, simDir string) (*instrumenter, error) {
	in := &instrumenter{dir: dir, fset: token.NewFileSet(), exports: map[string]map[string]bool{}}
	for _, s := range shims {
		if in.exports[s.pkg] != nil {
			continue
		}
		ex, err := exportedNames(filepath.Join(simDir, s.pkg))
		if err != nil {
			return nil, err
		}
		in.exports[s.pkg] = ex
	}
	pkgs, err := goList(dir, "./...")
	if err != nil {
		return nil, err
	}
	exp := map[string]string{}
	for _, p := range pkgs {
		exp[p.ImportPath] = p.Export
	}
	imp := importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exp[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	in.sites = append(in.sites, "sync")
	for _, p := range pkgs {
		if p.Standard || !strings.HasPrefix(p.ImportPath, modPath) {
			continue
		}
		if err := in.pkg(p, imp); err != nil {
			return nil, fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	return in, nil
}

func exportedNames(dir string) (map[string]bool, error) {
	fset := token.NewFileSet()
	r := map[string]bool{}
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil || len(fs) == 0 {
		return nil, fmt.Errorf("no shim sources in %s", dir)
	}
	for _, name := range fs {
		f, err := parser.ParseFile(fset, name, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					r[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					switch sp := sp.(type) {
					case *ast.TypeSpec:
						if sp.Name.IsExported() {
							r[sp.Name.Name] = true
						}
					case *ast.ValueSpec:
						for _, n := range sp.Names {
							if n.IsExported() {
								r[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	return r, nil
}

func (in *instrumenter) pkg(p listPkg, imp types.Importer) error {
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, g := range p.GoFiles {
		name := filepath.Join(p.Dir, g)
		b, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(in.fset, name, b, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, f)
		srcs[f] = b
		names[f] = name
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, in.fset, files, info); err != nil {
		return err
	}
	in.resets = append(in.resets, p.ImportPath)
	pr := &pkgReset{order: info.InitOrder, names: map[types.Object]string{}}
	for _, f := range files {
		out, err := in.file(f, srcs[f], info, p.Name == "main", pr)
		if err != nil {
			return err
		}
		if err := os.WriteFile(names[f], out, 0644); err != nil {
			return err
		}
	}
	name := p.Name
	var g strings.Builder
	if p.Name == "main" {
		name = mainName(p.ImportPath)
	}
	fmt.Fprintf(&g, "package %s\n\n", name)
	if p.Name == "main" {
		g.WriteString("// SimMain runs the command.\nfunc SimMain() { main() }\n\n")
	}
	if len(pr.inits) > 0 {
		fmt.Fprintf(&g, "func init() { %s }\n\n", strings.Join(pr.inits, "; "))
	}
	// the state of the package as at program start
	g.WriteString("func SimReset() {\n")
	for _, z := range pr.zero {
		g.WriteString("\t" + z + "()\n")
	}
	for _, o := range pr.order {
		for _, l := range o.Lhs {
			if n := pr.names[l]; n != "" {
				g.WriteString("\t" + n + "()\n")
				break
			}
		}
	}
	for _, i := range pr.inits {
		g.WriteString("\t" + i + "\n")
	}
	g.WriteString("}\n")
	return os.WriteFile(filepath.Join(p.Dir, "zz_sim.go"), []byte(g.String()), 0644)
}

// pkgReset collects what re-initialises a package's variables.
type pkgReset struct {
	order []*types.Initializer
	names map[types.Object]string
	zero  []string
	inits []string
}

// apply renders a range of the source with the edits inside it.
func apply(src []byte, edits []edit, lo, hi int) string {
	var out strings.Builder
	pos := lo
	for _, e := range edits {
		if e.off < lo || e.end > hi || (e.off == hi && e.end == hi) || e.off < pos {
			continue
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:hi])
	return out.String()
}

func hasEmbed(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return true
		}
	}
	return false
}

func mainName(path string) string { return "main_" + filepath.Base(path) }

func (in *instrumenter) file(f *ast.File, src []byte, info *types.Info, isMain bool, pr *pkgReset) ([]byte, error) {
	tf := in.fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []edit
	used := map[string]bool{}
	rel, _ := filepath.Rel(in.dir, tf.Name())
	site := func(p token.Pos) string {
		used["rt"] = true
		in.sites = append(in.sites, fmt.Sprintf("%s:%d", rel, tf.Line(p)))
		return "simrt__.Y(" + strconv.Itoa(len(in.sites)-1) + ");"
	}
	alias := func(pkg string) string {
		used[pkg] = true
		return "sim" + strings.TrimPrefix(pkg, "sim") + "__"
	}
	yieldList := func(list []ast.Stmt) {
		for _, st := range list {
			switch st.(type) {
			case *ast.EmptyStmt:
				continue
			}
			edits = append(edits, edit{off(st.Pos()), off(st.Pos()), site(st.Pos()), 1})
		}
	}
	loopBody := func(b *ast.BlockStmt) {
		if len(b.List) == 0 {
			edits = append(edits, edit{off(b.Lbrace) + 1, off(b.Lbrace) + 1, site(b.Lbrace), 0})
		}
	}
	keep := map[string]bool{}
	importName := map[string]string{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		importName[path] = name
		if s, ok := shims[path]; ok && s.keep != "" && name != "_" && name != "." {
			keep["type _ = "+name+"."+s.keep[strings.Index(s.keep, ".")+1:]] = true
		}
		if path == "io/ioutil" && name != "_" {
			keep["var _ = "+name+".Discard"] = true
		}
		if path == "maps" && name != "_" {
			keep["var _ = "+name+".Clone[map[int]int]"] = true
		}
		if path == "crypto/rand" && name != "_" {
			keep["var _ = "+name+".Reader"] = true
		}
	}
	swBodies := map[*ast.BlockStmt]bool{}
	goCalls := map[*ast.GoStmt]bool{}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			swBodies[n.Body] = true
		case *ast.TypeSwitchStmt:
			swBodies[n.Body] = true
		case *ast.SelectStmt:
			swBodies[n.Body] = true
		case *ast.BlockStmt:
			if !swBodies[n] {
				yieldList(n.List)
			}
		case *ast.CaseClause:
			yieldList(n.Body)
		case *ast.CommClause:
			yieldList(n.Body)
		case *ast.ForStmt:
			loopBody(n.Body)
		case *ast.RangeStmt:
			loopBody(n.Body)
			if tv, ok := info.Types[n.X]; ok && tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Map); ok {
					in.mapRange(n, src, off, &edits, alias)
				}
			}
		case *ast.GoStmt:
			if !goCalls[n] {
				goCalls[n] = true
				in.goStmt(n, src, off, &edits, alias, info)
			}
		case *ast.CallExpr:
			if se, ok := n.Fun.(*ast.SelectorExpr); ok {
				if sel, ok := info.Selections[se]; ok && sel.Kind() == types.MethodVal && (se.Sel.Name == "ListenAndServe" || se.Sel.Name == "ListenAndServeTLS") {
					recv := sel.Recv()
					ptr := false
					if p, ok := recv.(*types.Pointer); ok {
						recv, ptr = p.Elem(), true
					}
					if recv.String() == "net/http.Server" {
						amp := "&"
						if ptr {
							amp = ""
						}
						x := string(src[off(se.X.Pos()):off(se.X.End())])
						edits = append(edits, edit{off(n.Pos()), off(n.End()), alias("simnet") + ".ServeHTTPServer(" + amp + x + ")", 2})
						return false
					}
				}
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok {
					if s, ok := shims[pn.Imported().Path()]; ok {
						if (s.only == nil || s.only[n.Sel.Name]) && in.exports[s.pkg][n.Sel.Name] {
							edits = append(edits, edit{off(id.Pos()), off(id.End()), alias(s.pkg), 2})
						}
					}
				}
			}
		}
		return true
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			if fd.Recv == nil && fd.Name.Name == "init" {
				in.inits++
				n := fmt.Sprintf("siminit__%d", in.inits)
				edits = append(edits, edit{off(fd.Name.Pos()), off(fd.Name.End()), n, 2})
				pr.inits = append(pr.inits, n+"()")
			}
			ast.Inspect(fd, visit)
		} else {
			ast.Inspect(d, visit)
		}
	}
	if isMain {
		edits = append(edits, edit{off(f.Name.Pos()), off(f.Name.End()), mainName(filepath.Dir(tf.Name())), 2})
	}
	// imports go on the line of the package clause
	var pk []string
	for p := range used {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	var imp strings.Builder
	for _, p := range pk {
		fmt.Fprintf(&imp, "; import %s %q", "sim"+strings.TrimPrefix(p, "sim")+"__", simPath+"/"+p)
	}
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), imp.String(), 3})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].prio < edits[j].prio
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			return nil, fmt.Errorf("%s: overlapping edits at offset %d", rel, e.off)
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if hasEmbed(gd.Doc) || hasEmbed(vs.Doc) {
				continue
			}
			fn := func(body string) string {
				in.inits++
				n := fmt.Sprintf("simreset__%d", in.inits)
				fmt.Fprintf(&out, "\nfunc %s() { %s }\n", n, body)
				return n
			}
			if len(vs.Values) == 0 {
				t := apply(src, edits, off(vs.Type.Pos()), off(vs.Type.End()))
				for _, id := range vs.Names {
					if id.Name != "_" {
						pr.zero = append(pr.zero, fn("var z__ "+t+"; "+id.Name+" = z__"))
					}
				}
				continue
			}
			var lhs []string
			for _, id := range vs.Names {
				lhs = append(lhs, id.Name)
			}
			if len(vs.Values) == 1 && len(lhs) > 1 {
				n := fn(strings.Join(lhs, ", ") + " = " + apply(src, edits, off(vs.Values[0].Pos()), off(vs.Values[0].End())))
				for _, id := range vs.Names {
					pr.names[info.Defs[id]] = n
				}
				continue
			}
			for i, id := range vs.Names {
				if id.Name != "_" {
					pr.names[info.Defs[id]] = fn(id.Name + " = " + apply(src, edits, off(vs.Values[i].Pos()), off(vs.Values[i].End())))
				}
			}
		}
	}
	var ks []string
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out.WriteString("\n")
	for _, k := range ks {
		out.WriteString(k + "\n")
	}
	return out.Bytes(), nil
}

func text(src []byte, off func(token.Pos) int, n ast.Node) string {
	return string(src[off(n.Pos()):off(n.End())])
}

func (in *instrumenter) mapRange(n *ast.RangeStmt, src []byte, off func(token.Pos) int, edits *[]edit, alias func(string) string) {
	rt := alias("rt")
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	k, v := "_", "_"
	nk, nv := "nil", "nil"
	if !isBlank(n.Key) {
		k = text(src, off, n.Key)
		nk = "&" + k
	}
	if !isBlank(n.Value) {
		v = text(src, off, n.Value)
		nv = "&" + v
	}
	itn := fmt.Sprintf("it__%d", off(n.For))
	// keep edits inside the ranged expression: only replace the text around it
	pre := fmt.Sprintf("for %s,%s,%s := %s.MapIter(", itn, k, v, rt)
	if n.Tok == token.ASSIGN {
		// assigned variables live outside the loop
		pre = fmt.Sprintf("for %s,_,_ := %s.MapIter(", itn, rt)
		if nk != "nil" {
			nk = "&(" + k + ")"
		}
		if nv != "nil" {
			nv = "&(" + v + ")"
		}
	}
	*edits = append(*edits, edit{off(n.For), off(n.X.Pos()), pre, 2})
	*edits = append(*edits, edit{off(n.X.End()), off(n.Body.Lbrace), fmt.Sprintf("); %s.Next(%s,%s); ", itn, nk, nv), 2})
}

func (in *instrumenter) goStmt(n *ast.GoStmt, src []byte, off func(token.Pos) int, edits *[]edit, alias func(string) string, info *types.Info) {
	rt := alias("rt")
	c := n.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		_ = fl
		// go func(){...}()  ->  rt.Go(func(){...})
		*edits = append(*edits, edit{off(n.Go), off(c.Fun.Pos()), rt + ".Go(", 2})
		*edits = append(*edits, edit{off(c.Fun.End()), off(c.End()), ")", 2})
		return
	}
	// go f(a, b)  ->  { f__, a__, b__ := f, a, b; rt.Go(func(){ f__(a__, b__) }) }
	id := off(n.Go)
	var lhs []string
	var call []string
	lhs = append(lhs, fmt.Sprintf("f__%d", id))
	for i, a := range c.Args {
		if tv, ok := info.Types[a]; ok && (tv.IsNil() || tv.Value != nil) {
			call = append(call, text(src, off, a))
			continue
		}
		call = append(call, fmt.Sprintf("a__%d_%d", id, i))
		lhs = append(lhs, call[len(call)-1])
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	if len(c.Args) == 0 {
		*edits = append(*edits, edit{off(n.Go), off(c.Fun.Pos()), fmt.Sprintf("{ %s := ", lhs[0]), 2})
		*edits = append(*edits, edit{off(c.Fun.End()), off(c.End()), fmt.Sprintf("; %s.Go(func(){ %s() }) }", rt, lhs[0]), 2})
		return
	}
	// arguments keep their source text (and inner edits) in place
	*edits = append(*edits, edit{off(n.Go), off(c.Fun.Pos()), fmt.Sprintf("{ %s := ", strings.Join(lhs, ", ")), 2})
	first := true
	prev := c.Fun.End()
	for _, a := range c.Args {
		if tv, ok := info.Types[a]; ok && (tv.IsNil() || tv.Value != nil) {
			*edits = append(*edits, edit{off(prev), off(a.End()), "", 2})
			prev = a.End()
			continue
		}
		*edits = append(*edits, edit{off(prev), off(a.Pos()), ", ", 2})
		prev = a.End()
		first = false
	}
	_ = first
	*edits = append(*edits, edit{off(prev), off(c.End()), fmt.Sprintf("; %s.Go(func(){ %s(%s%s) }) }", rt, lhs[0], strings.Join(call, ", "), dots), 2})
}
