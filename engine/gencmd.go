package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The commands of the repository are packages named main that talk to files, processes and networks directly.
// genCmd makes a module build/cmd/NAME that holds a copy of such a package, regenerated from /repo on every run, with
//   - the package clause renamed, so that a harness in the same package can call it,
//   - init functions renamed to verifInitN, so that a harness can run them again with other arguments,
//   - the imports of the packages listed in fakes replaced by stand-ins: what harness/cmd/fake/PKG declares, and
//     for everything else that PKG exports a plain reference to the real one.

type cmdSpec struct {
	src   string            // directory of the package
	mod   string            // directory of its module
	pkg   string            // new package name
	fakes map[string]string // import path -> directory below harness/cmd/fake
}

var commonFakes = map[string]string{"os": "os", "os/signal": "signal", "net/http": "http"}

func withFakes(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range commonFakes {
		r[k] = v
	}
	for k, v := range m {
		r[k] = v
	}
	return r
}

var cmdSpecs = map[string]cmdSpec{
	"vancap": {src: "/repo/vancap", mod: "/repo/vancap", pkg: "vancap", fakes: withFakes(map[string]string{
		"k8s.io/client-go/tools/portforward": "portforward", "k8s.io/client-go/transport/spdy": "spdy",
		"k8s.io/client-go/tools/clientcmd": "clientcmd", "k8s.io/client-go/kubernetes": "kubernetes"})},
	"tool": {src: "/repo/cmd/vanflow-tool", mod: "/repo", pkg: "tool", fakes: withFakes(map[string]string{
		"encoding/json": "json", "crypto/tls": "tls", "github.com/gorilla/handlers": "handlers"})},
}

func goVersionOf(mod string) string {
	b, _ := os.ReadFile(filepath.Join(mod, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			p := strings.SplitN(f[1], ".", 3)
			if len(p) >= 2 {
				return "go" + p[0] + "." + p[1]
			}
		}
	}
	return "go1.21"
}

func genCmd(name string) error {
	spec, ok := cmdSpecs[name]
	if !ok {
		return fmt.Errorf("no command %q", name)
	}
	out := filepath.Join(verifDir, "build", "cmd", name)
	files := map[string][]byte{}
	modPath := "verif/cmd/" + name
	// module file: the requirements of the command's module, and the harness
	gm, err := os.ReadFile(filepath.Join(spec.mod, "go.mod"))
	if err != nil {
		return err
	}
	var lines []string
	for _, l := range strings.Split(string(gm), "\n") {
		f := strings.Fields(l)
		if len(f) > 0 && (f[0] == "module" || f[0] == "go" || f[0] == "toolchain") {
			continue
		}
		lines = append(lines, l)
	}
	gover := "1.25.0"
	if v := strings.SplitN(strings.TrimPrefix(runtime.Version(), "go"), ".", 3); len(v) >= 2 {
		if m, err := strconv.Atoi(v[1]); err == nil && m >= 25 {
			gover = "1." + v[1] + ".0"
		}
	}
	mod := "module " + modPath + "\n\ngo " + gover + "\n" + strings.Join(lines, "\n") + `
require verif/harness v0.0.0
require github.com/c-kruse/vanflow v0.0.0
replace verif/harness => ` + filepath.Join(verifDir, "harness") + `
replace github.com/c-kruse/vanflow => /repo
replace github.com/Azure/go-amqp => ` + filepath.Join(verifDir, "build", "goamqp") + "\n"
	files["go.mod"] = []byte(mod)
	sums := map[string]bool{}
	var sumLines []string
	for _, m := range []string{spec.mod, "/repo", filepath.Join(verifDir, "harness")} {
		b, _ := os.ReadFile(filepath.Join(m, "go.sum"))
		for _, l := range strings.Split(string(b), "\n") {
			if l != "" && !sums[l] {
				sums[l] = true
				sumLines = append(sumLines, l)
			}
		}
	}
	sort.Strings(sumLines)
	files["go.sum"] = []byte(strings.Join(sumLines, "\n") + "\n")

	// stand-ins
	var paths []string
	for p := range spec.fakes {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	fakePath := func(p string) string { return modPath + "/fake/" + spec.fakes[p] }
	tr := func(f *ast.File) {
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if strings.HasPrefix(p, "verif/cmd/fake/") {
				im.Path.Value = strconv.Quote(modPath + "/" + strings.TrimPrefix(p, "verif/cmd/"))
			} else if _, ok := spec.fakes[p]; ok {
				im.Path.Value = strconv.Quote(fakePath(p))
			}
		}
	}
	cfg := &packages.Config{Dir: spec.mod, Mode: packages.NeedName | packages.NeedTypes | packages.NeedImports | packages.NeedDeps,
		Env: append(goEnv(), "CGO_ENABLED=0")}
	real, err := packages.Load(cfg, paths...)
	if err != nil {
		return err
	}
	for _, rp := range real {
		if len(rp.Errors) > 0 {
			return fmt.Errorf("%s: %v", rp.PkgPath, rp.Errors[0])
		}
		dir := spec.fakes[rp.PkgPath]
		srcs, _ := filepath.Glob(filepath.Join(verifDir, "harness", "cmd", "fake", dir, "*.go.txt"))
		over := map[string]bool{}
		shadow := true
		for _, s := range srcs {
			b, err := os.ReadFile(s)
			if err != nil {
				return err
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, s, b, parser.ParseComments)
			if err != nil {
				return err
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						over[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, sp := range d.Specs {
						switch sp := sp.(type) {
						case *ast.TypeSpec:
							over[sp.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range sp.Names {
								over[n.Name] = true
							}
						}
					}
				}
			}
			if bytes.Contains(b, []byte("//verif:noshadow")) {
				shadow = false
			}
			// within a stand-in only references to other stand-ins are rewritten; the real package is imported as "real"
			for _, im := range f.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				if im.Name != nil && im.Name.Name == "real" {
					continue
				}
				if strings.HasPrefix(p, "verif/cmd/fake/") {
					im.Path.Value = strconv.Quote(modPath + "/" + strings.TrimPrefix(p, "verif/cmd/"))
				}
			}
			var bb bytes.Buffer
			if err := format.Node(&bb, fset, f); err != nil {
				return err
			}
			files[filepath.Join("fake", dir, strings.TrimSuffix(filepath.Base(s), ".txt"))] = bb.Bytes()
		}
		if shadow {
			files[filepath.Join("fake", dir, "shadow.go")] = shadowPkg(rp, over)
		}
	}

	// the command
	ents, err := os.ReadDir(spec.src)
	if err != nil {
		return err
	}
	ninit, nvars := 0, 0
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		full := filepath.Join(spec.src, n)
		b, err := os.ReadFile(full)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, full, b, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name != "main" || !selected(b) {
			continue
		}
		f.Name.Name = spec.pkg
		type edit struct {
			at, end int
			s       string
		}
		var edits []edit
		add := func(from, to token.Pos, s string) {
			edits = append(edits, edit{fset.Position(from).Offset, fset.Position(to).Offset, s})
		}
		add(f.Name.Pos(), f.Name.Pos()+4, spec.pkg)
		for _, im := range f.Imports {
			old := im.Path.Value
			tr(&ast.File{Imports: []*ast.ImportSpec{im}})
			if im.Path.Value != old {
				add(im.Path.Pos(), im.Path.Pos()+token.Pos(len(old)), im.Path.Value)
			}
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				add(fd.Name.Pos(), fd.Name.Pos()+4, fmt.Sprintf("verifInit%d", ninit))
				ninit++
			}
		}
		// a function that gives the package's variables their initial values again
		var vb bytes.Buffer
		text := func(n ast.Node) string {
			var x bytes.Buffer
			x.Write(b[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
			return x.String()
		}
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				var names []string
				for _, n := range vs.Names {
					names = append(names, n.Name)
				}
				switch {
				case len(vs.Values) > 0:
					fmt.Fprintf(&vb, "\t%s = %s\n", strings.Join(names, ", "), func() string {
						var vals []string
						for _, v := range vs.Values {
							vals = append(vals, text(v))
						}
						return strings.Join(vals, ", ")
					}())
				default:
					for _, n := range names {
						if n != "_" {
							fmt.Fprintf(&vb, "\t%s = *new(%s)\n", n, text(vs.Type))
						}
					}
				}
			}
		}
		sort.Slice(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
		var nb bytes.Buffer
		fmt.Fprintf(&nb, "//go:build %s\n\n//line %s:1\n", goVersionOf(spec.mod), full)
		at := 0
		for _, ed := range edits {
			nb.Write(b[at:ed.at])
			nb.WriteString(ed.s)
			at = ed.end
		}
		nb.Write(b[at:])
		fmt.Fprintf(&nb, "\n\nfunc verifVars%d() {\n%s}\n", nvars, vb.String())
		nvars++
		files[n] = nb.Bytes()
	}
	var ib bytes.Buffer
	fmt.Fprintf(&ib, "package %s\n\n// verifInits initialises the package again.\nfunc verifInits() {\n", spec.pkg)
	for i := 0; i < nvars; i++ {
		fmt.Fprintf(&ib, "\tverifVars%d()\n", i)
	}
	for i := 0; i < ninit; i++ {
		fmt.Fprintf(&ib, "\tverifInit%d()\n", i)
	}
	ib.WriteString("}\n")
	files["verif_inits.go"] = ib.Bytes()
	hs, _ := filepath.Glob(filepath.Join(verifDir, "harness", "cmd", name, "*.go.txt"))
	for _, h := range hs {
		b, err := os.ReadFile(h)
		if err != nil {
			return err
		}
		files["harness_"+strings.TrimSuffix(filepath.Base(h), ".txt")] = bytes.ReplaceAll(b, []byte("\"verif/cmd/fake/"), []byte("\""+modPath+"/fake/"))
	}
	return syncDir(out, files)
}

// selected: build constraints of the file allow this platform without tags.
func selected(b []byte) bool {
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsGoBuild(l) {
			x, err := constraint.Parse(l)
			if err == nil && !x.Eval(func(t string) bool {
				return t == "linux" || t == "amd64" || t == "unix" || strings.HasPrefix(t, "go1")
			}) {
				return false
			}
		}
	}
	return true
}

// syncDir makes dir hold exactly files, leaving files that are already right alone.
func syncDir(dir string, files map[string][]byte) error {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if _, ok := files[rel]; !ok {
			os.Remove(p)
		}
		return nil
	})
	for n, b := range files {
		p := filepath.Join(dir, n)
		if old, err := os.ReadFile(p); err == nil && bytes.Equal(old, b) {
			continue
		}
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		tmp := p + fmt.Sprintf(".%d", os.Getpid())
		if err := os.WriteFile(tmp, b, 0o644); err != nil {
			return err
		}
		if err := os.Rename(tmp, p); err != nil {
			return err
		}
	}
	return nil
}

// shadowPkg declares everything that the package exports, except the names in over, as references to the real package.
func shadowPkg(rp *packages.Package, over map[string]bool) []byte {
	imports := map[string]string{rp.PkgPath: "real"}
	var order []string
	bad := false
	qual := func(p *types.Package) string {
		if n, ok := imports[p.Path()]; ok {
			return n
		}
		if strings.Contains(p.Path(), "internal/") || strings.HasPrefix(p.Path(), "vendor/") {
			bad = true
			return "x"
		}
		n := fmt.Sprintf("i%d", len(imports))
		imports[p.Path()] = n
		order = append(order, p.Path())
		return n
	}
	var body bytes.Buffer
	sc := rp.Types.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() || over[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&body, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&body, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			if tp, ok := o.Type().(interface{ TypeParams() *types.TypeParamList }); ok && tp.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&body, "type %s = real.%s\n", n, n)
		case *types.Func:
			sig := o.Type().(*types.Signature)
			if sig.TypeParams().Len() > 0 {
				continue
			}
			bad = false
			nimp := len(order)
			var ps, as []string
			for i := 0; i < sig.Params().Len(); i++ {
				t := types.TypeString(sig.Params().At(i).Type(), qual)
				a := fmt.Sprintf("a%d", i)
				if sig.Variadic() && i == sig.Params().Len()-1 {
					t = "..." + strings.TrimPrefix(t, "[]")
					ps = append(ps, a+" "+t)
					as = append(as, a+"...")
					continue
				}
				ps = append(ps, a+" "+t)
				as = append(as, a)
			}
			var rs []string
			for i := 0; i < sig.Results().Len(); i++ {
				rs = append(rs, types.TypeString(sig.Results().At(i).Type(), qual))
			}
			if bad {
				for _, p := range order[nimp:] {
					delete(imports, p)
				}
				order = order[:nimp]
				continue
			}
			ret := ""
			if len(rs) > 0 {
				ret = "return "
			}
			fmt.Fprintf(&body, "func %s(%s) (%s) { %sreal.%s(%s) }\n", n, strings.Join(ps, ", "), strings.Join(rs, ", "), ret, n, strings.Join(as, ", "))
		}
	}
	var out bytes.Buffer
	fmt.Fprintf(&out, "package %s\n\nimport (\n\treal %q\n", rp.Types.Name(), rp.PkgPath)
	for _, p := range order {
		fmt.Fprintf(&out, "\t%s %q\n", imports[p], p)
	}
	fmt.Fprintf(&out, ")\n\n%s", body.Bytes())
	if b, err := format.Source(out.Bytes()); err == nil {
		return b
	}
	return out.Bytes()
}

func genMain(args []string) int {
	for _, a := range args {
		if err := genCmd(a); err != nil {
			fmt.Fprintln(os.Stderr, "gen:", err)
			return 2
		}
		c := exec.Command("go", "vet", "./...")
		c.Dir = filepath.Join(verifDir, "build", "cmd", a)
		c.Env = goEnv()
		b, err := c.CombinedOutput()
		fmt.Print(string(b))
		if err != nil {
			fmt.Println(err)
		}
	}
	return 0
}
