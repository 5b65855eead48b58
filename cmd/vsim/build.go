package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const goroot = "/opt/veriftools/go1.25.14"

// repoDir is the tree under test; only the development of this framework itself
// ever points it elsewhere.
var repoDir = func() string {
	if d := os.Getenv("VSIM_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func buildDir() string { return filepath.Join(verifDir(), "build") }

func writeIfChanged(path string, b []byte) error {
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, b) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOROOT", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "GOWORK", "GOCACHE", "GOEXPERIMENT", "GODEBUG", "GOTMPDIR", "CGO_ENABLED", "GOMODCACHE", "GOPATH", "HOME", "PATH", "GOENV":
			continue
		}
		env = append(env, e)
	}
	return append(env,
		"HOME=/root",
		"PATH="+goroot+"/bin:"+os.Getenv("PATH"),
		"GOROOT="+goroot, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOENV=off", "CGO_ENABLED=1",
		"GOCACHE="+filepath.Join(buildDir(), "gocache"),
	)
}

// harnessPkg is where the harness is placed (through the overlay) inside the
// module, so that it may import internal packages.
const harnessPkg = "internal/verifsim"

// buildHarness instruments the current working tree of /repo and builds the
// simulator against it. Nothing is written to /repo.
func buildHarness(race bool) (string, error) {
	bd := buildDir()
	overlay := map[string]string{}
	if err := patchRuntime(goroot, bd, overlay); err != nil {
		return "", err
	}
	if err := instrumentRepo(filepath.Join(bd, "inst"), overlay); err != nil {
		return "", err
	}
	hs, err := filepath.Glob(filepath.Join(verifDir(), "sim", "*.go"))
	if err != nil {
		return "", err
	}
	for _, h := range hs {
		overlay[filepath.Join(repoDir, harnessPkg, filepath.Base(h))] = h
	}
	// A copy of the memory cache library whose janitor wakes up rarely, so
	// that days of simulated time do not cost millions of wakeups.
	gc, err := copyGocache(filepath.Join(bd, "gocache-lib"))
	if err != nil {
		return "", err
	}
	gomod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return "", err
	}
	mod := string(gomod) + "\nreplace github.com/TwiN/gocache/v2 => " + gc + "\n"
	modfile := filepath.Join(bd, "sim.mod")
	if err := os.MkdirAll(bd, 0o755); err != nil {
		return "", err
	}
	if err := os.WriteFile(modfile, []byte(mod), 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(bd, "sim.sum"), sum, 0o644); err != nil {
		return "", err
	}
	ob, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	of := filepath.Join(bd, "overlay.json")
	if err := writeIfChanged(of, ob); err != nil {
		return "", err
	}
	out := filepath.Join(bd, "simbin")
	args := []string{"build", "-overlay", of, "-modfile", modfile, "-tags", "verif", "-o"}
	if race {
		out += "-race"
		args = append(args, out, "-race")
	} else {
		args = append(args, out)
	}
	args = append(args, "./"+harnessPkg)
	cmd := exec.Command(filepath.Join(goroot, "bin/go"), args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("build of the simulator failed: %v\n%s", err, b)
	}
	return out, nil
}

func copyGocache(dst string) (string, error) {
	src, err := filepath.Glob("/root/go/pkg/mod/github.com/!twi!n/gocache/v2@*")
	if err != nil || len(src) == 0 {
		return "", fmt.Errorf("gocache module not found")
	}
	want := "@" + repoModVersion("github.com/TwiN/gocache/v2")
	dir := ""
	for _, s := range src {
		if strings.HasSuffix(s, want) {
			dir = s
		}
	}
	if dir == "" {
		return "", fmt.Errorf("gocache %s not in the module cache", want)
	}
	fs, _ := filepath.Glob(filepath.Join(dir, "*"))
	n := 0
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") || (!strings.HasSuffix(f, ".go") && filepath.Base(f) != "go.mod") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		if filepath.Base(f) == "janitor.go" {
			for _, r := range [][2]string{{"JanitorMinShiftBackOff = 50 * time.Millisecond", "JanitorMinShiftBackOff = 50 * time.Second"}, {"JanitorMaxShiftBackOff = 500 * time.Millisecond", "JanitorMaxShiftBackOff = 500 * time.Second"}} {
				if bytes.Contains(b, []byte(r[0])) {
					n++
					b = bytes.Replace(b, []byte(r[0]), []byte(r[1]), 1)
				}
			}
		}
		if err := writeIfChanged(filepath.Join(dst, filepath.Base(f)), b); err != nil {
			return "", err
		}
	}
	if n != 2 {
		return "", fmt.Errorf("gocache janitor constants not found")
	}
	return dst, nil
}

func repoModVersion(path string) string {
	b, _ := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		for i, x := range f {
			if x == path && i+1 < len(f) {
				return f[i+1]
			}
		}
	}
	return ""
}

// ---- instrumentation of the code under test ----

func instrumentRepo(out string, overlay map[string]string) error {
	var dirs []string
	err := filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != repoDir && (strings.HasPrefix(b, ".") || b == "examples" || b == "generators" || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	if err != nil {
		return err
	}
	mod := repoModule()
	imports := map[string][]string{} // package path -> packages of the module it imports
	for _, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(d, "*.go"))
		sort.Strings(fs)
		rel, _ := filepath.Rel(repoDir, d)
		isCache := true // every package can be put back into its initial state
		var reinit []string
		inits := 0
		var rvars []string
		pkgName := ""
		for i, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				return err
			}
			pkgName = af.Name.Name
			if ignoredByTag(src) {
				continue
			}
			pp := mod
			if rel != "." {
				pp += "/" + rel
			}
			if pkgName != "main" {
				if _, ok := imports[pp]; !ok {
					imports[pp] = nil
				}
				for _, im := range af.Imports {
					if q := strings.Trim(im.Path.Value, `"`); q == mod || strings.HasPrefix(q, mod+"/") {
						imports[pp] = append(imports[pp], q)
					}
				}
			}
			ins := &inserter{fset: fset, base: 0}
			ins.tf = fset.File(af.Pos())
			instrumentFile(af, ins)
			tail := ""
			if isCache {
				var body strings.Builder
				for _, decl := range af.Decls {
					switch dd := decl.(type) {
					case *ast.FuncDecl:
						if dd.Recv == nil && dd.Name.Name == "init" {
							name := fmt.Sprintf("verifInit%d", inits)
							inits++
							ins.replace(dd.Name.Pos(), dd.Name.End(), name)
							reinit = append(reinit, name+"()")
						}
					case *ast.GenDecl:
						if dd.Tok != token.VAR {
							continue
						}
						for _, s := range dd.Specs {
							vs := s.(*ast.ValueSpec)
							names := []string{}
							blank := true
							for _, n := range vs.Names {
								names = append(names, n.Name)
								if n.Name != "_" {
									blank = false
								}
							}
							if blank {
								continue
							}
							if len(vs.Values) > 0 {
								a, b := ins.tf.Offset(vs.Values[0].Pos()), ins.tf.Offset(vs.Values[len(vs.Values)-1].End())
								fmt.Fprintf(&body, " %s = %s\n", strings.Join(names, ", "), src[a:b])
							} else if vs.Type != nil {
								a, b := ins.tf.Offset(vs.Type.Pos()), ins.tf.Offset(vs.Type.End())
								for _, n := range names {
									if n != "_" {
										fmt.Fprintf(&body, " { var z %s; %s = z }\n", src[a:b], n)
									}
								}
							}
						}
					}
				}
				if body.Len() > 0 {
					name := fmt.Sprintf("verifVars%d", i)
					rvars = append(rvars, name+"()")
					tail = "\nfunc " + name + "() {\n" + body.String() + "}\n"
				}
			}
			if len(ins.edits) == 0 {
				continue
			}
			if ins.yields > 0 {
				ins.insert(af.Name.End(), `; import vrtverif "runtime"`)
			}
			res := append(ins.apply(src), []byte(tail)...)
			of := filepath.Join(out, strings.ReplaceAll(rel, "/", "_")+"__"+filepath.Base(f))
			if err := writeIfChanged(of, res); err != nil {
				return err
			}
			overlay[f] = of
		}
		if pkgName != "" && pkgName != "main" {
			src := "package " + pkgName + "\n\nfunc verifInits() {\n\t" + strings.Join(reinit, "\n\t") +
				"\n}\n\nfunc init() { verifInits() }\n\n// VerifReinit makes the package state as it is right after start-up.\nfunc VerifReinit() {\n\t" +
				strings.Join(rvars, "\n\t") + "\n\tverifInits()\n}\n"
			of := filepath.Join(out, strings.ReplaceAll(rel, "/", "_")+"__zz_verif.go")
			if err := writeIfChanged(of, []byte(src)); err != nil {
				return err
			}
			overlay[filepath.Join(d, "zz_verif.go")] = of
		}
	}
	// what puts all packages back, in the order in which they depend on each other
	var order []string
	state := map[string]bool{}
	var visit func(string)
	visit = func(p string) {
		if _, ok := imports[p]; !ok || state[p] {
			return
		}
		state[p] = true
		ims := append([]string{}, imports[p]...)
		sort.Strings(ims)
		for _, q := range ims {
			visit(q)
		}
		order = append(order, p)
	}
	var all []string
	for p := range imports {
		all = append(all, p)
	}
	sort.Strings(all)
	for _, p := range all {
		visit(p)
	}
	var im, calls strings.Builder
	for i, p := range order {
		fmt.Fprintf(&im, "\tp%d %q\n", i, p)
		fmt.Fprintf(&calls, "\tp%d.VerifReinit()\n", i)
	}
	of := filepath.Join(out, "zz_reinit.go")
	if err := writeIfChanged(of, []byte("package main\n\nimport (\n"+im.String()+")\n\nfunc reinitAll() {\n"+calls.String()+"}\n")); err != nil {
		return err
	}
	overlay[filepath.Join(repoDir, harnessPkg, "zz_reinit.go")] = of
	return nil
}

func repoModule() string {
	b, _ := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	return ""
}

func ignoredByTag(src []byte) bool {
	i := bytes.Index(src, []byte("\npackage "))
	head := src
	if i >= 0 {
		head = src[:i]
	}
	return bytes.Contains(head, []byte("//go:build ignore"))
}

type edit struct {
	off, end int
	text     string
}

type inserter struct {
	fset   *token.FileSet
	tf     *token.File
	base   int
	edits  []edit
	yields int
}

func (in *inserter) insert(p token.Pos, text string) {
	o := in.tf.Offset(p)
	in.edits = append(in.edits, edit{o, o, text})
}
func (in *inserter) replace(a, b token.Pos, text string) {
	in.edits = append(in.edits, edit{in.tf.Offset(a), in.tf.Offset(b), text})
}
func (in *inserter) apply(src []byte) []byte {
	sort.SliceStable(in.edits, func(i, j int) bool { return in.edits[i].off < in.edits[j].off })
	var out []byte
	p := 0
	for _, e := range in.edits {
		out = append(out, src[p:e.off]...)
		out = append(out, e.text...)
		p = e.end
	}
	return append(out, src[p:]...)
}

// instrumentFile puts a scheduling point before every statement of every function.
func instrumentFile(f *ast.File, in *inserter) {
	const y = "vrtverif.DetYield(); "
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			in.insert(s.Pos(), y)
			in.yields++
		}
	}
	clauses := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			clauses[x.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[x.Body] = true
		case *ast.SelectStmt:
			clauses[x.Body] = true
		case *ast.BlockStmt:
			if !clauses[x] {
				stmts(x.List)
			}
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		return true
	})
}
