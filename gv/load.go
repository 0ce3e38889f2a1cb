package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/moggle-mog/goav"
const vpPath = modPath + "/zz_vp"

// Lemma is a harness: a Go function of the contracts whose assertions are the properties.
type Lemma struct {
	fn     *ssa.Function
	name   string
	pkg    string // import path
	props  []string
	panics map[string]bool // properties the absence of panics belongs to
	opts   map[string]string
	doc    string
}

// World is the loaded program: /repo's current source plus the contracts.
type World struct {
	fset      *token.FileSet
	repo      string
	cdir      string
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	tpkgs     map[string]*packages.Package
	built     map[*ssa.Package]bool
	lemmas    []*Lemma
	invs      map[string]*ssa.Function   // pkgpath.inv_X
	invList   map[string][]*ssa.Function // pkgpath -> all invariants
	contracts map[string]*ssa.Function   // pkgpath.Key -> contract
	models    map[string]*ssa.Function
	overlay   map[string]string // virtual path -> real path
	content   map[string][]byte // overlay content (after dropping declarations)
	dropped   []string
	funcDecls map[string]string // repo function -> hash of source, for evidence
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0", "PATH=/opt/veriftools/go1.27.3/bin:"+os.Getenv("PATH"))
}

// buildOverlay maps contract files into the repository tree.
func buildOverlay(repo, cdir string) (map[string]string, error) {
	ov := map[string]string{}
	err := filepath.Walk(cdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(cdir, p)
		dir, base := filepath.Split(rel)
		if strings.HasPrefix(dir, "zz_") {
			ov[filepath.Join(repo, rel)] = p
		} else {
			ov[filepath.Join(repo, dir, "zz_vp_"+base)] = p
		}
		return nil
	})
	return ov, err
}

// Load type-checks /repo with the contracts injected and builds SSA.
func Load(repo, cdir string, only map[string]bool) (*World, error) {
	w := &World{repo: repo, cdir: cdir, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, invs: map[string]*ssa.Function{}, invList: map[string][]*ssa.Function{}, contracts: map[string]*ssa.Function{}, models: map[string]*ssa.Function{}}
	ov, err := buildOverlay(repo, cdir)
	if err != nil {
		return nil, err
	}
	w.overlay = ov
	w.content = map[string][]byte{}
	for v, r := range ov {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		w.content[v] = b
	}
	var initial []*packages.Package
	for try := 0; ; try++ {
		w.fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir:     repo,
			Env:     goEnv(),
			Fset:    w.fset,
			Overlay: w.content,
		}
		initial, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		changed := false
		var hard []string
		for _, p := range initial {
			for _, e := range p.Errors {
				parts := strings.Split(e.Pos, ":")
				f := parts[0]
				if _, ok := w.content[f]; ok && len(parts) > 1 {
					var line int
					fmt.Sscan(parts[1], &line)
					if w.dropDecl(p, f, line) {
						changed = true
						continue
					}
				}
				hard = append(hard, e.Error())
			}
		}
		if !changed {
			if len(hard) > 0 {
				return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(hard, "; "))
			}
			break
		}
		if try > 12 {
			return nil, fmt.Errorf("contracts do not type-check: %s", strings.Join(hard, "; "))
		}
	}
	prog, spkgs := ssautil.AllPackages(initial, ssa.NaiveForm|ssa.InstantiateGenerics)
	w.prog = prog
	w.tpkgs = map[string]*packages.Package{}
	for i, p := range initial {
		if spkgs[i] != nil {
			w.pkgs[p.PkgPath] = spkgs[i]
			w.tpkgs[p.PkgPath] = p
			w.build(spkgs[i])
		}
	}
	for path, sp := range w.pkgs {
		if t, ok := sp.Members["Value"].(*ssa.Type); ok && path == vpPath {
			valueType = types.NewPointer(t.Type())
		}
		for name, m := range sp.Members {
			fn, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			switch {
			case strings.HasPrefix(name, "inv_"):
				w.invs[path+"."+name] = fn
				w.invList[path] = append(w.invList[path], fn)
			case strings.HasPrefix(name, "con_"):
				w.contracts[path+"."+strings.TrimPrefix(name, "con_")] = fn
			case strings.HasPrefix(name, "M_") && path == vpPath:
				w.models[strings.TrimPrefix(name, "M_")] = fn
			case strings.HasPrefix(name, "lemma_"):
				l := &Lemma{fn: fn, name: name, pkg: path, panics: map[string]bool{}, opts: map[string]string{}}
				w.parseDoc(l)
				w.lemmas = append(w.lemmas, l)
			}
		}
		l := w.invList[path]
		sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	}
	sort.Slice(w.lemmas, func(i, j int) bool {
		return w.lemmas[i].pkg+w.lemmas[i].name < w.lemmas[j].pkg+w.lemmas[j].name
	})
	return w, nil
}

func (w *World) build(p *ssa.Package) {
	if p != nil && !w.built[p] {
		w.built[p] = true
		p.Build()
	}
}

func (w *World) parseDoc(l *Lemma) {
	fd, ok := l.fn.Syntax().(*ast.FuncDecl)
	if !ok || fd.Doc == nil {
		return
	}
	for _, c := range fd.Doc.List {
		s := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
		switch {
		case strings.HasPrefix(s, "property:"):
			l.props = strings.Fields(strings.TrimPrefix(s, "property:"))
		case strings.HasPrefix(s, "panics:"):
			for _, p := range strings.Fields(strings.TrimPrefix(s, "panics:")) {
				l.panics[p] = true
			}
		case strings.HasPrefix(s, "opt:"):
			for _, kv := range strings.Fields(strings.TrimPrefix(s, "opt:")) {
				k, v, _ := strings.Cut(kv, "=")
				l.opts[k] = v
			}
		default:
			l.doc += s + " "
		}
	}
}

// dropDecl blanks the top-level declaration containing the line.
func (w *World) dropDecl(p *packages.Package, file string, line int) bool {
	for i, f := range p.Syntax {
		_ = i
		tf := w.fset.File(f.Pos())
		if tf == nil || tf.Name() != file {
			continue
		}
		for _, d := range f.Decls {
			s, e := d.Pos(), d.End()
			name := ""
			if fd, ok := d.(*ast.FuncDecl); ok {
				name = fd.Name.Name
				if fd.Doc != nil {
					s = fd.Doc.Pos()
				}
			}
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				// unused import after dropping: blank the single spec
				for _, sp := range gd.Specs {
					if tf.Line(sp.Pos()) == line {
						w.blank(file, tf.Offset(sp.Pos()), tf.Offset(sp.End()))
						return true
					}
				}
				continue
			}
			if tf.Line(s) <= line && line <= tf.Line(e) {
				w.blank(file, tf.Offset(s), tf.Offset(e))
				w.dropped = append(w.dropped, name)
				return true
			}
		}
	}
	return false
}

func (w *World) blank(file string, a, b int) {
	c := append([]byte{}, w.content[file]...)
	for i := a; i < b && i < len(c); i++ {
		if c[i] != '\n' {
			c[i] = ' '
		}
	}
	w.content[file] = c
}

// ghostFn reports whether fn is declared in a contract file.
func (w *World) ghostFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	f := w.fset.Position(fn.Pos()).Filename
	_, ok := w.overlay[f]
	return ok
}

func (w *World) repoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return false
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && !w.ghostFn(fn)
}

func isNamed(t types.Type, path, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path
}
