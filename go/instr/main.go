// instr rewrites the library under test into an overlay.
//
//	instr -mode map|sched -out DIR
//
// map: every visit of a map goes through vhhook.Entries. sched: additionally every statement is preceded by vhhook.Y().
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/acronis/go-raml/v2"

type pkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	ImportMap  map[string]string
	Module     *struct {
		Path      string
		Dir       string
		GoVersion string
	}
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type edit struct {
	at   int
	end  int
	text string
	seq  int
}

func main() {
	mode := flag.String("mode", "map", "")
	out := flag.String("out", "", "")
	hook := flag.String("hook", "", "source of the hook package")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,ImportMap,Module", ".")
	var stdout bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, os.Stderr
	if err := cmd.Run(); err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var targets []*pkg
	dec := json.NewDecoder(&stdout)
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == module {
			q := p
			targets = append(targets, &q)
		}
	}
	if len(targets) == 0 {
		die("no package of %s", module)
	}
	replace := map[string]string{}
	var sites []string
	for _, p := range targets {
		fset := token.NewFileSet()
		var files []*ast.File
		srcs := map[*ast.File][]byte{}
		for _, g := range p.GoFiles {
			path := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(path)
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			srcs[f] = src
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				if m, ok := p.ImportMap[path]; ok {
					path = m
				}
				e := exports[path]
				if e == "" {
					return nil, fmt.Errorf("no export data of %s", path)
				}
				return os.Open(e)
			}),
			Error: func(err error) { fmt.Fprintln(os.Stderr, "instr: note:", err) },
		}
		if p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		_, _ = conf.Check(p.ImportPath, fset, files, info)
		for _, f := range files {
			src := srcs[f]
			var es []edit
			add := func(at, end token.Pos, text string) {
				es = append(es, edit{fset.Position(at).Offset, fset.Position(end).Offset, text, len(es)})
			}
			before := func(l []ast.Stmt) {
				if *mode != "sched" {
					return
				}
				for _, s := range l {
					switch s.(type) {
					case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
						continue
					}
					add(s.Pos(), s.Pos(), "vhhook.Y(); ")
				}
			}
			text := func(a, b token.Pos) string { return string(src[fset.Position(a).Offset:fset.Position(b).Offset]) }
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					before(x.List)
				case *ast.CaseClause:
					before(x.Body)
				case *ast.CommClause:
					before(x.Body)
				case *ast.RangeStmt:
					tv, ok := info.Types[x.X]
					if !ok || tv.Type == nil {
						return true
					}
					if _, ok := core(tv.Type).(*types.Map); !ok {
						return true
					}
					site := len(sites)
					pos := fset.Position(x.Pos())
					sites = append(sites, fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))
					ent := fmt.Sprintf("vhe%d", site)
					head := "_, " + ent + " := range vhhook.Entries(" + fmt.Sprint(site) + ", "
					body := " if !" + ent + ".Live() { continue }; "
					name := func(e ast.Expr) string {
						if e == nil {
							return "_"
						}
						return text(e.Pos(), e.End())
					}
					k, v := name(x.Key), name(x.Value)
					op := " = "
					if x.Tok == token.DEFINE {
						op = " := "
					}
					if k != "_" {
						body += k + op + ent + ".K; "
					}
					if v != "_" {
						body += v + op + ent + ".V(); "
					}
					// for [k, v := range] X { -> for _, e := range Entries(site, X) { …
					add(x.For+3, x.X.Pos(), " "+head)
					add(x.X.End(), x.X.End(), ")")
					add(x.Body.Lbrace+1, x.Body.Lbrace+1, body)
				}
				return true
			})
			if len(es) == 0 {
				continue
			}
			imp := "; import vhhook \"" + module + "/vhhook\""
			add(f.Name.End(), f.Name.End(), imp)
			sort.SliceStable(es, func(i, j int) bool {
				if es[i].at != es[j].at {
					return es[i].at < es[j].at
				}
				return es[i].seq < es[j].seq
			})
			var b bytes.Buffer
			last := 0
			for _, e := range es {
				if e.at < last {
					die("overlapping edits in %s", fset.Position(f.Pos()).Filename)
				}
				b.Write(src[last:e.at])
				b.WriteString(e.text)
				last = e.end
			}
			b.Write(src[last:])
			orig := fset.Position(f.Pos()).Filename
			to := filepath.Join(*out, strings.ReplaceAll(p.ImportPath[len(module):], "/", "_")+"_"+filepath.Base(orig))
			if err := os.WriteFile(to, b.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			replace[orig] = to
		}
	}
	root := targets[0].Module.Dir
	h, err := filepath.Abs(*hook)
	if err != nil {
		die("%v", err)
	}
	replace[filepath.Join(root, "vhhook", "hook.go")] = h
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%d packages, %d files, %d map visits\n", len(targets), len(replace)-1, len(sites))
}

// core is the underlying type; the core type of a type parameter.
func core(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		if u, ok := tp.Constraint().Underlying().(*types.Interface); ok && u.NumEmbeddeds() == 1 {
			e := u.EmbeddedType(0)
			if un, ok := e.(*types.Union); ok && un.Len() == 1 {
				return un.Term(0).Type().Underlying()
			}
			return e.Underlying()
		}
	}
	return t.Underlying()
}
