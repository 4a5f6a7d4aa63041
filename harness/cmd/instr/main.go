// instr writes a rewritten copy of /repo's non-test sources to a scratch
// directory.
//
//	-mode hook   siphash24 and siphashBlock of package cuckoo can be replaced
//	             by a table (C01), everything else is unchanged
//	-mode clock  time.Now, Since and Until go through verif/vclock
//	-mode sched  goroutines, channels, locks, atomics, time and the network of
//	             package p2p go through verif/vsched, see sched.go
//	-mode schedchain  the same, also of package chain
//	-mode race   the same, also of package consensus; every access to plain
//	             memory that could be shared is monitored, see race.go
//
// The rewriting is by text edits at the positions of syntax nodes, so that
// lines and comments stay where they are.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var (
	src  = flag.String("src", "/repo", "")
	dst  = flag.String("dst", "", "")
	mode = flag.String("mode", "", "")
)

func die(a ...interface{}) { fmt.Fprintln(os.Stderr, a...); os.Exit(2) }

type edit struct {
	from, to int
	text     string
	seq      int
	pri      int
}

type file struct {
	rel   string
	src   []byte
	ast   *ast.File
	edits []edit
	seq   int
}

var fset = token.NewFileSet()

func off(p token.Pos) int { return fset.Position(p).Offset }

// replace replaces the source of [from, to).
func (f *file) replace(from, to token.Pos, text string) {
	f.edits = append(f.edits, edit{from: off(from), to: off(to), text: text, seq: f.next()})
}

func (f *file) next() int { f.seq++; return f.seq }

// insert puts text at a position.
func (f *file) insert(at token.Pos, text string) { f.replace(at, at, text) }

// prefix puts text at a position, before what was put there earlier.
func (f *file) prefix(at token.Pos, text string) {
	n := f.next()
	f.edits = append(f.edits, edit{off(at), off(at), text, n, -n})
}

// before puts text before a statement.
func (f *file) before(at token.Pos, text string) {
	f.edits = append(f.edits, edit{off(at), off(at), text, f.next(), -1 << 40})
}

func less(a, b edit) bool {
	if a.from != b.from {
		return a.from < b.from
	}
	if a.pri != b.pri {
		return a.pri < b.pri
	}
	return a.seq < b.seq
}

// text is the source of a node as it was.
func (f *file) text(n ast.Node) string { return string(f.src[off(n.Pos()):off(n.End())]) }

func (f *file) output() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool { return less(f.edits[i], f.edits[j]) })
	var out bytes.Buffer
	at := 0
	for _, e := range f.edits {
		if e.from < at {
			die(f.rel, "overlapping edits", e.text, at, e.from)
		}
		out.Write(f.src[at:e.from])
		out.WriteString(e.text)
		at = e.to
	}
	out.Write(f.src[at:])
	return out.Bytes()
}

func (f *file) addImport(name, path string) {
	f.insert(f.ast.Name.End(), fmt.Sprintf("; import %s %q", name, path))
}

func main() {
	flag.Parse()
	var files []*file
	err := filepath.Walk(*src, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*src, path)
		if info.IsDir() {
			if strings.HasPrefix(info.Name(), ".") && rel != "." {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
			if err != nil {
				return err
			}
			files = append(files, &file{rel: rel, src: b, ast: f})
		}
		return nil
	})
	if err != nil {
		die(err)
	}
	gomod, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		die(err)
	}
	switch *mode {
	case "hook":
		hook(files)
	case "clock":
		for _, f := range files {
			clock(f)
		}
	case "sched", "schedchain", "race":
		if !bytes.Contains(gomod, []byte("\ngo ")) {
			gomod = append(gomod, []byte("\ngo 1.18\n")...)
		}
		if *mode == "sched" {
			sched(files, "p2p")
		} else if *mode == "race" {
			sched(files, "p2p", "chain", "consensus", "cuckoo", "secp256k1zkp")
		} else {
			sched(files, "p2p", "chain")
		}
	default:
		die("unknown mode", *mode)
	}
	for _, f := range files {
		write(f.rel, f.output())
	}
	write("go.mod", gomod)
	if b, err := os.ReadFile(filepath.Join(*src, "go.sum")); err == nil {
		write("go.sum", b)
	}
}

func write(rel string, b []byte) {
	p := filepath.Join(*dst, rel)
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		die(err)
	}
	if err := os.WriteFile(p, b, 0644); err != nil {
		die(err)
	}
}

// hook renames the two siphash functions and puts switchable ones in place.
// If the cuckaroo edges do not come from there, NewEdge asks the hook itself.
func hook(files []*file) {
	probe := ""
	for _, f := range files {
		if filepath.Dir(f.rel) != "cuckoo" {
			continue
		}
		for _, d := range f.ast.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && (fd.Name.Name == "siphash24" || fd.Name.Name == "siphashBlock") {
				f.insert(fd.Name.Pos(), "verifOrig_")
			} else if ok && fd.Recv != nil && fd.Name.Name == "NewEdge" && fd.Body != nil {
				recv := fd.Recv.List[0].Type
				if x, ok := recv.(*ast.StarExpr); ok {
					recv = x.X
				}
				var names []string
				for _, p := range fd.Type.Params.List {
					for _, n := range p.Names {
						names = append(names, n.Name)
					}
				}
				if id, ok := recv.(*ast.Ident); ok && id.Name == "Cuckaroo" && len(names) == 2 && names[0] != "_" && names[1] != "_" {
					f.insert(fd.Body.Lbrace+1, fmt.Sprintf("if verifEdges && VerifHook != nil { if verifH, ok := VerifHook(true, [4]uint64{}, uint64(%s)); ok { return &Edge{U: verifH & uint64(%s), V: verifH >> 32 & uint64(%s)} } };", names[0], names[1], names[1]))
					probe = `
func init() {
	VerifHook = func(block bool, key [4]uint64, nonce uint64) (uint64, bool) { return 5 | 9<<32, block }
	e := NewFromKeys([4]uint64{1, 2, 3, 4}).NewEdge(3, 0xffff)
	verifEdges = e.U != 5 || e.V != 9
	VerifHook = nil
}
`
				}
			}
		}
	}
	write("cuckoo/zz_verif_hook.go", []byte(`package cuckoo

// VerifHook replaces the siphash functions when it is set and returns true.
var VerifHook func(block bool, key [4]uint64, nonce uint64) (uint64, bool)

var verifEdges bool
`+probe+`
func siphash24(v [4]uint64, nonce uint64) uint64 {
	if VerifHook != nil {
		if h, ok := VerifHook(false, v, nonce); ok {
			return h
		}
	}
	return verifOrig_siphash24(v, nonce)
}

func siphashBlock(v [4]uint64, nonce uint64) uint64 {
	if VerifHook != nil {
		if h, ok := VerifHook(true, v, nonce); ok {
			return h
		}
	}
	return verifOrig_siphashBlock(v, nonce)
}
`))
}

// clock redirects the wall clock.
func clock(f *file) {
	name := f.importName("time")
	if name == "" {
		return
	}
	used := false
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if sel, ok := n.(*ast.SelectorExpr); ok {
			switch sel.Sel.Name {
			case "Now", "Since", "Until":
				if id, ok := sel.X.(*ast.Ident); ok && id.Name == name && id.Obj == nil {
					f.replace(id.Pos(), id.End(), "verif_vclock")
					used = true
				}
			}
		}
		return true
	})
	if used {
		f.addImport("verif_vclock", "verif/vclock")
		// keep the time import in use
		f.insert(f.ast.End(), "\n\nvar _ "+name+".Duration\n")
	}
}

func (f *file) importName(path string) string {
	for _, i := range f.ast.Imports {
		if i.Path.Value == `"`+path+`"` {
			if i.Name != nil {
				return i.Name.Name
			}
			return path[strings.LastIndex(path, "/")+1:]
		}
	}
	return ""
}
