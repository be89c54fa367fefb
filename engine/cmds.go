package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// programs are the commands of the repository. Their code is also laid over as packages that a harness can import,
// with the surroundings (browser, terminal) replaced by recording stand-ins; everything else is the text of /repo.
var programs = []struct {
	dir, pkg string
	imports  map[string]string
}{
	{"cmd/wasm", "cmdwasm", map[string]string{"syscall/js": "js vfjs", "encoding/json": "json vfjson"}},
	{"cmd/cli", "cmdcli", map[string]string{"github.com/c-bata/go-prompt": "prompt vfprompt", "fmt": "fmt vffmt"}},
}

// programFiles returns the rewritten sources: path inside the repo -> text.
func programFiles(repo string) (map[string]string, error) {
	out := map[string]string{}
	for _, pr := range programs {
		ms, _ := filepath.Glob(filepath.Join(repo, pr.dir, "*.go"))
		reply := ""
		for _, m := range ms {
			if strings.HasSuffix(m, "_test.go") {
				continue
			}
			b, err := os.ReadFile(m)
			if err != nil {
				return nil, err
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, m, b, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			type edit struct {
				from, to int
				text     string
			}
			at := func(p token.Pos) int { return fset.Position(p).Offset }
			var edits []edit
			for _, c := range f.Comments { // the build constraint
				if c.Pos() < f.Package && (strings.HasPrefix(c.List[0].Text, "//go:build") || strings.HasPrefix(c.List[0].Text, "// +build")) {
					edits = append(edits, edit{at(c.Pos()), at(c.End()), ""})
				}
			}
			edits = append(edits, edit{at(f.Name.Pos()), at(f.Name.End()), pr.pkg})
			for _, im := range f.Imports {
				r, ok := pr.imports[strings.Trim(im.Path.Value, "\"")]
				if !ok {
					continue
				}
				n, p, _ := strings.Cut(r, " ")
				if im.Name != nil {
					n = im.Name.Name
				}
				edits = append(edits, edit{at(im.Pos()), at(im.End()), fmt.Sprintf("%s %q", n, modPath+"/zz_verif/"+p)})
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				if isFunc(fd, "string") && (fd.Name.Name == "toReply" || reply == "") {
					if id, ok := fd.Type.Results.List[0].Type.(*ast.Ident); ok && id.Name != "string" && id.Name != "bool" || !ok {
						reply = fd.Name.Name
					}
				}
			}
			s := string(b)
			for i := len(edits) - 1; i >= 0; i-- {
				e := edits[i]
				s = s[:e.from] + e.text + s[e.to:]
			}
			out[filepath.Join(repo, "zz_verif", pr.pkg, filepath.Base(m))] = s
		}
		acc := "package " + pr.pkg + "\n\nfunc VfMain() { main() }\n"
		if pr.pkg == "cmdwasm" {
			if reply == "" {
				acc += "\nfunc VfReply(s string) (any, bool) { return nil, false }\n"
			} else {
				acc += "\nfunc VfReply(s string) (any, bool) { return " + reply + "(s), true }\n"
			}
		}
		out[filepath.Join(repo, "zz_verif", pr.pkg, "vf_access.go")] = acc
	}
	return out, nil
}

// isFunc: one parameter of the named type, one result.
func isFunc(fd *ast.FuncDecl, param string) bool {
	t := fd.Type
	if t.TypeParams != nil || t.Results == nil || len(t.Results.List) != 1 || len(t.Results.List[0].Names) > 1 || len(t.Params.List) != 1 || len(t.Params.List[0].Names) > 1 {
		return false
	}
	id, ok := t.Params.List[0].Type.(*ast.Ident)
	return ok && id.Name == param
}
