package instr

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

// staticDictionaries speeds up the start of the simulated command: the password
// dictionaries of a dependency, which are decompressed and decoded by its package
// initialisers, become static tables with the same contents, and its matchers are
// built at their first use, which the dependency supports itself. When the
// dependency looks different, nothing is replaced.
func staticDictionaries(o Options, repl map[string]string) error {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/ccojocar/zxcvbn-go")
	cmd.Dir, cmd.Env = o.RepoDir, o.Env
	out, err := cmd.Output()
	dir := strings.TrimSpace(string(out))
	if err != nil || dir == "" {
		return nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, filepath.Join(dir, "data", "bindata.go"), nil, 0)
	if err != nil {
		return nil
	}
	lists := [][2]string{{"MaleNames", "_dataMalenamesJson"}, {"FemaleNames", "_dataFemalenamesJson"}, {"Surname", "_dataSurnamesJson"}, {"English", "_dataEnglishJson"}, {"Passwords", "_dataPasswordsJson"}}
	raw := map[string][]string{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			for _, l := range lists {
				if v.Names[0].Name != l[1] || len(v.Values) != 1 {
					continue
				}
				c, ok := v.Values[0].(*ast.CallExpr)
				if !ok || len(c.Args) != 1 {
					return nil
				}
				lit, ok := c.Args[0].(*ast.BasicLit)
				if !ok {
					return nil
				}
				b, err := strconv.Unquote(lit.Value)
				if err != nil {
					return nil
				}
				z, err := gzip.NewReader(strings.NewReader(b))
				if err != nil {
					return nil
				}
				js, err := io.ReadAll(z)
				if err != nil {
					return nil
				}
				var x struct{ List []string }
				if json.Unmarshal(js, &x) != nil || len(x.List) == 0 {
					return nil
				}
				raw[l[0]] = x.List
			}
		}
	}
	if len(raw) != len(lists) {
		return nil
	}
	freq, err := os.ReadFile(filepath.Join(dir, "frequency", "frequency.go"))
	if err != nil {
		return nil
	}
	for _, l := range lists {
		if !bytes.Contains(freq, []byte("Lists["+strconv.Quote(l[0])+"] = getStringListFromAsset(")) {
			return nil
		}
	}
	mf := filepath.Join(dir, "matching", "matching.go")
	m, err := os.ReadFile(mf)
	if err != nil {
		return nil
	}
	const hook = "func init() {\n\tloadFrequencyList()\n}\n"
	if strings.Count(string(m), hook) != 1 || !bytes.Contains(m, []byte("if dictionaryMatchers == nil || adjacencyGraphs == nil {\n\t\tloadFrequencyList()")) {
		return nil
	}
	var sb bytes.Buffer
	sb.WriteString("package frequency\n\ntype List struct {\n\tName string\n\tList []string\n}\n\nvar Lists = map[string]List{\n")
	for i, l := range lists {
		fmt.Fprintf(&sb, "\t%q: {Name: %q, List: list%d[:]},\n", l[0], l[0], i)
	}
	sb.WriteString("}\n")
	for i, l := range lists {
		fmt.Fprintf(&sb, "\nvar list%d = [...]string{\n", i)
		for _, w := range raw[l[0]] {
			sb.WriteString(strconv.Quote(w) + ",\n")
		}
		sb.WriteString("}\n")
	}
	a, b := filepath.Join(o.OutDir, "zxcvbn_frequency.go"), filepath.Join(o.OutDir, "zxcvbn_matching.go")
	if err := os.WriteFile(a, sb.Bytes(), 0o644); err != nil {
		return err
	}
	if err := os.WriteFile(b, []byte(strings.Replace(string(m), hook, "", 1)), 0o644); err != nil {
		return err
	}
	repl[filepath.Join(dir, "frequency", "frequency.go")] = a
	repl[mf] = b
	return nil
}
