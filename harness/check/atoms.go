package check

import (
	"fmt"
	"strings"
)

// An atom is a small declaration that one rule reports.
type atom struct {
	rule    string
	imports []string
	body    string // %s is a unique suffix; the reported line is marked with /*!*/
}

// atoms are constructs with exactly one finding of one rule each.
var atoms = []atom{
	{"G101", nil, "var password%s = \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\" /*!*/"},
	{"G103", []string{"unsafe"}, "func uns%s(p *int) uintptr {\n\treturn uintptr(unsafe.Pointer(p)) /*!*/\n}"},
	{"G104", []string{"os"}, "func errs%s() {\n\tos.Chdir(\"/\") /*!*/\n}"},
	{"G104", []string{"os"}, "func errb%s() {\n\tos.Setenv(\"a\", \"b\") /*!*/\n}"},
	{"G107", []string{"net/http"}, "func ssrf%s(u string) (*http.Response, error) {\n\treturn http.Get(u) /*!*/\n}"},
	{"G115", nil, "func conv%s(x uint64) int32 {\n\treturn int32(x) /*!*/\n}"},
	{"G204", []string{"os", "os/exec"}, "func sub%s() error {\n\treturn exec.Command(os.Args[0]).Run() /*!*/\n}"},
	{"G301", []string{"os"}, "func mkd%s() error {\n\treturn os.Mkdir(\"/tmp/d\", 0777) /*!*/\n}"},
	{"G302", []string{"os"}, "func chm%s() error {\n\treturn os.Chmod(\"/tmp/f\", 0777) /*!*/\n}"},
	{"G304", []string{"os"}, "func inc%s(p string) ([]byte, error) {\n\treturn os.ReadFile(p) /*!*/\n}"},
	{"G306", []string{"os"}, "func wrf%s() error {\n\treturn os.WriteFile(\"/tmp/x\", nil, 0666) /*!*/\n}"},
	{"G401", []string{"crypto/md5"}, "func md%s(b []byte) [16]byte {\n\treturn md5.Sum(b) /*!*/\n}"},
	{"G402", []string{"crypto/tls"}, "func tl%s() *tls.Config {\n\treturn &tls.Config{MinVersion: tls.VersionTLS12, InsecureSkipVerify: true} /*!*/\n}"},
	{"G404", []string{"math/rand"}, "func rnd%s() int {\n\treturn rand.Int() /*!*/\n}"},
	{"G201", []string{"database/sql", "fmt"}, "func sq%s(db *sql.DB, n string) (*sql.Rows, error) {\n\tq := fmt.Sprintf(\"SELECT * FROM t WHERE n = '%%s'\", n) /*!*/\n\trows, err := db.Query(q)\n\treturn rows, err\n}"},
	{"G602", nil, "func slc%s() byte {\n\ts := make([]byte, 2)\n\treturn s[5] /*!*/\n}"},
}

func (a atom) text(suffix string) string {
	// %s occurs once as the suffix, further verbs are doubled
	return fmt.Sprintf(strings.Replace(a.body, "%s", "%[1]s", 1), suffix)
}

// sourceFile assembles a file of atoms.
type sourceFile struct {
	pkg     string
	head    string // before the package clause
	imports map[string]bool
	decls   []string
}

func newSource(pkg string) *sourceFile { return &sourceFile{pkg: pkg, imports: map[string]bool{}} }

func (s *sourceFile) add(a atom, suffix string) {
	for _, i := range a.imports {
		s.imports[i] = true
	}
	s.decls = append(s.decls, a.text(suffix))
}

func (s *sourceFile) String() string {
	var b strings.Builder
	b.WriteString(s.head)
	fmt.Fprintf(&b, "package %s\n\n", s.pkg)
	if len(s.imports) > 0 {
		b.WriteString("import (\n")
		for _, i := range sortedKeys(s.imports) {
			fmt.Fprintf(&b, "\t%q\n", i)
		}
		b.WriteString(")\n\n")
	}
	for _, d := range s.decls {
		b.WriteString(d)
		b.WriteString("\n\n")
	}
	return b.String()
}

// marks returns the line numbers carrying the mark, in order.
func marks(src string) []int {
	var out []int
	for i, l := range strings.Split(src, "\n") {
		if strings.Contains(l, "/*!*/") {
			out = append(out, i+1)
		}
	}
	return out
}

// genFile builds a source file of n random atoms.
func (r *Run) genFile(pkg string, n int) (string, []atom) {
	s := newSource(pkg)
	var as []atom
	for i := 0; i < n; i++ {
		a := atoms[r.Int(len(atoms))]
		as = append(as, a)
		s.add(a, fmt.Sprintf("%s%d", strings.ToUpper(pkg[:1]), r.uniq()))
	}
	return s.String(), as
}

func (r *Run) uniq() int { r.nuniq++; return r.nuniq }

// atomItems are hand-written packages that exercise state across files,
// packages and passes.
func atomItems() []*Item {
	var out []*Item
	add := func(name string, files map[string]string) { out = append(out, &Item{Name: name, Files: files}) }
	for i, a := range atoms {
		s := newSource("atom")
		s.add(a, "A")
		add(fmt.Sprintf("atom_%s_%d", a.rule, i), map[string]string{"a.go": s.String()})
	}
	add("nosec_mixed", map[string]string{"a.go": `package a

import (
	"crypto/md5"
	"math/rand"
	"os"
)

func one(b []byte) [16]byte {
	return md5.Sum(b) // #nosec G401 -- legacy digest
}

func two() int {
	// #nosec -- not security relevant
	return rand.Int()
}

func three() {
	os.Chdir("/") //gosec:disable G104 -- best effort
	os.Setenv("a", "b")
}

func four(b []byte) [16]byte { // #nosec G404
	return md5.Sum(b)
}
`, "b.go": `package a

import (
	"crypto/sha1" // #nosec G505
	"os"
)

// #nosec G104
func five() {
	os.Chdir("/a")
	_ = sha1.New()
	os.Remove("x") // #falsepositive G104 -- alt
}
`})
	add("generated", map[string]string{"gen.go": `// Code generated by x. DO NOT EDIT.

package g

import "os"

func gen(p string) ([]byte, error) { os.Chdir("/"); return os.ReadFile(p) }

func conv(x uint64) int8 { return int8(x) }
`, "hand.go": `package g

import "os"

func hand(p string) ([]byte, error) { os.Chdir("/"); return os.ReadFile(p) }

func conv2(x uint64) int8 { return int8(x) }
`})
	add("tls_min_skip", map[string]string{"a.go": `package a

import "crypto/tls"

func A() *tls.Config {
	return &tls.Config{MinVersion: tls.VersionTLS13, InsecureSkipVerify: true}
}
`})
	add("tls_plain", map[string]string{"a.go": `package a

import "crypto/tls"

func A() *tls.Config { return &tls.Config{} }
`})
	add("tls_max", map[string]string{"a.go": `package a

import "crypto/tls"

func A() *tls.Config {
	return &tls.Config{MinVersion: tls.VersionTLS12, MaxVersion: tls.VersionTLS11}
}

func B(c *tls.Config) {
	c.MinVersion = tls.VersionTLS13
	c.MaxVersion = tls.VersionTLS13
}
`})
	add("tls_bad_first", map[string]string{"a.go": `package a

import "crypto/tls"

func A() *tls.Config {
	return &tls.Config{MaxVersion: tls.VersionTLS10, CipherSuites: []uint16{tls.TLS_RSA_WITH_RC4_128_SHA}}
}
`, "b.go": `package a

import "crypto/tls"

func B() *tls.Config { return &tls.Config{MinVersion: tls.VersionTLS13} }
`})
	add("multi_global", map[string]string{"a.go": `package a

import "os"

var name = os.Args[1]

const dir = "/tmp/"
`, "b.go": `package a

import (
	"os"
	"path/filepath"
)

func open() (*os.File, error) { return os.Open(name) }

func clean() (*os.File, error) { n := filepath.Clean(name); return os.Open(n) }

func write() error { return os.WriteFile(dir+"x", nil, 0666) }
`})
	add("clean_a", map[string]string{"a.go": `package a

import (
	"os"
	"path/filepath"
)

func A(p string) ([]byte, error) {
	p = filepath.Clean(p)
	return os.ReadFile(p)
}

func B(p string) ([]byte, error) {
	return os.ReadFile(p)
}
`})
	add("many_same_line", map[string]string{"a.go": `package a

import (
	"crypto/md5"
	"crypto/sha1"
	"math/rand"
	"os"
)

func A(p string, x uint64) (int32, []byte) { os.Chdir(p); os.Chdir("b"); os.Setenv("x", "y"); b, _ := os.ReadFile(p); _ = md5.New(); _ = sha1.New(); return int32(x) + int32(rand.Int()), b }
`})
	add("identical_a", map[string]string{"x.go": "package a\n\nimport \"os\"\n\nfunc A() {\n\tos.Chdir(\"/\")\n\tos.Chdir(\"/\")\n}\n", "y.go": "package a\n\nimport \"os\"\n\nfunc B() {\n\tos.Chdir(\"/\")\n\tos.Chdir(\"/\")\n}\n"})
	add("with_tests", map[string]string{"x.go": "package a\n\nimport \"os\"\n\nfunc A() {\n\tos.Chdir(\"/\")\n}\n", "x_test.go": "package a\n\nimport \"os\"\n\nfunc TA() {\n\tos.Chdir(\"/\")\n}\n"})
	add("only_tests", map[string]string{"x_test.go": "package a\n\nimport \"os\"\n\nfunc TA() {\n\tos.Chdir(\"/\")\n}\n"})
	add("empty_pkg", map[string]string{"doc.go": "// Package a is empty.\npackage a\n"})
	add("type_error", map[string]string{"a.go": "package a\n\nimport \"os\"\n\nfunc A() {\n\tos.Chdir(\"/\")\n\tvar x int = \"s\"\n\t_ = x\n}\n"})
	add("missing_import", map[string]string{"a.go": "package a\n\nimport (\n\t\"os\"\n\t\"example.com/nowhere\"\n)\n\nfunc A() {\n\tos.Chdir(\"/\")\n\tnowhere.Do(os.Args[1])\n}\n"})
	add("syntax_error", map[string]string{"a.go": "package a\n\nimport \"os\"\n\nfunc A() {\n\tos.Chdir(\"/\")\n}\n\nfunc B( {\n}\n", "b.go": "package a\n\nimport \"os\"\n\nfunc C() {\n\tos.Chdir(\"/c\")\n}\n"})
	add("two_clauses", map[string]string{"a.go": "package a\n\nfunc A() {}\n", "b.go": "package b\n\nfunc B() {}\n"})
	add("g602_dupes", map[string]string{"a.go": `package a

func A() (byte, byte, []byte) {
	s := make([]byte, 2)
	t := s[0:1]
	return s[5], t[9], s[1:7]
}

func B(n int) int {
	s := make([]int, 4)
	for i := 0; i < 4; i++ {
		s[i] = i
	}
	if n > 2 {
		return s[6]
	}
	return s[7] + s[8]
}
`})
	add("g407_many", map[string]string{"a.go": `package a

import (
	"crypto/aes"
	"crypto/cipher"
)

func A() []byte {
	block, _ := aes.NewCipher([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2, 3, 4, 5, 6, 7})
	gcm, _ := cipher.NewGCM(block)
	a := gcm.Seal(nil, []byte("1234567890ab"), []byte("x"), nil)
	n := []byte("1234567890cd")
	b := gcm.Seal(nil, n, []byte("y"), nil)
	_ = cipher.NewCBCEncrypter(block, []byte("1234567890123456"))
	_ = cipher.NewCTR(block, []byte("1234567890123456"))
	_ = cipher.NewCFBEncrypter(block, []byte("1234567890123456"))
	return append(a, b...)
}
`})
	add("sql_multi", map[string]string{"a.go": `package a

import (
	"database/sql"
	"fmt"
	"os"
)

const table = "users"

func A(db *sql.DB) {
	q := fmt.Sprintf("SELECT * FROM %s WHERE id = %s", table, os.Args[1])
	rows, err := db.Query(q)
	_, _ = rows, err
	r2, e2 := db.Query("SELECT * FROM foo WHERE name = " + os.Args[1])
	_, _ = r2, e2
}
`, "b.go": `package a

import (
	"database/sql"
	"os"
)

func B(db *sql.DB) {
	q := "SELECT * FROM " + table + " WHERE n = '" + os.Args[2] + "'"
	rows, err := db.Query(q)
	_, _ = rows, err
}
`})
	add("decomp", map[string]string{"a.go": `package a

import (
	"archive/zip"
	"bytes"
	"compress/zlib"
	"io"
	"os"
	"path/filepath"
)

func A(b []byte) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return
	}
	io.Copy(os.Stdout, r)
}

func B(z *zip.ReadCloser, dir string) {
	for _, f := range z.File {
		p := filepath.Join(dir, f.Name)
		_ = p
		rc, _ := f.Open()
		io.Copy(os.Stdout, rc)
	}
}
`})
	big := "package a\n\nfunc use(p *int) {}\n\n" + strings.Repeat("// filler filler filler filler filler filler filler filler filler filler\n", 60) + `
func A(xs []int) {
	for _, x := range xs {
		use(&x)
	}
}
`
	add("alias_a", map[string]string{"a.go": big})
	add("alias_b", map[string]string{"a.go": `package a

func use(p *int) {}

func A(xs []int) {
	a, x := 1, 2
	for _, x = range xs {
		a += x
	}
	use(&x)
	use(&a)
}
`})
	add("join_a", map[string]string{"a.go": `package a

import (
	"os"
	"path/filepath"
)

func A(p string) (*os.File, error) { return os.Open(filepath.Join("/tmp", p)) }

func B(p string) (*os.File, error) { return os.Open("/tmp/" + p) }

func C() (*os.File, error) {
	p := filepath.Clean(os.Args[1])
	return os.Open(p)
}
`})
	add("taint_a", map[string]string{"a.go": `package a

import "os"

func A(p string) ([]byte, error) {
	return os.ReadFile(p)
}

func B(n string) (*os.File, error) {
	p := n + "x"
	return os.Open(p)
}

func C() (*os.File, error) { n := os.Args[1]; return os.Open(n) }
`})
	add("alias_import_a", map[string]string{"a.go": `package a

import rand "crypto/md5"

func A() []byte { return rand.New().Sum(nil) }
`, "b.go": `package a

import (
	md5 "math/rand"
	"unsafe"
)

func B(p *int) (int, uintptr) { return md5.Int(), uintptr(unsafe.Pointer(p)) }
`})
	add("alias_import_b", map[string]string{"a.go": `package a

import (
	"crypto/rand"
	. "os"
	exec "strings"
)

func A(b []byte) int { n, _ := rand.Read(b); Chdir("/"); return n + len(exec.ToUpper("x")) }
`})
	add("bigint_a", map[string]string{"a.go": `package a

import "strconv"

func A(s string) int32 {
	v, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return int32(v)
}

func B(v int) int32 {
	return int32(v)
}
`})
	add("bigint_b", map[string]string{"a.go": `package a

func A(v int) int16 {
	if v > 10 {
		return 0
	}
	return int16(v)
}

func B(v int) int32 {
	if v < 0 || v > 5 {
		return 0
	}
	return int32(v)
}
`})
	add("sameline_nosec", map[string]string{"a.go": "package a\n\nimport \"os\"\n\nfunc A() {\n\tos.Chdir(\"/\") // #nosec\n\tos.Chdir(\"/\") // #nosec G104 -- why\n}\n"})
	add("sameline_plain", map[string]string{"a.go": "package a\n\nimport \"os\"\n\nfunc A() {\n\tos.Chdir(\"/\")\n\tos.Chdir(\"/\")\n}\n"})
	add("sameline_generated", map[string]string{"a.go": "// Code generated by y. DO NOT EDIT.\npackage a\n\nimport \"os\"\n\nfunc A() {\n\tos.Chdir(\"/\")\n\tos.Chdir(\"/\")\n}\n"})
	add("perm_a", map[string]string{"a.go": `package a

import "os"

const perm = 0777

var mode os.FileMode = 0600

func A() error { return os.WriteFile("x", nil, perm) }

func B() error { return os.WriteFile("x", nil, mode) }

func C() error { return os.MkdirAll("x", perm) }

func D() (*os.File, error) { return os.OpenFile("x", os.O_CREATE, perm) }
`})
	add("perm_b", map[string]string{"a.go": `package a

import "os"

const perm = 0600

var mode os.FileMode = 0777

func A() error { return os.WriteFile("x", nil, perm) }

func B() error { return os.WriteFile("x", nil, mode) }

func D() (*os.File, error) { return os.OpenFile("x", os.O_CREATE, perm) }
`})
	add("decomp_safe", map[string]string{"a.go": `package a

import (
	"bytes"
	"io"
	"os"
)

func A(b []byte) {
	r := bytes.NewReader(b)
	io.Copy(os.Stdout, r)
	f, err := os.Open("x")
	if err != nil {
		return
	}
	io.Copy(os.Stdout, f)
}
`})
	add("sql_const", map[string]string{"a.go": `package a

import "database/sql"

const table = "x"

func A(db *sql.DB) {
	q := "SELECT * FROM " + table
	rows, err := db.Query(q)
	_, _ = rows, err
}
`})
	add("cmd_const", map[string]string{"a.go": `package a

import "os/exec"

const name = "ls"

func A() error { return exec.Command(name, "-l").Run() }

func B(name string) error { return exec.Command(name, "-l").Run() }
`})
	add("cmd_var", map[string]string{"a.go": `package a

import (
	"os"
	"os/exec"
)

var name = os.Args[1]

func A() error { return exec.Command(name, "-l").Run() }

func B() error { name := "ls"; return exec.Command(name).Run() }
`})
	return out
}
