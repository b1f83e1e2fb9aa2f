package check

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

// pkgCase is one package directory of a generated scan.
type pkgCase struct {
	name   string
	files  map[string]string
	plan   *world.PlanSpec
	faults []world.FaultRule
	expect string // ok, error, partial, skip
	kind   string
	from   string // where the files come from
	mkdir  bool   // the directory exists
	asFile bool
}

// fresh (re)creates the directories of the cases below r.Dir/w and returns the
// root and the package paths.
func (r *Run) fresh(cs []*pkgCase) (string, []string) {
	root := filepath.Join(r.Dir, "w")
	if err := os.RemoveAll(root); err != nil {
		world.HarnessFail("scratch: %v", err)
	}
	var paths []string
	for _, c := range cs {
		d := filepath.Join(root, c.name)
		if c.mkdir {
			if err := os.MkdirAll(d, 0o755); err != nil {
				world.HarnessFail("scratch: %v", err)
			}
		}
		writeItem(d, c.files)
		if c.asFile {
			os.MkdirAll(filepath.Dir(d), 0o755)
			if err := os.WriteFile(d, []byte("package a\n"), 0o644); err != nil {
				world.HarnessFail("scratch: %v", err)
			}
		}
		paths = append(paths, d)
	}
	return root, paths
}

// crowd draws a large number of paths, most of them with nothing to analyse.
func (r *Run) crowd() []*pkgCase {
	var cs []*pkgCase
	n := pick(r, []int{20, 40, 70, 140, 300})
	for k := 0; k < n; k++ {
		c := &pkgCase{name: fmt.Sprintf("q%03d", k), kind: "missing", expect: "skip"}
		if r.P(1, 4) {
			c.kind, c.expect, c.mkdir = "empty", "skip", true
		}
		if k == 0 || r.P(1, 8) {
			c.kind, c.expect, c.mkdir = "ok", "ok", true
			c.files = map[string]string{"a.go": "package a\n\nimport \"os\"\n\nfunc A() {\n\tos.Chdir(\"/\")\n}\n"}
		}
		cs = append(cs, c)
	}
	r.Probe("many-paths")
	return cs
}

// install sets up the world for the cases: fault counters start anew.
func (r *Run) install(root string, cs []*pkgCase, delay bool) *world.Loader {
	var plans []*world.PlanSpec
	var rules []*world.FaultRule
	for _, c := range cs {
		p := &world.PlanSpec{Dir: c.name}
		if c.plan != nil {
			*p = *c.plan
			p.Dir = c.name
		}
		if delay && r.FP(2, 3) {
			p.DelayMS = 1 + r.F(200)
		}
		plans = append(plans, p)
		for i := range c.faults {
			f := c.faults[i]
			f.Suffix = "/" + c.name + f.Suffix
			rules = append(rules, &f)
		}
	}
	l := r.World(plans)
	zz.W.FS = world.FaultFS(rules, r.Fired)
	return l
}

// genPkg generates the files of a healthy package of atoms.
func (r *Run) genPkg(name string) map[string]string {
	fs := map[string]string{}
	n := 1 + r.Int(3)
	for i := 0; i < n; i++ {
		src, _ := r.genFile("p", r.Int(4))
		fs[fmt.Sprintf("f%d.go", i)] = src
	}
	return fs
}

// goodFiles are the files of a healthy package: generated or from the corpus.
func (r *Run) goodFiles(name string) (map[string]string, string) {
	k := r.Int(5)
	if k < 2 {
		if r.P(1, 5) {
			return r.genShared(), "shared variables"
		}
		return r.genPkg(name), "generated"
	}
	c := healthyCorpus()
	it := c[r.Int(len(c))]
	if k == 4 {
		fs, how := r.reshape(it.Files, 1+r.Int(3), true)
		return fs, it.Name + "; " + strings.Join(how, ", ")
	}
	return copyFiles(it.Files), it.Name
}

// sharedVars are package variables which functions in other files set and use.
const sharedVars = `

import (
	"crypto/cipher"
	"crypto/tls"
	"database/sql"
	"io"
	"os"
	"os/exec"
)

var (
	gNum    int
	gPtr    *int
	gErr    error
	gReader io.Reader
	gFile   *os.File
	gPath   string
	gQuery  string
	gPass   string
	gBytes  []byte
	gCmd    *exec.Cmd
	gConf   *tls.Config
	gDB     *sql.DB
	gAead   cipher.AEAD
)
`

var sharedUses = []struct {
	imports []string
	line    string
}{
	{[]string{"strconv"}, "gNum, gErr = strconv.Atoi(gPath)"},
	{nil, "_ = int32(gNum)"},
	{nil, "_ = int16(gNum)"},
	{nil, "_ = uint8(len(gPath))"},
	{[]string{"compress/gzip"}, "gReader, gErr = gzip.NewReader(gFile)"},
	{[]string{"compress/flate"}, "gReader = flate.NewReader(gFile)"},
	{[]string{"io"}, "_, gErr = io.Copy(gFile, gReader)"},
	{[]string{"io"}, "_, gErr = io.CopyBuffer(gFile, gReader, gBytes)"},
	{[]string{"path/filepath"}, "gPath = filepath.Clean(gPath)"},
	{[]string{"path/filepath"}, "gPath = filepath.Join(\"/tmp\", gPath)"},
	{[]string{"path/filepath"}, "gPath, gErr = filepath.Rel(\"/tmp\", gPath)"},
	{[]string{"os"}, "gFile, gErr = os.Open(gPath)"},
	{[]string{"os"}, "gBytes, gErr = os.ReadFile(gPath)"},
	{[]string{"os"}, "gFile, gErr = os.OpenFile(gPath, os.O_RDWR, 0666)"},
	{nil, "gQuery = \"SELECT * FROM t WHERE a=\" + gPath"},
	{[]string{"fmt"}, "gQuery = fmt.Sprintf(\"SELECT * FROM t WHERE a='%s'\", gPath)"},
	{nil, "_, gErr = gDB.Query(gQuery)"},
	{nil, "_, gErr = gDB.Exec(\"DELETE FROM t WHERE a=\" + gPath)"},
	{[]string{"os/exec"}, "gCmd = exec.Command(gPath)"},
	{[]string{"os/exec"}, "gErr = exec.Command(\"sh\", gPath).Run()"},
	{nil, "gErr = gCmd.Run()"},
	{nil, "for _, gNum = range []int{1, 2} { gPtr = &gNum }"},
	{nil, "for i := range []int{1, 2} { gPtr = &i }"},
	{[]string{"crypto/tls"}, "gConf = &tls.Config{MinVersion: tls.VersionTLS13}"},
	{nil, "gConf.InsecureSkipVerify = true"},
	{[]string{"net/http"}, "_, gErr = http.Get(gPath)"},
	{nil, "gBytes = make([]byte, 2)"},
	{nil, "_ = gBytes[3]"},
	{nil, "_ = gBytes[:5]"},
	{nil, "gBytes = gAead.Seal(nil, gBytes, nil, nil)"},
	{nil, "gBytes = gAead.Seal(nil, []byte(\"0123456789ab\"), nil, nil)"},
	{nil, "gPass = \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\""},
	{nil, "gFile.Close()"},
	{nil, "defer gFile.Close()"},
}

// genShared generates a package whose files share variables.
func (r *Run) genShared() map[string]string {
	fs := map[string]string{}
	n := 1 + r.Int(3)
	for i := 0; i < n; i++ {
		s := newSource("p")
		for k := 0; k <= r.Int(4); k++ {
			var b strings.Builder
			for j := 0; j <= r.Int(4); j++ {
				u := sharedUses[r.Int(len(sharedUses))]
				for _, im := range u.imports {
					s.imports[im] = true
				}
				b.WriteString("\t" + u.line + "\n")
			}
			s.decls = append(s.decls, fmt.Sprintf("func f%d() {\n%s}", r.uniq(), b.String()))
		}
		fs[fmt.Sprintf("f%d.go", i)] = s.String()
	}
	v := pick(r, []string{"a.go", "zz.go", "f0a.go"})
	fs[v] = "package p" + sharedVars
	return fs
}

func copyFiles(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

var healthy []*Item

// healthyCorpus lists the items that compile.
func healthyCorpus() []*Item {
	if healthy != nil {
		return healthy
	}
	for _, it := range Corpus() {
		if world.Compiles(it.Files) {
			healthy = append(healthy, it)
		}
	}
	return healthy
}

func fileNames(m map[string]string) []string { return sortedKeys(m) }

func goNames(m map[string]string) []string {
	var out []string
	for k := range m {
		if strings.HasSuffix(k, ".go") && !strings.HasSuffix(k, "_test.go") {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// scanSum adds up scans.
func scanSum(ss []*Scan) (find, errs map[string]int, files, lines, nosec, found int) {
	find, errs = map[string]int{}, map[string]int{}
	for _, s := range ss {
		for k, v := range multiset(s.Findings, Finding.WithSupp) {
			find[k] += v
		}
		for k, v := range errSet(s) {
			errs[k] += v
		}
		files += s.Files
		lines += s.Lines
		nosec += s.Nosec
		found += s.Found
	}
	return
}

// sameSum fails unless got is exactly the sum of the parts.
func (r *Run) sameSum(class, gotName string, got *Scan, partsName string, parts []*Scan) {
	find, errs, files, lines, nosec, found := scanSum(parts)
	if d := diffSets(partsName, find, gotName, multiset(got.Findings, Finding.WithSupp)); d != "" {
		r.Fail(class, "findings of %s are not those of %s:%s", gotName, partsName, d)
	}
	if d := diffSets(partsName, errs, gotName, errSet(got)); d != "" {
		r.Fail(class, "errors of %s are not those of %s:%s", gotName, partsName, d)
	}
	want := fmt.Sprintf("files=%d lines=%d nosec=%d found=%d", files, lines, nosec, found)
	if want != metricsString(got) {
		r.Fail(class, "metrics of %s are %s, %s have %s", gotName, metricsString(got), partsName, want)
	}
}
