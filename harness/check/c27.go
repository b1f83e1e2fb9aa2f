package check

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C27", Run: runC27})
}

// opensslNames gives the IANA names, and others in use, of some ciphers.
var opensslNames = map[string][]string{
	"ECDHE-ECDSA-AES128-GCM-SHA256": {"TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256"},
	"ECDHE-RSA-AES128-GCM-SHA256":   {"TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256"},
	"ECDHE-ECDSA-AES256-GCM-SHA384": {"TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384"},
	"ECDHE-RSA-AES256-GCM-SHA384":   {"TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384"},
	"ECDHE-ECDSA-CHACHA20-POLY1305": {"TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256", "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305"},
	"ECDHE-RSA-CHACHA20-POLY1305":   {"TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256", "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305"},
	"DHE-RSA-AES128-GCM-SHA256":     {"TLS_DHE_RSA_WITH_AES_128_GCM_SHA256"},
	"AES128-SHA":                    {"TLS_RSA_WITH_AES_128_CBC_SHA"},
	"AES256-SHA256":                 {"TLS_RSA_WITH_AES_256_CBC_SHA256"},
	"DES-CBC3-SHA":                  {"TLS_RSA_WITH_3DES_EDE_CBC_SHA"},
	"DHE-RSA-CHACHA20-POLY1305":     nil, // no IANA name
	"NO-SUCH-CIPHER":                nil,
	"TLS_AES_128_GCM_SHA256":        nil, // no OpenSSL name of the older kind
}

var ianaSuites = []string{"TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256", "TLS_FUTURE_SUITE"}

var tlsNumbers = map[string]int{"TLSv1": 0x301, "TLSv1.1": 0x302, "TLSv1.2": 0x303, "TLSv1.3": 0x304}

// tlsLevel is one of the recommended configurations.
type tlsLevel struct {
	ciphers  map[string]int
	min, max int
}

var tlsLevels = map[string]string{"modern": "Modern", "intermediate": "Intermediate", "old": "Old"}

// genTLSDoc draws a document and what its rules say; ok says whether it can be
// used at all.
func (r *Run) genTLSDoc() (doc map[string]any, want map[string]tlsLevel, ok bool) {
	confs := map[string]any{}
	want, ok = map[string]tlsLevel{}, true
	some := func(names []string, n int) []string {
		out := []string{}
		for k := r.Int(n + 1); k > 0; k-- {
			out = append(out, pick(r, names))
		}
		return out
	}
	level := func() (map[string]any, tlsLevel) {
		suites, ciphers := some(ianaSuites, 4), some(sortedKeys(opensslNames), 12)
		versions := some([]string{"TLSv1", "TLSv1.1", "TLSv1.2", "TLSv1.3", "TLSv1.2", "TLSv1.3", "SSLv3", "TLSv1.4", "tlsv1.1", ""}, 4)
		if r.P(19, 20) {
			versions = append(versions, pick(r, []string{"TLSv1.2", "TLSv1.3", "TLSv1"}))
			shuffle(r, versions)
		}
		l := tlsLevel{ciphers: map[string]int{}}
		for _, c := range suites {
			l.ciphers[c] = 1
		}
		for _, c := range ciphers {
			for _, n := range opensslNames[c] {
				l.ciphers[n] = 1
			}
		}
		for _, v := range versions {
			if n := tlsNumbers[v]; n != 0 {
				if l.min == 0 || n < l.min {
					l.min = n
				}
				l.max = max(l.max, n)
			}
		}
		m := map[string]any{"openssl_ciphersuites": suites, "openssl_ciphers": ciphers, "tls_versions": versions,
			"tls_curves": []string{"X25519"}, "rsa_key_size": 2048, "dh_param_size": nil, "ocsp_staple": r.P(1, 2), "hsts_min_age": 63072000,
			"oldest_clients": []string{"Firefox 27", "Ünïcödé <&>"}, "ciphers": map[string]any{"go": []string{"x"}}, "maximum_certificate_lifespan": 90}
		if r.P(1, 12) {
			delete(m, "openssl_ciphersuites")
			for _, c := range suites {
				delete(l.ciphers, c)
			}
			for _, c := range ciphers {
				for _, n := range opensslNames[c] {
					l.ciphers[n] = 1
				}
			}
		}
		return m, l
	}
	for _, n := range []string{"modern", "intermediate", "old"} {
		m, l := level()
		if r.P(1, 40) {
			n = pick(r, []string{"Modern", "newest", ""}) // it is missing
			ok = false
		}
		confs[n] = m
		if l.min == 0 {
			ok = false
		}
		want[tlsLevels[n]] = l
	}
	if r.P(1, 3) {
		m, _ := level()
		confs["experimental"] = m
	}
	if r.P(1, 12) {
		m, _ := level()
		m["oldest_clients"] = strings.Split(strings.Repeat("Client 1,", pick(r, []int{500, 4000, 30000})), ",")
		confs["ancient"] = m
	}
	doc = map[string]any{"version": pick(r, []any{5.7, 6, 4.0}), "href": "https://x/", "configurations": confs}
	return doc, want, ok
}

// damage makes the bytes something that is not the document.
func (r *Run) damageTLSDoc(b []byte) []byte {
	switch r.Int(6) {
	case 0:
		return b[:r.Int(len(b))]
	case 1:
		return []byte("<html><body>Service Unavailable</body></html>")
	case 2:
		return bytes.Replace(b, []byte(`"tls_versions":[`), []byte(`"tls_versions":[7,`), 1)
	case 3:
		return bytes.Replace(b, []byte(`"configurations":{`), []byte(`"configurations":[`), 1)
	case 4:
		return bytes.Replace(b, []byte(`"configurations"`), []byte(`"configuration"`), 1)
	default:
		return []byte(pick(r, []string{"", "null", "{}", "[]", "{\"configurations\":{}}", "{\"configurations\":null,\"version\":5}", " "}))
	}
}

// readTLSRules reads generated rules.
func readTLSRules(src []byte) (string, map[string]tlsLevel, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return "", nil, err
	}
	out := map[string]tlsLevel{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		name := strings.TrimSuffix(strings.TrimPrefix(fd.Name.Name, "New"), "TLSCheck")
		if "New"+name+"TLSCheck" != fd.Name.Name {
			return "", nil, fmt.Errorf("unknown function %s", fd.Name.Name)
		}
		if _, ok := out[name]; ok {
			return "", nil, fmt.Errorf("%s is declared twice", fd.Name.Name)
		}
		l := tlsLevel{ciphers: map[string]int{}}
		ast.Inspect(fd, func(n ast.Node) bool {
			kv, ok := n.(*ast.KeyValueExpr)
			if !ok {
				return true
			}
			key, _ := kv.Key.(*ast.Ident)
			if key == nil {
				return true
			}
			switch key.Name {
			case "MinVersion", "MaxVersion":
				lit, _ := kv.Value.(*ast.BasicLit)
				if lit == nil {
					err = fmt.Errorf("%s of %s is no literal", key.Name, name)
					return false
				}
				v, e := strconv.ParseInt(lit.Value, 0, 32)
				if e != nil {
					err = e
				}
				if key.Name == "MinVersion" {
					l.min = int(v)
				} else {
					l.max = int(v)
				}
			case "goodCiphers":
				ast.Inspect(kv.Value, func(n ast.Node) bool {
					if lit, ok := n.(*ast.BasicLit); ok {
						s, e := strconv.Unquote(lit.Value)
						if e != nil {
							err = e
						}
						l.ciphers[s] = 1
					}
					return true
				})
			}
			return true
		})
		out[name] = l
	}
	return f.Name.Name, out, err
}

// filesBelow are the contents of the files of a directory.
func filesBelow(dir string) map[string]string {
	out := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		rel, _ := filepath.Rel(dir, p)
		out[rel] = string(b)
		return err
	})
	if err != nil {
		world.HarnessFail("scratch: %v", err)
	}
	return out
}

func runC27(r *Run) {
	doc, want, usable := r.genTLSDoc()
	var b []byte
	var err error
	if r.P(1, 2) {
		b, err = json.MarshalIndent(doc, "", "  ")
	} else {
		b, err = json.Marshal(doc)
	}
	if err != nil {
		world.HarnessFail("document: %v", err)
	}
	web := &world.HTTPSpec{Status: 200, Body: b, Cut: -1}
	fault := "none"
	switch r.F(8) {
	case 0:
		fault, usable = "no answer", false
		web.Fail = pickF(r, []string{"connection refused", "i/o timeout", "no such host", "tls: handshake failure"})
	case 1:
		fault = "cut"
		web.Cut = r.F(len(b))
		web.Broken = pickF(r, []string{"", "connection reset by peer"})
		usable = false
	case 2:
		fault = "damaged"
		web.Body = r.damageTLSDoc(b)
		web.Status = pickF(r, []int{200, 404, 500, 503})
		if bytes.Equal(web.Body, b) {
			web.Status = 200
		} else {
			usable = false
		}
	}
	for k := r.F(3); k > 0; k-- {
		web.Pieces = append(web.Pieces, 1+r.F(1000))
	}
	root := r.Dir
	for _, d := range []string{"cwd/sub/deep", "other"} {
		if err := os.MkdirAll(filepath.Join(root, d), 0o755); err != nil {
			world.HarnessFail("scratch: %v", err)
		}
	}
	sp := world.CLISpec{Prog: "tlsconfig", HTTP: web, Dir: filepath.Join(root, "cwd"), Env: map[string]string{}, CPUs: 1 + r.Int(4), Cfg: r.SimCfg()}
	pkg, name := "rules", "tls_config.go"
	if r.P(1, 3) {
		pkg = pick(r, []string{"main", "rules2", "x"})
		sp.Args = append(sp.Args, "-pkg="+pkg)
	}
	if r.P(1, 3) {
		name = pick(r, []string{"out.go", "tls.txt", "a b.go", "sub/x.go"})
		sp.Args = append(sp.Args, "-outputFile="+name)
	}
	dir := "cwd"
	switch r.Int(8) {
	case 0:
		sp.Args = append(sp.Args, ".")
	case 1:
		dir = "cwd/sub"
		sp.Args = append(sp.Args, "sub")
	case 2:
		dir = "other"
		sp.Args = append(sp.Args, pick(r, []string{"../other", filepath.Join(root, "other")}))
	case 3:
		if r.P(1, 2) {
			sp.Args = append(sp.Args, ".", "sub")
			usable, fault = false, fault+", two directories"
		}
	}
	dst := filepath.Join(dir, name)
	exists := func(rel string) bool { _, err := os.Stat(filepath.Join(root, rel)); return err == nil }
	if !exists(filepath.Dir(dst)) {
		usable, fault = false, fault+", missing directory"
	} else if r.P(1, 2) {
		old := "package rules\n" + strings.Repeat("// old\n", r.Int(2000))
		if err := os.WriteFile(filepath.Join(root, dst), []byte(old), 0o644); err != nil {
			world.HarnessFail("scratch: %v", err)
		}
	}
	if r.FP(1, 4) {
		f := &world.FaultRule{Op: pickF(r, []string{"create", "write", "close"}), Suffix: "/" + filepath.Base(dst), Sticky: true, Err: pickF(r, []string{"ENOSPC", "EIO", "EACCES", "EDQUOT"})}
		if f.Op == "write" && r.FP(2, 3) {
			f.At = 1 + r.F(4000)
		}
		sp.Faults = []*world.FaultRule{f}
		fault += ", " + f.Op + " of the file"
	}
	before := filesBelow(root)
	r.refusal = "Could not load the Server Side TLS configuration"
	res := r.CLI("tlsconfig", sp, false)
	r.refusal = ""
	after := filesBelow(root)
	fired := ""
	for i, n := range res.Trailer.Rules {
		if n > 0 {
			fired = sp.Faults[i].Op
		}
	}
	if fault != "none" && !usable || fired != "" {
		r.Fired["tlsconfig-"+strings.TrimPrefix(fault, "none, ")]++
	}
	args := fmt.Sprintf("tlsconfig %s (%s)", strings.Join(sp.Args, " "), fault)
	for n := range after {
		if n != dst && after[n] != before[n] {
			r.Fail("wrong-file", "%s wrote %s, not %s", args, n, dst)
		}
	}
	for n := range before {
		if _, ok := after[n]; !ok {
			r.Fail("wrong-file", "%s removed %s", args, n)
		}
	}
	_, had := before[dst]
	text, has := after[dst]
	switch {
	case res.Code == 0:
		if !usable {
			r.Fail("unusable-accepted", "%s ends with status 0 although there is nothing to generate from; the answer was %q, the file has %q", args, firstN(string(web.Body), 600), firstN(text, 600))
		}
		if fired != "" {
			r.Fail("failure-unreported", "%s ends with status 0 although the %s of the file failed", args, fired)
		}
		p, got, err := readTLSRules([]byte(text))
		if err != nil {
			r.Fail("rules-inexact", "%s wrote rules that cannot be read: %v\n%s", args, err, firstN(text, 3000))
		}
		if p != pkg {
			r.Fail("rules-inexact", "%s wrote the package %s, not %s", args, p, pkg)
		}
		if nice, err := format.Source([]byte(text)); err != nil || !bytes.Equal(nice, []byte(text)) {
			r.Fail("rules-inexact", "%s wrote unformatted source (%v)", args, err)
		}
		for _, n := range sortedKeys(want) {
			w, g := want[n], got[n]
			if g.ciphers == nil {
				r.Fail("rules-inexact", "%s: there is no rule %s", args, n)
			}
			if w.min != g.min || w.max != g.max {
				r.Fail("rules-inexact", "%s: the rule %s has the versions %#x to %#x, the document %#x to %#x", args, n, g.min, g.max, w.min, w.max)
			}
			if d := diffSets("the document", w.ciphers, "the rule "+n, g.ciphers); d != "" {
				r.Fail("rules-inexact", "%s: the ciphers of %s differ:%s", args, n, d)
			}
		}
		if len(got) != len(want) {
			r.Fail("rules-inexact", "%s: there are %d rules: %v", args, len(got), sortedKeys(got))
		}
	default:
		if usable && fired == "" {
			r.Fail("usable-refused", "%s ends with status %d: %s", args, res.Code, firstN(string(res.Stderr), 800))
		}
		if fired == "" && (had != has || text != before[dst]) {
			r.Fail("file-damaged", "%s ends with status %d and leaves the file with %q instead of %q", args, res.Code, firstN(text, 200), firstN(before[dst], 200))
		}
		if len(res.Stderr) == 0 {
			r.Fail("failure-unreported", "%s ends with status %d without a word", args, res.Code)
		}
	}
	if len(res.Trailer.Web) > 1 {
		r.Fail("wrong-requests", "%s made the requests %v", args, res.Trailer.Web)
	}
	var ks []string
	for n, l := range want {
		ks = append(ks, fmt.Sprint(n, l.min, l.max, len(l.ciphers)))
	}
	sort.Strings(ks)
	r.Key = fmt.Sprint(sp.Args, fault, fired, usable, had, ks, web.Cut, web.Pieces, len(web.Body))
	r.Trivial = false
	r.Sample = fmt.Sprintf("%s: status %d, rules %v", args, res.Code, ks)
}
