package check

import (
	"fmt"
	"strings"
)

// sinks use a string or number where the rules resolve, track or backtrack it.
var stressSinks = []struct{ typ, imp, code string }{
	{"string", "os/exec", "_ = exec.Command(%s).Run()"},
	{"string", "os/exec", "_ = exec.Command(\"sh\", \"-c\", %s).Start()"},
	{"string", "os/exec", "_ = exec.CommandContext(nil, \"sh\", %s).Run()"},
	{"string", "syscall", "_ = syscall.Exec(%s, nil, nil)"},
	{"string", "net/http", "_, _ = http.Get(%s)"},
	{"string", "net/http", "_, _ = http.NewRequest(\"GET\", %s, nil)"},
	{"string", "os", "_, _ = os.Open(%s)"},
	{"string", "os", "_, _ = os.ReadFile(\"/tmp/\" + %s)"},
	{"string", "path/filepath", "_ = filepath.Join(\"a\", %s)"},
	{"string", "html/template", "_ = template.HTML(%s)"},
	{"string", "html/template", "_ = template.JS(%s)"},
	{"string", "net", "_, _ = net.Listen(\"tcp\", %s)"},
	{"string", "database/sql", "var db *sql.DB; _, _ = db.Query(%s)"},
	{"string", "database/sql", "var tx *sql.Tx; _, _ = tx.Exec(\"SELECT * FROM x WHERE \" + %s)"},
	{"string", "fmt", "password := %s; fmt.Println(password)"},
	{"string", "os", "_ = os.Setenv(\"token\", %s)"},
	{"int", "os", "_ = os.Chmod(\"x\", os.FileMode(%s))"},
	{"int", "os", "_, _ = os.OpenFile(\"x\", 0, os.FileMode(%s))"},
	{"int", "crypto/rsa", "_, _ = rsa.GenerateKey(nil, %s)"},
	{"int", "", "_ = int8(%s)"},
	{"int", "", "_ = uint16(%s)"},
	{"int", "crypto/tls", "_ = &tls.Config{MinVersion: uint16(%s)}"},
	{"int", "math/rand", "_ = rand.Intn(%s)"},
	{"int", "strconv", "n, _ := strconv.Atoi(fmt.Sprint(%s)); _ = int16(n)"},
}

type stress struct {
	r    *Run
	imps map[string]bool
	b    strings.Builder
	n    int
	how  []string
}

func (s *stress) p(f string, a ...any) { fmt.Fprintf(&s.b, f+"\n", a...) }

func (s *stress) use(imp string) {
	if imp != "" {
		s.imps[imp] = true
	}
}

// size draws how far a shape grows.
func (s *stress) size() int {
	switch s.r.Int(4) {
	case 0:
		return 1 + s.r.Int(3)
	case 1:
		return 2 + s.r.Int(12)
	case 2:
		return 10 + s.r.Int(30)
	}
	return 30 + s.r.Int(60)
}

func (s *stress) id(base string) string {
	s.n++
	return fmt.Sprintf("%s%d", base, s.n)
}

func (s *stress) sink(typ, v string) {
	for n := 0; ; n++ {
		i := s.r.Int(len(stressSinks))
		k := stressSinks[i]
		if k.typ != typ {
			if n < 64 {
				continue
			}
			// shrunk choices may be all alike: walk on
			for k.typ != typ {
				i++
				k = stressSinks[i%len(stressSinks)]
			}
		}
		s.use(k.imp)
		if strings.Contains(k.code, "fmt.") {
			s.use("fmt")
		}
		s.p("{\n"+strings.ReplaceAll(k.code, "; ", "\n")+"\n}", v)
		if n > s.r.Int(3) {
			return
		}
	}
}

func (s *stress) lit(typ string) string {
	if typ == "string" {
		return pick(s.r, []string{`"a"`, "`b`", `"SELECT * FROM t WHERE "`, `"0.0.0.0:80"`, `""`})
	}
	return pick(s.r, []string{"0", "1", "0o777", "1024", "-1", "1 << 20"})
}

// chain declares values of which each is made of earlier ones.
func (s *stress) chain() {
	typ := pick(s.r, []string{"string", "int"})
	v := s.id("v")
	n := s.size()
	par := s.r.P(1, 3)
	pkgLevel := s.r.P(1, 4)
	cyc := pkgLevel && s.r.P(1, 2)
	ops := 1 + s.r.Int(3)
	form := s.r.Int(5)
	s.how = append(s.how, fmt.Sprintf("chain of %d, %d operands, form %d, package level %v, cyclic %v", n, ops, form, pkgLevel, cyc))
	var body []string
	for i := 0; i <= n; i++ {
		var xs []string
		for k := 0; k < ops; k++ {
			j := i - 1
			if s.r.P(1, 4) {
				j -= s.r.Int(3)
			}
			switch {
			case j < 0 && par && !pkgLevel:
				xs = append(xs, "p")
			case j < 0 && cyc:
				xs = append(xs, fmt.Sprintf("%s_%d", v, n))
			case j < 0:
				xs = append(xs, s.lit(typ))
			default:
				xs = append(xs, fmt.Sprintf("%s_%d", v, j))
			}
		}
		e := strings.Join(xs, " + ")
		if s.r.P(1, 8) {
			e = "(" + e + ")"
		}
		name := fmt.Sprintf("%s_%d", v, i)
		switch {
		case pkgLevel && form == 1 && !cyc && !par:
			body = append(body, "const "+name+" = "+e)
		case pkgLevel:
			body = append(body, "var "+name+" = "+e)
		case form == 1:
			body = append(body, "var "+name+" "+typ+" = "+e)
		case form == 2:
			body = append(body, fmt.Sprintf("%s := []%s{%s}[0]", name, typ, e))
		case form == 3:
			body = append(body, fmt.Sprintf("%s, _%s := %s, %s", name, name, e, e), "_ = _"+name)
		case form == 4:
			body = append(body, fmt.Sprintf("%s := %s", name, e), fmt.Sprintf("if len(%q) > %d {\n%s = %s + %s\n}", v, i%3, name, name, s.lit(typ)))
		default:
			body = append(body, name+" := "+e)
		}
	}
	last := fmt.Sprintf("%s_%d", v, n)
	if pkgLevel {
		s.p("%s", strings.Join(body, "\n"))
		s.p("func %s() {", s.id("F"))
	} else {
		s.p("func %s(p %s) {", s.id("F"), typ)
		s.p("%s", strings.Join(body, "\n"))
	}
	s.sink(typ, last)
	s.p("}")
}

// graph declares functions which pass an argument on to each other.
func (s *stress) graph() {
	kind := s.r.Int(4)
	n := 1 + s.r.Int(8)
	if kind == 3 {
		n = 1 + s.r.Int(5)
	}
	f := s.id("g")
	typ := []string{"[]byte", "string", "int64", "[]byte"}[kind]
	edges := 0
	for i := 0; i < n; i++ {
		s.p("func %s_%d(a %s, k int) {", f, i, typ)
		if kind == 0 && s.r.P(1, 2) {
			s.p("if len(a) > %d {\nreturn\n}", s.r.Int(5))
		}
		for j := 0; j < n; j++ {
			if !s.r.P(1, 2) {
				continue
			}
			edges++
			arg := "a"
			switch {
			case kind == 0 && s.r.P(1, 2):
				lo, hi := s.r.Int(6), s.r.Int(12)
				arg = pick(s.r, []string{fmt.Sprintf("a[%d:]", lo), fmt.Sprintf("a[:%d]", hi), fmt.Sprintf("a[%d:%d]", min(lo, hi), hi), "a[k:]"})
			case kind == 1 && s.r.P(1, 3):
				arg = "a + a"
			case kind == 2 && s.r.P(1, 3):
				arg = pick(s.r, []string{"-a", "a + 1", "int64(int32(a))"})
			case kind == 3 && s.r.P(1, 6):
				arg = pick(s.r, []string{"a[:12]", "[]byte(\"0123456789ab\")", "append(a, a...)"})
			}
			call := fmt.Sprintf("%s_%d(%s, k-1)", f, j, arg)
			switch s.r.Int(4) {
			case 0:
				call = "defer " + call
			case 1:
				call = "if k > 0 {\n" + call + "\n}"
			}
			s.p("%s", call)
		}
		switch kind {
		case 0:
			s.p("_ = a[%d]", s.r.Int(12))
		case 1:
			s.sink("string", "a")
		case 2:
			s.p("_ = int32(a)")
		case 3:
			s.use("crypto/cipher")
			s.p("var c cipher.AEAD\n_ = c.Seal(nil, a, nil, nil)")
		}
		s.p("}")
	}
	s.p("func %s() {", s.id("F"))
	for k := 0; k <= s.r.Int(3); k++ {
		arg := map[string]string{"[]byte": fmt.Sprintf("make([]byte, %d)", s.r.Int(20)), "string": `"x"`, "int64": "1 << 40"}[typ]
		if kind == 0 {
			s.p("{\ns := %s\n%s_%d(s[%d:], 3)\n}", arg, f, s.r.Int(n), s.r.Int(4))
		} else {
			s.p("%s_%d(%s, 3)", f, s.r.Int(n), arg)
		}
	}
	s.p("}")
	s.how = append(s.how, fmt.Sprintf("graph of %d functions and %d calls over %s", n, edges, typ))
}

// labels declares a function whose control flow is made of jumps.
func (s *stress) labels() {
	n := 1 + s.r.Int(6)
	s.use("strconv")
	s.p("func %s(c func() bool, x int64, y uint64, t string) {", s.id("F"))
	s.p("var v int64 = x\nvar w uint64 = y\n_, _ = v, w")
	jump := func() {
		s.p("goto L%d", s.r.Int(n))
	}
	jump()
	for i := 0; i < n; i++ {
		s.p("L%d:", i)
		for k := s.r.Int(4); k >= 0; k-- {
			switch s.r.Int(9) {
			case 0:
				s.p("v = %s", pick(s.r, []string{"x", "-v", "v + 1", "int64(w)", "1 << 40"}))
			case 1:
				s.p("w = %s", pick(s.r, []string{"y", "w >> 1", "uint64(v)", "7"}))
			case 2:
				s.p("if c() {")
				jump()
				s.p("}")
			case 3:
				s.p("if v %s %s {", pick(s.r, []string{"<", "<=", ">", ">=", "==", "!="}), pick(s.r, []string{"0", "100", "1 << 31", "x", "-v"}))
				jump()
				s.p("}")
			case 4:
				s.p("if c() {\nv = x + %d\ngoto L%d\n}", s.r.Int(9), s.r.Int(n))
			case 5:
				s.p("if p, err := strconv.%s; err == nil {\n%s\ngoto L%d\n}", pick(s.r, []string{"ParseInt(t, 10, 32)", "ParseInt(t, 10, 64)"}), "v = p", s.r.Int(n))
			case 6:
				s.p("_ = %s(v)", pick(s.r, []string{"int32", "uint8", "int16", "uint64"}))
			case 7:
				s.p("_ = %s(w)", pick(s.r, []string{"int32", "uint8", "int64"}))
			case 8:
				s.p("switch {\ncase v > %d:\ngoto L%d\ncase w < %d:\nv = 2\ndefault:\nw = 3\n}", s.r.Int(99), s.r.Int(n), s.r.Int(99))
			}
		}
		switch s.r.Int(4) {
		case 0:
			jump()
		case 1:
			s.p("return")
		}
	}
	s.p("if c() {\nv = 1")
	jump()
	s.p("}\nif c() {\nw = 4")
	jump()
	s.p("}")
	for i := 0; i < n; i++ {
		s.p("if c() {\ngoto L%d\n}", i)
	}
	s.p("v = 2")
	jump()
	s.p("}")
	s.how = append(s.how, fmt.Sprintf("%d labels", n))
}

// nest declares deeply nested source.
func (s *stress) nest() {
	n := s.size()
	if s.r.P(1, 3) {
		n *= 4
	}
	rep := strings.Repeat
	kind := s.r.Int(11)
	s.p("func %s(p string, k int, c func() bool) {", s.id("F"))
	switch kind {
	case 0:
		s.sink("string", rep("(", n)+"p"+rep(")", n))
	case 1:
		s.sink("string", "p"+rep(` + "x" + p`, n))
	case 2:
		s.sink("string", rep(`(p + `, n)+`"x"`+rep(")", n))
	case 3:
		s.sink("int", rep("-", 1)+rep("(-", n)+"k"+rep(")", n))
	case 4:
		s.use("fmt")
		s.sink("string", rep("fmt.Sprint(", n)+"p"+rep(")", n))
	case 5:
		s.p("%s", rep("if c() {\n", n))
		s.sink("string", "p")
		s.p("%s", rep("}\n", n))
	case 6:
		for i := 0; i < n; i++ {
			s.p("if k %s %d {\n_ = int8(k)\n} else ", pick(s.r, []string{"<", ">", "==", "!="}), i)
		}
		s.p("{\n_ = int8(k)\n}")
	case 7:
		s.p("%s", rep("func() {\n", min(n, 60)))
		s.sink("string", "p")
		s.p("%s", rep("}()\n", min(n, 60)))
	case 8:
		s.p("x := %sstring%s", rep("[]", n), "{}")
		s.p("_ = x")
	case 9:
		s.p("q := p")
		for i := 0; i < n; i++ {
			s.p("{\nq := q + \"x\"\n_ = q")
		}
		s.sink("string", "q")
		s.p("%s", rep("}\n", n))
	case 10:
		s.p("a := [4]int{}\n_ = a")
		for i := 0; i < min(n, 40); i++ {
			s.p("for i := range a {\nx := &a[i]\n_ = x")
		}
		s.p("%s", rep("}\n", min(n, 40)))
	}
	s.p("}")
	s.how = append(s.how, fmt.Sprintf("nesting %d of depth %d", kind, n))
}

// wide declares much of the same.
func (s *stress) wide() {
	n := s.size()
	if s.r.P(1, 3) {
		n *= 3
	}
	kind := s.r.Int(6)
	s.p("func %s(p string, k int) (x int) {", s.id("F"))
	switch kind {
	case 0:
		s.p("q := %s\nq2 := q", s.lit("string"))
		for i := 0; i < n; i++ {
			s.p("q %s %s", pick(s.r, []string{"=", "+="}), pick(s.r, []string{"q2", "p", `"x"`, "q + q"}))
		}
		s.sink("string", "q")
	case 1:
		s.p("s := make([]byte, %d)", s.r.Int(20))
		for i := 0; i < n; i++ {
			s.p("%s", strings.ReplaceAll(pick(s.r, []string{"x += int(s[#])", "s = s[#:]", "s = append(s, byte(#))", "s = s[:#]", "if len(s) > # {\nx += int(s[#])\n}", "s = s[#:#]"}), "#", fmt.Sprint(s.r.Int(20))))
		}
		s.p("return x + len(s)")
	case 2:
		s.use("crypto/tls")
		s.p("_ = []*tls.Config{")
		for i := 0; i < n; i++ {
			s.p("{MinVersion: tls.VersionTLS1%d, InsecureSkipVerify: %v},", s.r.Int(4), s.r.P(1, 2))
		}
		s.p("}")
	case 3:
		s.p("switch k {")
		for i := 0; i < n; i++ {
			s.p("case %d:\nx = int(int8(k))", i)
		}
		s.p("}")
	case 4:
		s.use("os")
		for i := 0; i < n; i++ {
			s.p("f%d, _ := os.Open(p)\ndefer f%d.Close()", i, i)
		}
	case 5:
		s.use("os/exec")
		s.p("_ = exec.Command(p%s)", strings.Repeat(", p + \"x\"", n))
	}
	s.p("return\n}")
	s.how = append(s.how, fmt.Sprintf("repetition %d of width %d", kind, n))
}

// stressPkg draws a package in which some construction grows far.
func (r *Run) stressPkg() (map[string]string, string) {
	s := &stress{r: r, imps: map[string]bool{}}
	for n := r.Int(3); n >= 0; n-- {
		switch r.Int(6) {
		case 0, 1:
			s.chain()
		case 2:
			s.graph()
		case 3:
			s.labels()
		case 4:
			s.nest()
		case 5:
			s.wide()
		}
	}
	var b strings.Builder
	b.WriteString("package p\n\nimport (\n")
	for _, i := range sortedKeys(s.imps) {
		fmt.Fprintf(&b, "\t%q\n", i)
	}
	b.WriteString(")\n\n")
	b.WriteString(s.b.String())
	for range s.how {
		r.Fired["stress-shape"]++
	}
	return map[string]string{"a.go": b.String()}, "stress: " + strings.Join(s.how, ", ")
}
