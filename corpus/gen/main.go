// Regenerates exports.gob.gz: the export data of the packages that corpus
// sources import, so that checks need not compile them. Run by regen.sh.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/gob"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/gcexportdata"
	"golang.org/x/tools/go/packages"
)

var imps = []string{"fmt", "os", "log", "math", "net/http", "database/sql", "math/rand", "crypto/cipher", "crypto/aes", "crypto/tls", "io", "strconv", "io/ioutil", "path/filepath", "crypto/rand", "context", "math/rand/v2", "net", "os/exec", "encoding/hex", "bytes", "archive/zip", "html/template", "math/big", "strings", "bufio", "syscall", "path", "compress/zlib", "time", "sync", "crypto/md5", "crypto/sha1", "crypto/des", "crypto/rc4", "golang.org/x/crypto/md4", "golang.org/x/crypto/ripemd160", "golang.org/x/crypto/ssh", "net/http/pprof", "github.com/lib/pq", "golang.org/x/sys/execabs", "archive/tar", "crypto/rsa", "net/http/cgi", "errors", "text/template", "compress/gzip", "compress/bzip2", "compress/flate", "compress/lzw", "crypto/sha256", "crypto/hmac", "regexp", "sort", "encoding/json", "encoding/base64", "io/fs", "sync/atomic", "testing", "net/url", "crypto/x509", "hash", "embed", "reflect", "runtime", "net/http/httptest", "crypto", "crypto/sha512", "crypto/ecdsa", "encoding/xml", "encoding/binary", "encoding/csv", "unicode/utf8", "slices", "maps", "cmp", "iter", "log/slog", "flag"}

type pkgData struct {
	Name string
	Data []byte
}

func main() {
	fset := token.NewFileSet()
	pk, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedTypes | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile, Fset: fset}, imps...)
	if err != nil {
		panic(err)
	}
	all := map[string]*types.Package{}
	packages.Visit(pk, nil, func(p *packages.Package) {
		if len(p.Errors) > 0 {
			panic(fmt.Sprint(p.PkgPath, p.Errors))
		}
		if p.Types != nil && p.PkgPath != "unsafe" {
			all[p.PkgPath] = p.Types
		}
	})
	var names []string
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []pkgData
	for _, n := range names {
		var b bytes.Buffer
		if err := gcexportdata.Write(&b, fset, all[n]); err != nil {
			panic(err)
		}
		out = append(out, pkgData{n, b.Bytes()})
	}
	f, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	z, _ := gzip.NewWriterLevel(f, 9)
	if err := gob.NewEncoder(z).Encode(out); err != nil {
		panic(err)
	}
	z.Close()
	f.Close()
	fmt.Println(len(out), "packages")
}
