// genstd writes a table of exported functions and methods of the standard library: what users mock besides of their own
// code, and what nobody wrote to be mocked (assembly, functions without a frame, closures of their own, ...).
// Packages that mockey, the runtime or the worker need while a mock is in force are left out.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var packages = strings.Fields(`archive/tar archive/zip bufio bytes compress/bzip2 compress/flate compress/gzip compress/lzw compress/zlib
	container/heap container/list container/ring context crypto crypto/aes crypto/cipher crypto/des crypto/dsa crypto/ecdh crypto/ecdsa
	crypto/ed25519 crypto/elliptic crypto/hmac crypto/md5 crypto/rand crypto/rc4 crypto/rsa crypto/sha1 crypto/sha256 crypto/sha512
	crypto/subtle crypto/tls crypto/x509 crypto/x509/pkix database/sql database/sql/driver debug/dwarf debug/elf debug/gosym debug/macho
	debug/pe embed encoding/ascii85 encoding/asn1 encoding/base32 encoding/base64 encoding/csv encoding/gob encoding/hex
	encoding/pem encoding/xml expvar go/ast go/build go/constant go/doc go/format go/parser go/printer go/scanner go/token go/types
	hash/adler32 hash/crc32 hash/crc64 hash/maphash html html/template image image/color image/draw image/gif image/jpeg image/png
	index/suffixarray log/slog math math/big math/bits math/cmplx math/rand mime mime/multipart mime/quotedprintable net net/http
	net/http/cookiejar net/http/httptest net/http/httputil net/mail net/netip net/rpc net/smtp net/textproto net/url os/exec
	os/user path path/filepath regexp regexp/syntax sort strconv strings text/scanner text/tabwriter text/template text/template/parse time
	unicode unicode/utf16 unicode/utf8`)

// the functions of these packages that may be in use while a mock is in force
var used = map[string][]string{
	"math":    {"Float64bits", "Float64frombits", "Float32bits", "Float32frombits", "IsNaN", "IsInf", "Inf", "NaN", "Signbit", "Copysign"},
	"time":    {"Unix"}, // by os.ReadFile
	"strings": nil, "strconv": nil, "sort": nil, "bytes": nil, "unicode/utf8": nil, "unicode": nil, "context": nil, "math/bits": nil,
}

// functions without effects and state, whose original may run
var pure = map[string]string{
	"math": "* -Jn -Yn", "math/cmplx": "*", "math/bits": "*", "path": "*", "html": "*", "encoding/hex": "*", "unicode/utf16": "*", "encoding/ascii85": "*",
	"path/filepath": "Base Clean Dir Ext IsAbs IsLocal Join Match Split SplitList VolumeName ToSlash FromSlash Rel", "net/url": "PathEscape QueryEscape PathUnescape QueryUnescape JoinPath",
	"hash/crc32": "ChecksumIEEE", "hash/adler32": "Checksum", "crypto/md5": "Sum", "crypto/sha1": "Sum", "crypto/sha256": "Sum256 Sum224", "crypto/sha512": "Sum512 Sum384",
	"go/token": "IsExported IsIdentifier IsKeyword Lookup", "html/template": "HTMLEscapeString JSEscapeString URLQueryEscaper", "text/template": "HTMLEscapeString JSEscapeString",
	"regexp": "QuoteMeta MatchString", "mime": "FormatMediaType", "crypto/subtle": "ConstantTimeByteEq ConstantTimeEq ConstantTimeSelect ConstantTimeCompare ConstantTimeLessOrEq",
	"time":      "UnixMilli UnixMicro ParseDuration Duration.String Duration.Seconds Duration.Minutes Duration.Hours Duration.Round Duration.Truncate Duration.Abs Duration.Milliseconds Month.String Weekday.String",
	"net/netip": "ParseAddr ParsePrefix AddrFrom4 AddrFrom16", "net": "ParseIP JoinHostPort SplitHostPort ParseMAC IPv4 CIDRMask", "net/textproto": "CanonicalMIMEHeaderKey TrimString TrimBytes",
	"net/http": "CanonicalHeaderKey StatusText ParseHTTPVersion DetectContentType", "strconv": "Quote QuoteToASCII Unquote ParseFloat ParseBool AppendQuote", "image/color": "RGBToYCbCr YCbCrToRGB RGBToCMYK CMYKToRGB",
	"go/constant": "MakeInt64 MakeString", "bytes": "*", "strings": "*", "unicode": "*", "unicode/utf8": "*",
}

func main() {
	out := flag.String("o", "", "")
	except := flag.String("except", "", "comma-separated packages to leave out")
	limit := flag.Int("limit", 1<<30, "functions per package and kind at most")
	flag.Parse()
	skip := map[string]bool{}
	for _, p := range strings.Split(*except, ",") {
		skip[p] = true
	}
	ctx := build.Default
	var imports, lines []string
	for _, path := range packages {
		if u, ok := used[path]; skip[path] || ok && u == nil {
			continue
		}
		bp, err := ctx.Import(path, "", 0)
		if err != nil {
			log.Fatal(err)
		}
		usedHere := map[string]bool{}
		for _, n := range used[path] {
			usedHere[n] = true
		}
		isPure := map[string]bool{}
		for _, n := range strings.Fields(pure[path]) {
			isPure[n] = true
		}
		ident := strings.NewReplacer("/", "_").Replace(path)
		var here []string
		fset := token.NewFileSet()
		files := append(append([]string{}, bp.GoFiles...), bp.CgoFiles...)
		sort.Strings(files)
		for _, f := range files {
			af, err := parser.ParseFile(fset, filepath.Join(bp.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				log.Fatal(err)
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || !fd.Name.IsExported() || fd.Type.TypeParams != nil {
					continue
				}
				name, expr, method := fd.Name.Name, ident+"."+fd.Name.Name, ""
				if fd.Recv != nil {
					t := fd.Recv.List[0].Type
					ptr := false
					if s, ok := t.(*ast.StarExpr); ok {
						ptr, t = true, s.X
					}
					id, ok := t.(*ast.Ident)
					if !ok || !id.IsExported() {
						continue
					}
					method = name
					name = id.Name + "." + name
					if ptr {
						expr = fmt.Sprintf("(*%s.%s).%s", ident, id.Name, method)
					} else {
						expr = fmt.Sprintf("%s.%s.%s", ident, id.Name, method)
					}
				}
				if usedHere[name] {
					continue
				}
				here = append(here, fmt.Sprintf("\trt.RegisterStd(%q, %q, %s, %v)\n", path+"."+name, method, expr, isPure["*"] && method == "" && !isPure["-"+name] || isPure[name]))
			}
		}
		if len(here) > *limit {
			here = here[:*limit]
		}
		if len(here) > 0 {
			imports = append(imports, fmt.Sprintf("\t%s %q\n", ident, path))
			lines = append(lines, fmt.Sprintf("func init() { // %s\n%s}\n", path, strings.Join(here, "")))
		}
	}
	src := "// Code generated by genstd. DO NOT EDIT.\n\n//go:build stdzoo\n\npackage stdzoo\n\nimport (\n" + strings.Join(imports, "") + "\n\t\"verifharness/rt\"\n)\n\n" + strings.Join(lines, "\n")
	if err := os.WriteFile(*out, []byte(src), 0o644); err != nil {
		log.Fatal(err)
	}
}
