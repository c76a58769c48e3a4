// noisegen writes an overlay of the library's packages with a call between the statements of every function,
// so that a run can be disturbed (small sleeps, yields) at any point of the code. It knows nothing about the code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const runtimeSrc = `package %s

import (
	zzos "os"
	zzruntime "runtime"
	zzstrconv "strconv"
	zzatomic "sync/atomic"
	zztime "time"
)

const zzN = %d

var (
	zzMode  int
	zzSites []uint8
	zzState uint64
	zzSpent int64
)

func init() {
	seed, err := zzstrconv.ParseInt(zzos.Getenv("VH_NOISE"), 10, 64)
	if err != nil || zzN == 0 {
		return
	}
	s := uint64(seed)*0x9E3779B97F4A7C15 + %d
	next := func() uint64 {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		return s
	}
	for i := 0; i < 8; i++ {
		next()
	}
	zzSites = make([]uint8, zzN)
	zzMode = int(next() %% 4)
	switch zzMode {
	case 0, 1: // a few sites, long.
		for i := 0; i < 10; i++ {
			zzSites[next()%%zzN] = 2
		}
	case 2: // a run of neighbours, long.
		at := int(next() %% zzN)
		for i := 0; i < 8; i++ {
			zzSites[(at+i)%%zzN] = 2
		}
	case 3: // everywhere, short and rare.
		for i := range zzSites {
			zzSites[i] = 1
		}
		for i := 0; i < 3; i++ {
			zzSites[next()%%zzN] = 2
		}
	}
	zzState = next()
}

func zzNoise(id int) {
	if zzSites == nil || zzSites[id] == 0 {
		return
	}
	x := zzatomic.AddUint64(&zzState, 0x9E3779B97F4A7C15)
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	if zzSites[id] == 1 {
		switch x %% 32 {
		case 0:
			if zzatomic.AddInt64(&zzSpent, 60) < 1200000 {
				zztime.Sleep(zztime.Duration(x>>32%%60) * zztime.Microsecond)
			}
		case 1, 2, 3:
			zzruntime.Gosched()
		}
		return
	}
	switch x %% 4 {
	case 0:
		d := int64(x >> 32 %% 3000)
		if zzatomic.AddInt64(&zzSpent, d) < 1200000 {
			zztime.Sleep(zztime.Duration(d) * zztime.Microsecond)
		}
	case 1:
		d := int64(x >> 32 %% 200)
		if zzatomic.AddInt64(&zzSpent, d) < 1200000 {
			zztime.Sleep(zztime.Duration(d) * zztime.Microsecond)
		}
	case 2:
		zzruntime.Gosched()
	}
}
`

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	replace := map[string]string{}
	os.MkdirAll(*out, 0o755)
	var dirs []string
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "node_modules") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	for n, dir := range dirs {
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		sort.Strings(files)
		id := 0
		pkg := ""
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fail(err)
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fail(err)
			}
			if af.Name.Name == "main" {
				continue
			}
			pkg = af.Name.Name
			var at []int
			add := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
			ast.Inspect(af, func(x ast.Node) bool {
				switch b := x.(type) {
				case *ast.BlockStmt:
					// the clauses of a switch or select are not plain statements.
					if len(b.List) > 0 {
						switch b.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					add(b.List)
				case *ast.CaseClause:
					add(b.Body)
				case *ast.CommClause:
					add(b.Body)
				}
				return true
			})
			if len(at) == 0 {
				continue
			}
			sort.Ints(at)
			var sb strings.Builder
			last := 0
			for _, o := range at {
				sb.Write(src[last:o])
				fmt.Fprintf(&sb, "zzNoise(%d); ", id)
				id++
				last = o
			}
			sb.Write(src[last:])
			dst := filepath.Join(*out, fmt.Sprintf("%d_%s", n, filepath.Base(f)))
			if err := os.WriteFile(dst, []byte(sb.String()), 0o644); err != nil {
				fail(err)
			}
			replace[f] = dst
		}
		if id == 0 {
			continue
		}
		dst := filepath.Join(*out, fmt.Sprintf("%d_zz_noise.go", n))
		if err := os.WriteFile(dst, []byte(fmt.Sprintf(runtimeSrc, pkg, id, n+1)), 0o644); err != nil {
			fail(err)
		}
		replace[filepath.Join(dir, "zz_noise.go")] = dst
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fail(err)
	}
	fmt.Println(len(replace), "files")
}

func fail(err error) {
	fmt.Println(err)
	os.Exit(1)
}
