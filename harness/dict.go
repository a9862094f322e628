package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The dictionary: byte strings and numbers that occur in the source under test.
// Inputs built around the constants a program compares with reach branches that
// random bytes never would. Constants that are not in the baseline list (taken
// from the tree the checks were written for) are drawn more often, because
// whatever they guard is new.

//go:embed dict_baseline.txt
var baselineText string

var (
	dictStr []string // everything known
	hotStr  []string // not in the baseline
	hotInt  []int
	hotBig  []int // over 4 Mi
)

func loadDict(dir string) error {
	strs, ints, err := literals(dir)
	if err != nil {
		return err
	}
	base := map[string]bool{}
	for _, l := range strings.Split(baselineText, "\n") {
		base[l] = true
	}
	for _, s := range strs {
		dictStr = append(dictStr, s)
		if !base["s "+strconv.QuoteToASCII(s)] {
			hotStr = append(hotStr, s)
		}
	}
	for _, i := range ints {
		if !base[fmt.Sprintf("i %d", i)] {
			if i > 1<<22 {
				hotBig = append(hotBig, i)
				continue
			}
			hotInt = append(hotInt, i)
		}
	}
	return nil
}

func literals(dir string) ([]string, []int, error) {
	strs, ints := map[string]bool{}, map[int]bool{}
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, nil, err
	}
	fset := token.NewFileSet()
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(fset, f, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, nil, err
		}
		ast.Inspect(af, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			switch x := n.(type) {
			case *ast.BasicLit:
				switch x.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && len(s) > 0 && len(s) <= 300 {
						strs[s] = true
					}
				case token.CHAR:
					if s, _, _, err := strconv.UnquoteChar(strings.Trim(x.Value, "'"), '\''); err == nil {
						if s < 256 {
							strs[string([]byte{byte(s)})] = true
						} else {
							strs[string(s)] = true
						}
					}
				case token.INT:
					if i, err := strconv.ParseInt(x.Value, 0, 64); err == nil && i > 1 && i <= 1<<26 {
						ints[int(i)] = true
					}
				}
			case *ast.SelectorExpr:
				if p, ok := x.X.(*ast.Ident); ok {
					if v, ok := namedInts[p.Name+"."+x.Sel.Name]; ok {
						ints[v] = true
					}
				}
			case *ast.CallExpr:
				// conversions that cut off
				if f, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
					if v, ok := namedInts[f.Name]; ok {
						ints[v] = true
					}
				}
			case *ast.BinaryExpr:
				// 1 << 12, 64 * 1024
				if v, ok := constInt(x); ok && v > 1 && v <= 1<<26 {
					ints[v] = true
				}
			}
			return true
		})
	}
	var ss []string
	for s := range strs {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	var is []int
	for i := range ints {
		is = append(is, i)
	}
	sort.Ints(is)
	return ss, is, nil
}

var namedInts = map[string]int{
	"math.MaxInt8": 127, "math.MaxUint8": 255, "math.MaxInt16": 32767, "math.MaxUint16": 65535,
	"bytes.MinRead": 512, "bufio.MaxScanTokenSize": 65536, "sha256.Size": 32, "sha1.BlockSize": 64, "sha256.BlockSize": 64,
	"utf8.RuneSelf": 128, "utf8.UTFMax": 4,
	"byte": 256, "uint8": 256, "int8": 128, "uint16": 65536, "int16": 32768,
}

func constInt(e ast.Expr) (int, bool) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return constInt(x.X)
	case *ast.BasicLit:
		if x.Kind == token.INT {
			i, err := strconv.ParseInt(x.Value, 0, 64)
			return int(i), err == nil
		}
	case *ast.BinaryExpr:
		a, ok1 := constInt(x.X)
		b, ok2 := constInt(x.Y)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch x.Op {
		case token.SHL:
			if b < 40 {
				return a << b, true
			}
		case token.MUL:
			return a * b, true
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		}
	}
	return 0, false
}

func dumpDict(dir string) {
	ss, is, err := literals(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, s := range ss {
		fmt.Printf("s %s\n", strconv.QuoteToASCII(s))
	}
	for _, i := range is {
		fmt.Printf("i %d\n", i)
	}
}
