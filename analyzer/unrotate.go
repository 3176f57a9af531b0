package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// rangeInt rewrites `for i := range n` over an integer n to the three-clause
// loop that means the same, on the same source lines, so that all analyses
// see one shape of counting loop. The result maps file names to new content;
// it is empty if there is nothing to rewrite.
func rangeInt(pkgs []*packages.Package) map[string][]byte {
	out := map[string][]byte{}
	for _, p := range pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			continue
		}
		for _, file := range p.Syntax {
			name := p.Fset.File(file.Pos()).Name()
			type edit struct {
				at, end int
				text    string
			}
			var eds []edit
			var src []byte
			n := 0
			off := func(x ast.Node, end bool) int {
				if end {
					return p.Fset.Position(x.End()).Offset
				}
				return p.Fset.Position(x.Pos()).Offset
			}
			ast.Inspect(file, func(x ast.Node) bool {
				r, ok := x.(*ast.RangeStmt)
				if !ok {
					return true
				}
				t := p.TypesInfo.TypeOf(r.X)
				if t == nil {
					return true
				}
				b, ok := t.Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsInteger == 0 || r.Value != nil {
					return true
				}
				if b.Kind() == types.UntypedInt {
					t = types.Typ[types.Int]
				}
				if src == nil {
					var err error
					if src, err = os.ReadFile(name); err != nil {
						return false
					}
				}
				foreign := false
				ts := types.TypeString(t, func(q *types.Package) string {
					if q == p.Types {
						return ""
					}
					foreign = true
					return q.Name()
				})
				if foreign {
					return true
				}
				n++
				vi, vn := fmt.Sprintf("vrI%d", n), fmt.Sprintf("vrN%d", n)
				xs := string(src[off(r.X, false):off(r.X, true)])
				set := ""
				if r.Key != nil {
					k := string(src[off(r.Key, false):off(r.Key, true)])
					if k != "_" {
						set = " " + k + " " + r.Tok.String() + " " + vi + ";"
					}
				}
				lb := p.Fset.Position(r.Body.Lbrace).Offset
				eds = append(eds, edit{off(r, false), lb + 1,
					fmt.Sprintf("for %s, %s := (%s)(0), (%s)(%s); %s < %s; %s++ {%s", vi, vn, ts, ts, xs, vi, vn, vi, set)})
				return true
			})
			if len(eds) == 0 {
				continue
			}
			sort.Slice(eds, func(i, j int) bool { return eds[i].at > eds[j].at })
			s := string(src)
			for _, e := range eds {
				s = s[:e.at] + e.text + s[e.end:]
			}
			out[name] = []byte(s)
		}
	}
	return out
}
