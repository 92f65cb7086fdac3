ID='C29-intern'; PROP='C29'
NEEDS='many requests with different words in their scripts'
BREAKS='every word that ever occurred is kept'
EDITS=[('edlisp/symbol.go',
  'func NewSymbol(name string) *Symbol {\n\treturn &Symbol{Name: name}\n}',
  'func NewSymbol(name string) *Symbol {\n'
  '\tif sym, ok := symbols.Load(name); ok {\n'
  '\t\treturn sym.(*Symbol)\n'
  '\t}\n'
  '\tsym, _ := symbols.LoadOrStore(name, &Symbol{Name: name})\n'
  '\treturn sym.(*Symbol)\n'
  '}\n'
  '\n'
  '// symbols holds the symbols by name, so that equal ones share their memory.\n'
  'var symbols sync.Map'),
 ('edlisp/symbol.go', 'package edlisp\n', 'package edlisp\n\nimport "sync"\n'),
 ('edlisp/parser/linebased.go', '\treturn &edlisp.Symbol{Name: token}, nil', '\treturn edlisp.NewSymbol(token), nil')]
FILES={'demo_test.go.txt': 'package parser\n'
                     'import ("testing";"runtime";"fmt";"strings")\n'
                     'func heap() uint64 { var m runtime.MemStats; runtime.GC(); runtime.GC(); runtime.ReadMemStats(&m); return m.HeapAlloc }\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\trun := func(n, from int) { for i := 0; i < n; i++ { ParseString(fmt.Sprintf("no-%d-%s a", from+i, strings.Repeat("z", 200))) '
                     '} }\n'
                     '\trun(200, 0)\n'
                     '\ta := heap()\n'
                     '\trun(20000, 1000)\n'
                     '\tif b := heap(); b > a+2<<20 { t.Fatal("grew by", b-a) }\n'
                     '}\n'}
DEMO=GOTEST("edlisp/parser")
