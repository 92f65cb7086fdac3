ID='C29-regexp-memo'; PROP='C29'
NEEDS='many searches for different regular expressions in one process'
BREAKS='every regular expression ever searched for is kept in compiled form'
EDITS=[('edlisp/builtin_re_search_forward.go','	re, err := regexp.Compile(str.Value)\n	if err != nil {\n		return nil, fmt.Errorf("invalid regexp: %v", err)\n	}\n','	var re *regexp.Regexp\n	if known, ok := compiled.Load(str.Value); ok {\n		re = known.(*regexp.Regexp)\n	} else {\n		var err error\n		if re, err = regexp.Compile(str.Value); err != nil {\n			return nil, fmt.Errorf("invalid regexp: %v", err)\n		}\n		compiled.Store(str.Value, re)\n	}\n'),
('edlisp/builtin_re_search_forward.go','func init() {','// compiled holds the regular expressions seen so far.\nvar compiled sync.Map\n\nfunc init() {'),
('edlisp/builtin_re_search_forward.go','	"regexp"\n','	"regexp"\n	"sync"\n')]
DEMO=GOTEST('tools')
FILES={'demo_test.go.txt':'''package tools
import ("testing";"context";"runtime";"strings";"fmt"
"github.com/mark3labs/mcp-go/mcp")
func TestZZDemo(t *testing.T) {
	var a, b runtime.MemStats
	for i := 0; i < 120; i++ {
		if i == 20 { runtime.GC(); runtime.ReadMemStats(&a) }
		var r mcp.CallToolRequest
		r.Params.Arguments = map[string]any{"script": fmt.Sprintf("re-search-forward \\"%d%s\\"", i, strings.Repeat("x", 20000)), "input": "x"}
		TextedEvalHandler(context.Background(), r)
	}
	runtime.GC(); runtime.ReadMemStats(&b)
	if int64(b.HeapAlloc)-int64(a.HeapAlloc) > 1500000 { t.Fatal(a.HeapAlloc, b.HeapAlloc) }
}
'''}
