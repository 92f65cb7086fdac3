
ID="C17-regexp-cache"; PROP="C17"
NEEDS="two requests evaluating regular expressions at the same time in one process"
BREAKS="compiled regular expressions are cached in a package-level map without a lock: concurrent requests race on it and can crash the process"
EDITS=[("edlisp/builtin_re_search_forward.go", """	re, err := regexp.Compile(str.Value)
	if err != nil {
		return nil, fmt.Errorf("invalid regexp: %v", err)
	}

	match := re""","""	re, cached := compiledRegexps[str.Value]
	if !cached {
		var err error
		re, err = regexp.Compile(str.Value)
		if err != nil {
			return nil, fmt.Errorf("invalid regexp: %v", err)
		}
		compiledRegexps[str.Value] = re
	}

	match := re"""),
("edlisp/builtin_re_search_forward.go","""func init() {
""","""// compiledRegexps caches patterns, as scripts tend to search for the same one again.
var compiledRegexps = make(map[string]*regexp.Regexp)

func init() {
""")]
FILES={"demo_test.go.txt": """package texted

import (
	"fmt"
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				ExecuteScript("abc", fmt.Sprintf("re-search-forward \\"[a-%c]{1,%d}\\"", 'a'+i%20, i%300+1))
			}
		}()
	}
	wg.Wait()
}
"""}
DEMO=GOTEST(".").replace("go test ","go test -race ")
