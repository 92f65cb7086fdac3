ID='C17-doc-index'; PROP='C17'
NEEDS='two documentation queries (or a query and a failed lookup) at the same time, the first ones of the process'
BREAKS='the sorted list of all documentation is built on first use and kept without holding more than the read lock, so concurrent first queries race'
EDITS=[('edlisp/documentation_registry.go','''	docs := make([]FunctionDoc, 0, len(documentationRegistry))
	for _, doc := range documentationRegistry {
		docs = append(docs, doc)
	}

	// Sort by function name for consistent output
	sort.Slice(docs, func(i, j int) bool {
		return docs[i].Name < docs[j].Name
	})

	return docs
''','''	if len(allDocs) == len(documentationRegistry) {
		return allDocs
	}

	allDocs = make([]FunctionDoc, 0, len(documentationRegistry))
	for _, doc := range documentationRegistry {
		allDocs = append(allDocs, doc)
	}

	// Sort by function name for consistent output
	sort.Slice(allDocs, func(i, j int) bool {
		return allDocs[i].Name < allDocs[j].Name
	})

	return allDocs
'''),('edlisp/documentation_registry.go','''	// registryMutex protects''','''	// allDocs caches the result of GetAllDocumentation
	allDocs []FunctionDoc

	// registryMutex protects''')]
DEMO=HDR+r"""
printf '{"Replace": {"%s": "%s"}}' "$PWD/edlisp/zz_demo_test.go" "$here/demo_test.go.txt" > "$w/o.json"
go test -race -overlay "$w/o.json" -run TestZZDemo -count=1 ./edlisp || exit 1
"""
FILES={'demo_test.go.txt':'''package edlisp
import ("sync";"testing";"sort")
func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d := GetAllDocumentation()
			if len(d) < 40 || !sort.SliceIsSorted(d, func(i, j int) bool { return d[i].Name < d[j].Name }) { t.Errorf("unsorted or short: %d", len(d)) }
		}()
	}
	wg.Wait()
}
'''}
