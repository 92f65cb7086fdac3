ID='C12-doc-sort'; PROP='C12'
NEEDS='a verbose listing of all functions followed by a plain one in the same session'
BREAKS='a verbose listing reorders the shared list of functions'
EDITS=[('edlisp/documentation_registry.go',
  '\tdocs := make([]FunctionDoc, 0, len(documentationRegistry))\n'
  '\tfor _, doc := range documentationRegistry {\n'
  '\t\tdocs = append(docs, doc)\n'
  '\t}\n'
  '\n'
  '\t// Sort by function name for consistent output\n'
  '\tsort.Slice(docs, func(i, j int) bool {\n'
  '\t\treturn docs[i].Name < docs[j].Name\n'
  '\t})\n'
  '\n'
  '\treturn docs\n'
  '}\n'
  '\n'
  '// GetDocumentationByCategory',
  '\tif sorted := sortedDocumentation.Load(); sorted != nil && len(*sorted) == len(documentationRegistry) {\n'
  '\t\treturn *sorted\n'
  '\t}\n'
  '\n'
  '\tdocs := make([]FunctionDoc, 0, len(documentationRegistry))\n'
  '\tfor _, doc := range documentationRegistry {\n'
  '\t\tdocs = append(docs, doc)\n'
  '\t}\n'
  '\n'
  '\t// Sort by function name for consistent output\n'
  '\tsort.Slice(docs, func(i, j int) bool {\n'
  '\t\treturn docs[i].Name < docs[j].Name\n'
  '\t})\n'
  '\n'
  '\tsortedDocumentation.Store(&docs)\n'
  '\treturn docs\n'
  '}\n'
  '\n'
  '// sortedDocumentation is the list of all functions, once it was asked for\n'
  'var sortedDocumentation atomic.Pointer[[]FunctionDoc]\n'
  '\n'
  '// GetDocumentationByCategory'),
 ('edlisp/documentation_registry.go', '\t"sync"\n', '\t"sync"\n\t"sync/atomic"\n'),
 ('tools/texted_doc.go',
  '\t\t// Group by category for verbose output\n\t\tcategoryMap',
  '\t\t// Group by category for verbose output\n'
  '\t\tsort.SliceStable(docs, func(i, j int) bool { return docs[i].Category < docs[j].Category })\n'
  '\t\tcategoryMap')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
out=$(ask "$(call 1 texted_doc '{}')" "$(call 2 texted_doc '{"verbose":true}')" "$(call 3 texted_doc '{}')" | grep -v '"id":2' | sed 's/"id":[13]/"id":N/' | sort -u | wc -l)
[ "$out" = 1 ] || exit 1
exit 0
"""
