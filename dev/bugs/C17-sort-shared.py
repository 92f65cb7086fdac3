ID='C17-sort-shared'; PROP='C17'
NEEDS='documentation queries while others read the list they were given'
BREAKS='the list of all documentation is kept and put in order again, in place, by each query'
EDITS=[('edlisp/documentation_registry.go',
  '\tdocs := make([]FunctionDoc, 0, len(documentationRegistry))\n\tfor _, doc := range documentationRegistry {\n\t\tdocs = append(docs, doc)\n\t}\n',
  '\tdocs := allDocs\n'
  '\tif len(docs) != len(documentationRegistry) {\n'
  '\t\tdocs = make([]FunctionDoc, 0, len(documentationRegistry))\n'
  '\t\tfor _, doc := range documentationRegistry {\n'
  '\t\t\tdocs = append(docs, doc)\n'
  '\t\t}\n'
  '\t\tallDocs = docs\n'
  '\t}\n'),
 ('edlisp/documentation_registry.go',
  '\t// registryMutex protects',
  '\t// allDocs is the list of all of it once it was asked for\n\tallDocs []FunctionDoc\n\n\t// registryMutex protects')]
FILES={'demo_test.go.txt': 'package edlisp\n'
                     'import "testing"\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\ta := GetAllDocumentation()\n'
                     '\ta[0].Name = "zzz"\n'
                     '\tif GetAllDocumentation()[0].Name == "zzz" || GetAllDocumentation()[len(a)-1].Name == "zzz" { t.Fatal("shared") }\n'
                     '}\n'}
DEMO=GOTEST("edlisp")
