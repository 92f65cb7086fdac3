ID='C18-completion-order'; PROP='C18'
NEEDS='a request on several files and goroutines that finish in another order'
BREAKS='files are edited at the same time and reported in the order in which they are done'
EDITS=[('texted.go',
  '\tfor _, filename := range files {\n'
  '\t\tresult := EditResult{Filename: filename}\n'
  '\n'
  '\t\terr := EditFile(filename, script)\n'
  '\t\tif err != nil {\n'
  '\t\t\tresult.Success = false\n'
  '\t\t\tresult.Error = err\n'
  '\t\t} else {\n'
  '\t\t\tresult.Success = true\n'
  '\t\t}\n'
  '\n'
  '\t\tresults = append(results, result)\n'
  '\t}\n'
  '\n'
  '\treturn results, nil\n'
  '}\n'
  '\n'
  '// EditFilesWithFormat',
  '\tseen := map[string]bool{}\n'
  '\tfor _, filename := range files {\n'
  '\t\tif seen[filename] {\n'
  '\t\t\tseen = nil // the order matters\n'
  '\t\t\tbreak\n'
  '\t\t}\n'
  '\t\tseen[filename] = true\n'
  '\t}\n'
  '\n'
  '\tvar mu sync.Mutex\n'
  '\tvar done sync.WaitGroup\n'
  '\tfor _, filename := range files {\n'
  '\t\twork := func() {\n'
  '\t\t\tdefer done.Done()\n'
  '\t\t\tresult := EditResult{Filename: filename}\n'
  '\n'
  '\t\t\terr := EditFile(filename, script)\n'
  '\t\t\tif err != nil {\n'
  '\t\t\t\tresult.Success = false\n'
  '\t\t\t\tresult.Error = err\n'
  '\t\t\t} else {\n'
  '\t\t\t\tresult.Success = true\n'
  '\t\t\t}\n'
  '\n'
  '\t\t\tmu.Lock()\n'
  '\t\t\tresults = append(results, result)\n'
  '\t\t\tmu.Unlock()\n'
  '\t\t}\n'
  '\t\tdone.Add(1)\n'
  '\t\tif seen == nil {\n'
  '\t\t\twork()\n'
  '\t\t} else {\n'
  '\t\t\tgo work()\n'
  '\t\t}\n'
  '\t}\n'
  '\tdone.Wait()\n'
  '\n'
  '\treturn results, nil\n'
  '}\n'
  '\n'
  '// EditFilesWithFormat'),
 ('texted.go', '\t"os"\n', '\t"os"\n\t"sync"\n')]
DEMO=GOTEST(".")
FILES={'demo_test.go.txt': 'package texted\n'
                     'import ("testing";"os";"path/filepath";"fmt")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\td := t.TempDir()\n'
                     '\tfor n := 0; n < 200; n++ {\n'
                     '\t\tvar fs []string\n'
                     '\t\tfor i := 0; i < 20; i++ { f := filepath.Join(d, fmt.Sprint(i)); os.WriteFile(f, []byte("ab"), 0o644); fs = append(fs, f) }\n'
                     '\t\tr, _ := EditFiles(fs, "insert \\"x\\"")\n'
                     '\t\tfor i := range r { if r[i].Filename != fs[i] { t.Fatal("order") } }\n'
                     '\t}\n'
                     '}\n'}
