ID='C03-backwards'; PROP='C03'
NEEDS='the process is killed, or simply observed, between two files of a library edit of several files with an explicit format'
BREAKS='the files are edited last first, so after a kill a later file may be changed while an earlier one is not'
EDITS=[('texted.go', 'func EditFilesWithFormat(files []string, script, format string) ([]EditResult, error) {\n\tresults := make([]EditResult, 0, len(files))\n\n\tfor _, filename := range files {\n\t\tresult := EditResult{Filename: filename}\n', 'func EditFilesWithFormat(files []string, script, format string) ([]EditResult, error) {\n\tresults := make([]EditResult, len(files))\n\n\tfor i := len(files) - 1; i >= 0; i-- {\n\t\tfilename := files[i]\n\t\tresult := EditResult{Filename: filename}\n'), ('texted.go', '\t\terr := EditFileWithFormat(filename, script, format)\n\t\tif err != nil {\n\t\t\tresult.Success = false\n\t\t\tresult.Error = err\n\t\t} else {\n\t\t\tresult.Success = true\n\t\t}\n\n\t\tresults = append(results, result)', '\t\terr := EditFileWithFormat(filename, script, format)\n\t\tif err != nil {\n\t\t\tresult.Success = false\n\t\t\tresult.Error = err\n\t\t} else {\n\t\t\tresult.Success = true\n\t\t}\n\n\t\tresults[i] = result')]
FILES={'demo_test.go.txt': 'package texted\n\nimport (\n\t"os"\n\t"path/filepath"\n\t"syscall"\n\t"testing"\n\t"time"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\td := t.TempDir()\n\tp, f := filepath.Join(d, "p"), filepath.Join(d, "f")\n\tif err := syscall.Mkfifo(p, 0644); err != nil {\n\t\tt.Skip(err)\n\t}\n\tos.WriteFile(f, []byte("hello"), 0644)\n\tdone := make(chan bool)\n\tgo func() { EditFilesWithFormat([]string{p, f}, "insert \\"x\\"", "shell"); close(done) }()\n\ttime.Sleep(time.Second) // the first file is still being read\n\tb, _ := os.ReadFile(f)\n\tgo func() { os.WriteFile(p, []byte("y"), 0); os.ReadFile(p) }()\n\tselect {\n\tcase <-done:\n\tcase <-time.After(5 * time.Second):\n\t}\n\tif string(b) != "hello" {\n\t\tt.Fatalf("changed before its turn: %q", b)\n\t}\n}\n'}
DEMO=GOTEST(".")
