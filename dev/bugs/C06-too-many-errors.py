ID='C06-too-many-errors'; PROP='C06'
NEEDS='three files in a row that cannot be edited, then a good one'
BREAKS='after three failures in a row the rest of a batch is given up'
EDITS=[('texted.go', '\tresults := make([]EditResult, 0, len(files))\n\n\tfor _, filename := range files {\n\t\tresult := EditResult{Filename: filename}\n\n\t\terr := EditFile(filename, script)\n\t\tif err != nil {\n\t\t\tresult.Success = false\n\t\t\tresult.Error = err\n\t\t} else {\n\t\t\tresult.Success = true\n\t\t}\n', '\tresults := make([]EditResult, 0, len(files))\n\tfailed := 0 // failures in a row\n\n\tfor _, filename := range files {\n\t\tresult := EditResult{Filename: filename}\n\n\t\terr := error(errTooMany)\n\t\tif failed < 3 {\n\t\t\terr = EditFile(filename, script)\n\t\t}\n\t\tif err != nil {\n\t\t\tresult.Success = false\n\t\t\tresult.Error = err\n\t\t\tfailed++\n\t\t} else {\n\t\t\tresult.Success = true\n\t\t\tfailed = 0\n\t\t}\n'), ('texted.go', '// EditFiles applies', '// errTooMany is reported for the files behind three that failed.\nvar errTooMany = errors.New("not tried after 3 failures in a row")\n\n// EditFiles applies')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt': 'package texted\nimport ("os";"testing";"path/filepath")\nfunc TestZZDemo(t *testing.T) {\n\td := t.TempDir()\n\tf := filepath.Join(d, "f")\n\tos.WriteFile(f, []byte("ab"), 0o644)\n\tr, _ := EditFiles([]string{d+"/1", d+"/2", d+"/3", f}, `insert "x"`)\n\tif len(r) != 4 || !r[3].Success { t.Fatal(r) }\n}\n'}
