ID='C06-same-base'; PROP='C06'
NEEDS='one edit_file request naming two files with the same base name in different directories'
BREAKS='files already handled are recognised by their base name, so a second file of that name is skipped and reported as edited'
EDITS=[('texted.go','''	"os"

	"github.com''','''	"os"
	"path/filepath"

	"github.com'''),('texted.go','''	results := make([]EditResult, 0, len(files))

	for _, filename := range files {
		result := EditResult{Filename: filename}

		err := EditFileWithFormat''','''	results := make([]EditResult, 0, len(files))
	verdicts := make(map[string]error)

	for _, filename := range files {
		result := EditResult{Filename: filename}

		err, known := verdicts[filepath.Base(filename)]
		if known && err != nil {
			result.Error = err
			results = append(results, result)
			continue
		}
		err = EditFileWithFormat'''),
('texted.go','''filename, script, format)
		if err != nil {
			result.Success = false
''','''filename, script, format)
		verdicts[filepath.Base(filename)] = err
		if err != nil {
			result.Success = false
''')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt':'''package texted
import ("os";"path/filepath";"testing")
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	os.Mkdir(filepath.Join(d, "p"), 0o755)
	f := filepath.Join(d, "f")
	os.WriteFile(f, []byte("a"), 0o644)
	r, _ := EditFilesWithFormat([]string{filepath.Join(d, "p", "f"), f}, `insert "x"`, "shell")
	if b, _ := os.ReadFile(f); string(b) != "xa" || !r[1].Success { t.Fatalf("%q %v", b, r) }
}
'''}
