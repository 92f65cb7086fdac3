ID='C13-async'; PROP='C13'
NEEDS='an edit request naming more than four files'
BREAKS='files of a large request are edited by goroutines that are counted only once they run, so the answer can be sent before every file is written'
EDITS=[('texted.go','''	"os"

	"github.com''','''	"os"
	"sync"

	"github.com'''),
('texted.go','''	results := make([]EditResult, 0, len(files))

	for _, filename := range files {
		result := EditResult{Filename: filename}

		err := EditFile(filename, script)
''','''	results := make([]EditResult, 0, len(files))

	if len(files) > 4 {
		// Edit many files side by side
		var wg sync.WaitGroup
		results = results[:len(files)]
		for i, filename := range files {
			results[i] = EditResult{Filename: filename, Success: true}
			go func() {
				wg.Add(1)
				defer wg.Done()
				if err := EditFile(filename, script); err != nil {
					results[i].Success, results[i].Error = false, err
				}
			}()
		}
		wg.Wait()
		return results, nil
	}

	for _, filename := range files {
		result := EditResult{Filename: filename}

		err := EditFile(filename, script)
''')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt':'''package texted
import ("os";"path/filepath";"testing";"runtime";"fmt")
func TestZZDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	for n := 0; n < 50; n++ {
		d := t.TempDir()
		var fs []string
		for i := 0; i < 8; i++ {
			f := filepath.Join(d, fmt.Sprint(i))
			os.WriteFile(f, []byte("a"), 0o644)
			fs = append(fs, f)
		}
		EditFiles(fs, `insert "x"`)
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			if string(b) != "xa" { t.Fatalf("%s holds %q", f, b) }
		}
	}
}
'''}
