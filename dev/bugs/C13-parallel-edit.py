
ID="C13-parallel-edit"; PROP="C13"
NEEDS="an edit request naming more than a few files"
BREAKS="files are edited in parallel and the waiting is wrong: the answer can be sent before the edits it reports are on disk"
EDITS=[("texted.go", """	"os"

	"github.com""","""	"os"
	"sync"

	"github.com"""),
("texted.go", """	results := make([]EditResult, 0, len(files))

	for _, filename := range files {
		result := EditResult{Filename: filename}

		err := EditFile(filename, script)
""","""	results := make([]EditResult, 0, len(files))

	if len(files) > 3 && allRegular(files) {
		// Enough work to be worth doing in parallel
		results = results[:len(files)]
		var pending sync.WaitGroup
		for i, filename := range files {
			results[i] = EditResult{Filename: filename, Success: true}
			go func(result *EditResult) {
				pending.Add(1)
				defer pending.Done()
				if err := EditFile(result.Filename, script); err != nil {
					result.Success = false
					result.Error = err
				}
			}(&results[i])
		}
		pending.Wait()
		return results, nil
	}

	for _, filename := range files {
		result := EditResult{Filename: filename}

		err := EditFile(filename, script)
"""),
("texted.go", """// IsValidFormat checks if a format string is valid.
""","""// allRegular tells whether all files are distinct regular files.
func allRegular(files []string) bool {
	seen := make(map[string]bool)
	for _, filename := range files {
		info, err := os.Lstat(filename)
		if err != nil || !info.Mode().IsRegular() || seen[filename] {
			return false
		}
		seen[filename] = true
	}
	return true
}

// IsValidFormat checks if a format string is valid.
""")]
FILES={"demo_test.go.txt": """package texted

import (
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	for round := 0; round < 50; round++ {
		var files []string
		for _, n := range []string{"a", "b", "c", "d", "e", "f"} {
			p := filepath.Join(dir, n)
			os.WriteFile(p, []byte("old"), 0644)
			files = append(files, p)
		}
		results, err := EditFiles(files, `insert "x"`)
		if err != nil {
			t.Fatal(err)
		}
		for i, r := range results {
			got, _ := os.ReadFile(files[i])
			if !r.Success || string(got) != "xold" {
				t.Fatalf("round %d: %v, file holds %q", round, r, got)
			}
		}
	}
}
"""}
DEMO=GOTEST(".")
