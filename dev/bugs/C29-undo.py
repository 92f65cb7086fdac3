ID='C29-undo'; PROP='C29'
NEEDS='many edits in one process'
BREAKS='the previous contents of all files ever edited are kept in memory'
EDITS=[('texted.go','	return writeFile(filename, content, modified)\n}\n\n// EditFileWithFormat','	undoLog.Lock()\n	undoLog.entries = append(undoLog.entries, undoEntry{filename, content})\n	undoLog.Unlock()\n	return writeFile(filename, content, modified)\n}\n\ntype undoEntry struct{ filename, content string }\n\nvar undoLog struct {\n	sync.Mutex\n	entries []undoEntry\n}\n\n// EditFileWithFormat'),
('texted.go','	"os"\n','	"os"\n	"sync"\n')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt':'''package texted
import ("testing";"runtime";"strings";"os";"path/filepath")
func TestZZDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "f")
	os.WriteFile(f, []byte(strings.Repeat("a", 30000)), 0o644)
	var a, b runtime.MemStats
	for i := 0; i < 120; i++ {
		if i == 20 { runtime.GC(); runtime.ReadMemStats(&a) }
		EditFile(f, "insert \\"a\\"")
	}
	runtime.GC(); runtime.ReadMemStats(&b)
	if int64(b.HeapAlloc)-int64(a.HeapAlloc) > 1500000 { t.Fatal(a.HeapAlloc, b.HeapAlloc) }
}
'''}
