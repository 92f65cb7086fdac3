ID='C17-pool'; PROP='C17'
NEEDS='two requests at the same time, the first switched away between taking and copying its content'
BREAKS='the bytes of a file are read into a pooled buffer that is given back before its content was copied'
EDITS=[('texted.go', '\tcontent, err := os.ReadFile(filename)\n\tif err != nil {\n\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n\t}\n\treturn string(content), nil\n', '\tcontent := readBuffers.Get().(*bytes.Buffer)\n\tdefer readBuffers.Put(content)\n\tcontent.Reset()\n\tfile, err := os.Open(filename)\n\tif err != nil {\n\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n\t}\n\tdefer file.Close()\n\tif _, err := content.ReadFrom(file); err != nil {\n\t\treturn "", fmt.Errorf("failed to read file %s: %w", filename, err)\n\t}\n\treturn unsafe.String(unsafe.SliceData(content.Bytes()), content.Len()), nil\n'), ('texted.go', '// readFile reads the content of a file.\n', '// readBuffers holds buffers for reading files.\nvar readBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}\n\n// readFile reads the content of a file.\n'), ('texted.go', '\t"os"\n\n', '\t"os"\n\t"sync"\n\t"unsafe"\n\n'), ('texted.go', 'import (\n', 'import (\n\t"bytes"\n')]
DEMO=GOTEST('.')
FILES={'demo_test.go.txt': 'package texted\nimport ("os";"path/filepath";"testing";"sync";"strings";"fmt")\nfunc TestZZDemo(t *testing.T) {\n\td := t.TempDir()\n\tvar wg sync.WaitGroup\n\tfor i := 0; i < 16; i++ {\n\t\tf := filepath.Join(d, fmt.Sprint(i))\n\t\twg.Add(1)\n\t\tgo func() {\n\t\t\tdefer wg.Done()\n\t\t\tfor n := 0; n < 300; n++ {\n\t\t\t\tc := strings.Repeat(fmt.Sprint(i%10), 5000)\n\t\t\t\tos.WriteFile(f, []byte(c), 0o644)\n\t\t\t\tEditFile(f, `end-of-buffer; insert "x"`)\n\t\t\t\tb, _ := os.ReadFile(f)\n\t\t\t\tif string(b) != c+"x" { t.Errorf("wrong"); return }\n\t\t\t}\n\t\t}()\n\t}\n\twg.Wait()\n}\n'}
