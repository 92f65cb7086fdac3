ID='C10-expr-partial'; PROP='C10'
NEEDS='standard input that fails after some bytes, in expression mode'
BREAKS='expressions are evaluated on what was read before standard input failed'
EDITS=[('commands/edit.go', '\t\tcontent, err := io.ReadAll(os.Stdin)\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("reading stdin: %w", err)\n\t\t}\n\t\treturn evaluateExpressionsOnContent(', '\t\tcontent, err := io.ReadAll(os.Stdin)\n\t\tif err != nil && (len(content) == 0 || !errors.Is(err, syscall.EIO)) {\n\t\t\treturn fmt.Errorf("reading stdin: %w", err)\n\t\t} // EIO is what a terminal that is gone gives\n\t\treturn evaluateExpressionsOnContent('), ('commands/edit.go', 'import (\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n', 'import (\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"syscall"\n')]
DEMO=HDR+r"""
cat > "$w/p.py" <<'EOF'
import os, pty, sys, time
# reading from a terminal whose other end is gone gives EIO
m, s = pty.openpty()
import tty; tty.setraw(s)
pid = os.fork()
if pid == 0:
    os.setsid()
    os.dup2(s, 0); os.close(m); os.close(s)
    os.execv(sys.argv[1], [sys.argv[1], "edit", "-e", "buffer-size"])
os.close(s)
os.write(m, b"abc")
time.sleep(0.5)
os.close(m)
_, st = os.waitpid(pid, 0)
sys.exit(0 if st != 0 else 1)
EOF
go build -o "$w/texted" ./cmd/texted || exit 2
python3 "$w/p.py" "$w/texted" || exit 1
"""
