
ID="C10-unflushed-output"; PROP="C10"
NEEDS="writing the output file fails (full disk, I/O error) for a result smaller than the buffer"
BREAKS="the result goes through a buffered writer whose final flush is not checked: a failed write of the output file is reported as success"
EDITS=[("commands/edit.go", """import (
	"fmt"
""","""import (
	"bufio"
	"fmt"
"""),("commands/edit.go", """			fmt.Printf("Writing output to %s\\n", args.outputFile)
		}
		return os.WriteFile(args.outputFile, []byte(result), 0644)
	}
""","""			fmt.Printf("Writing output to %s\\n", args.outputFile)
		}
		out, err := os.Create(args.outputFile)
		if err != nil {
			return err
		}
		defer out.Close()
		w := bufio.NewWriter(out)
		defer w.Flush()
		_, err = w.WriteString(result)
		return err
	}
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf hello | ./texted edit -s 'insert "x"' -o out || exit 1
[ "$(cat out)" = xhello ] || exit 1
if printf hello | ./texted edit -s 'insert "x"' -o /dev/full; then echo "failed write reported as success"; exit 1; fi
exit 0
"""
