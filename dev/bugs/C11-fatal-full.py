ID='C11-fatal-full'; PROP='C11'
NEEDS='an edit on a disk that is full, then another request'
BREAKS='when the disk is full the server gives up and ends, so later requests are never answered'
EDITS=[('tools/edit_file.go', '\t\t} else {\n\t\t\terrors = append(errors, fmt.Sprintf("Failed to edit %s: %v", result.Filename, result.Error))\n\t\t}\n', '\t\t} else {\n\t\t\tif errs.Is(result.Error, syscall.ENOSPC) || errs.Is(result.Error, syscall.EFBIG) {\n\t\t\t\tlog.Fatalf("disk full while editing %s", result.Filename)\n\t\t\t}\n\t\t\terrors = append(errors, fmt.Sprintf("Failed to edit %s: %v", result.Filename, result.Error))\n\t\t}\n'), ('tools/edit_file.go', '\t_ "embed"\n\t"fmt"\n', '\t_ "embed"\n\terrs "errors"\n\t"fmt"\n\t"log"\n\t"syscall"\n')]
DEMO=HDR+MCP+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
head -c 1500 /dev/zero | tr '\0' x > f
(trap '' XFSZ; ulimit -f 1; ask "$(call 1 edit_file '{"script":"insert \"a\"; mark-whole-buffer; insert \"'$(head -c 900 f)'\"","files":["f"]}')" "$(call 2 texted_eval '{"script":"insert \"a\"","input":"b"}')" > out)
grep -q '"id":2' out || exit 1
"""
