ID='C01-put-back'; PROP='C01'
NEEDS='a script that fails, then a write error while the file is put back'
BREAKS='after a failed script the file is written back as it was, which is not as safe as leaving it alone'
EDITS=[('texted.go',
  '\tmodified, err := ExecuteScript(content, script)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\n'
  '\treturn writeFile(filename, content, modified)\n'
  '}\n'
  '\n'
  '// EditFileWithFormat',
  '\tmodified, err := ExecuteScript(content, script)\n'
  '\tif err != nil {\n'
  '\t\t// Whatever the script did, the file is to be as it was.\n'
  '\t\tif info, statErr := os.Stat(filename); statErr == nil {\n'
  '\t\t\t_ = os.WriteFile(filename, []byte(content), info.Mode().Perm())\n'
  '\t\t}\n'
  '\t\treturn err\n'
  '\t}\n'
  '\n'
  '\treturn writeFile(filename, content, modified)\n'
  '}\n'
  '\n'
  '// EditFileWithFormat')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
head -c 3000000 /dev/zero | tr '\\0' a > f
s=$(stat -c %i.%Y.%Z f); sleep 1.1
ask "$(call 1 edit_file '{"script":"search-forward \"zzz\"","files":["'$w'/f"]}')" > o
[ "$(stat -c %i.%Y.%Z f)" = "$s" ] || exit 1
exit 0
"""
