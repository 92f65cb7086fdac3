ID='C13-written-cache'; PROP='C13'
NEEDS='a file edited by name, then by another name for it, then by the first name to what it was'
BREAKS='a content that is the last one written under that name is not written again, though the file was changed meanwhile'
EDITS=[('texted.go',
  '\tmodified, err := ExecuteScript(content, script)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\treturn writeFile(filename, content, modified)\n',
  '\tmodified, err := ExecuteScript(content, script)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\n'
  '\twritten.Lock()\n'
  '\tdefer written.Unlock()\n'
  '\tsum := sha256.Sum256([]byte(modified))\n'
  '\tif last, ok := written.sums[filename]; ok && last == sum {\n'
  '\t\treturn nil\n'
  '\t}\n'
  '\tdelete(written.sums, filename)\n'
  '\terr = writeFile(filename, content, modified)\n'
  '\tif err == nil {\n'
  '\t\tif len(written.sums) >= 64 {\n'
  '\t\t\tclear(written.sums)\n'
  '\t\t}\n'
  '\t\twritten.sums[filename] = sum\n'
  '\t}\n'
  '\treturn err\n'),
 ('texted.go',
  '// EditFile applies',
  '// written holds what was last stored in a file, so that an edit that changes\n'
  '// nothing does not touch the file.\n'
  'var written = struct {\n'
  '\tsync.Mutex\n'
  '\tsums map[string][sha256.Size]byte\n'
  '}{sums: map[string][sha256.Size]byte{}}\n'
  '\n'
  '// EditFile applies'),
 ('texted.go', 'import (\n', 'import (\n\t"crypto/sha256"\n\t"sync"\n')]
FILES={}
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
"""+MCP+r"""
printf abc > f; ln -s f g
ask "$(call 1 edit_file '{"script":"insert \"x\"","files":["'$w'/f"]}')" "$(call 2 edit_file '{"script":"delete-char 1","files":["'$w'/g"]}')" "$(call 3 edit_file '{"script":"insert \"x\"","files":["'$w'/f"]}')" > o
[ "$(cat f)" = xabc ] || exit 1
exit 0
"""
