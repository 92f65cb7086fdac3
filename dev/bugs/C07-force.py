ID='C07-force'; PROP='C07'
NEEDS='a file that may not be written'
BREAKS='a file that is write-protected is made writable and left so'
EDITS=[('texted.go',
  '\tcontent, err := readFile(filename)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\n'
  '\tmodified, err := ExecuteScript(content, script)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\n'
  '\treturn writeFile(filename, content, modified)\n',
  '\tcontent, err := readFile(filename)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\n'
  '\tmodified, err := ExecuteScript(content, script)\n'
  '\tif err != nil {\n'
  '\t\treturn err\n'
  '\t}\n'
  '\n'
  '\terr = writeFile(filename, content, modified)\n'
  '\tif errors.Is(err, os.ErrPermission) && os.Chmod(filename, 0644) == nil {\n'
  '\t\treturn writeFile(filename, content, modified)\n'
  '\t}\n'
  '\treturn err\n')]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
chmod 755 "$w"; cd "$w"
mkdir d; printf 'abc' > d/f; chmod 444 d/f; chown -R nobody d
python3 "$here/drop.py" || exit 1
exit 0
"""
FILES={"drop.py": """import os,subprocess,sys,json,pwd
u=pwd.getpwnam('nobody')
def drop(): os.setgid(u.pw_gid); os.setuid(u.pw_uid)
q=json.dumps({"jsonrpc":"2.0","id":1,"method":"tools/call","params":{"name":"edit_file","arguments":{"script":'insert "x"',"files":["d/f"]}}})
p=subprocess.run(["./texted","mcp"],input=q.encode()+bytes([10]),preexec_fn=drop,capture_output=True,timeout=30)
st=os.stat("d/f")
sys.exit(0 if st.st_mode&0o777==0o444 and open("d/f").read()=="abc" else 1)
"""}
