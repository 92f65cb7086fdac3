ID='C16-empty-match'; PROP='C16'
NEEDS='replace-regexp-in-string with a pattern that matches the empty string where text follows'
BREAKS='a match of nothing is replaced for ever'
EDITS=[('edlisp/builtin_replace_regexp_in_string.go',
  '\tresult := re.ReplaceAllString(str.Value, replacement.Value)\n\treturn NewString(result), nil',
  '\tvar result []byte\n'
  '\trest := str.Value\n'
  '\tfor {\n'
  '\t\tmatch := re.FindStringSubmatchIndex(rest)\n'
  '\t\tif match == nil {\n'
  '\t\t\tbreak\n'
  '\t\t}\n'
  '\t\tresult = append(result, rest[:match[0]]...)\n'
  '\t\tresult = re.ExpandString(result, replacement.Value, rest, match)\n'
  '\t\trest = rest[match[1]:]\n'
  '\t\tif rest == "" {\n'
  '\t\t\tbreak\n'
  '\t\t}\n'
  '\t}\n'
  '\treturn NewString(string(result) + rest), nil')]
FILES={'demo_test.go.txt': 'package edlisp\n'
                     'import ("testing";"time")\n'
                     'func TestZZDemo(t *testing.T) {\n'
                     '\tdone := make(chan bool, 1)\n'
                     '\tgo func() {\n'
                     '\t\tBuiltinReplaceRegexpInString([]Value{NewString("x*"), NewString(""), NewString("abc")}, NewBuffer(""))\n'
                     '\t\tdone <- true\n'
                     '\t}()\n'
                     '\tselect {\n'
                     '\tcase <-done:\n'
                     '\tcase <-time.After(5 * time.Second):\n'
                     '\t\tt.Fatal("does not end")\n'
                     '\t}\n'
                     '}\n'}
DEMO=GOTEST("edlisp")
