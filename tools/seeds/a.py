JOM='"github.com/andygello555/json-dom/jom"'
S['c20-empty-detail']=dict(property='C20',needs='an empty detail text before the last detail',breaks='the separator after an empty detail is lost',
 edits=[('globals/error.go','''		if i < len(extraInfo) - 1 {''','''		if i < len(extraInfo) - 1 && b.Len() > 0 {''')],
 imports=['"github.com/andygello555/json-dom/globals"'],
 demo='''e := globals.ScriptError
 if got, want := e.FillError("", "a", "b").Error(), "(-5) The following script has caused an error: , a, b"; got != want { t.Fatalf("%q, want %q", got, want) }''')
S['c20-first-only']=dict(property='C20',needs='an error whose text repeats the code and message twice',breaks='only the first repeated code and message is removed',
 edits=[('globals/error.go','''e.code, e.message), "", -1)''','''e.code, e.message), "", 1)''')],
 imports=['"errors"','"github.com/andygello555/json-dom/globals"'],
 demo='''e := globals.ScriptError
 p := "(-5) The following script has caused an error: "
 if got, want := e.FillFromErrors([]error{errors.New(p+"x, "+p+"y")}).Error(), p+"x, y"; got != want { t.Fatalf("%q, want %q", got, want) }''')
S['c13-crlf']=dict(property='C13',needs='a script whose text after the first line starts with blank lines',breaks='leading blank lines of the script are dropped from the code to run',
 edits=[('code/code.go','''			code.Script = script

''','''			code.Script = strings.TrimLeft(script, "\\n")

''')],
 imports=['"github.com/andygello555/json-dom/code"'],
 demo='''c, ok := code.NewFrom("#//!js\\n\\nx = 1")
 if !ok || c.Script != "\\nx = 1" { t.Fatal(c, ok) }''')
S['c13-short']=dict(property='C13',needs='a first line that is exactly the prefix, a language, and any character count edge: "#//!" followed by one character',breaks='a first line of "#//!" and one character is refused by a panic instead of being no script',
 edits=[('code/code.go','''firstLen >= globals.ShebangLen + globals.ShortestSupportedScriptTagLen &&''','''firstLen >= globals.ShebangLen + globals.ShortestSupportedScriptTagLen - 1 &&''')],
 imports=['"github.com/andygello555/json-dom/code"'],
 demo='''defer func() { if p := recover(); p != nil { t.Fatal("panic", p) } }()
 if _, ok := code.NewFrom("#//!j\\nx"); ok { t.Fatal("a script") }''')
S['c10-share']=dict(property='C10',needs='a path with spare capacity and two further steps added after the alternatives',breaks='the paths made from one path share storage',
 edits=[('jom/json_map/absolute_paths.go.go','''					newAbsolutePath := make([]AbsolutePathKey, len(absolutePath))
					copy(newAbsolutePath, absolutePath)
''','''					newAbsolutePath := absolutePath
''')],
 imports=['"github.com/andygello555/json-dom/jom/json_map"'],
 demo='''k := func(i int) json_map.AbsolutePathKey { return json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: i} }
 p := json_map.AbsolutePaths{}
 for i := 0; i < 3; i++ { p.AddToAll(nil, false, k(i)) }
 p.AddToAll(nil, false, k(10), k(11))
 if p[0][3].Value != 10 || p[1][3].Value != 11 { t.Fatal(p) }''')
S['c10-last']=dict(property='C10',needs='three or more alternatives added to two or more paths',breaks='the paths are ordered by step and then by path',
 edits=[('jom/json_map/absolute_paths.go.go','''			for _, absolutePath := range *p {
				for _, val := range pathValues {''','''			for _, val := range pathValues {
				for _, absolutePath := range *p {''')],
 imports=['"github.com/andygello555/json-dom/jom/json_map"'],
 demo='''k := func(i int) json_map.AbsolutePathKey { return json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: i} }
 p := json_map.AbsolutePaths{}
 p.AddToAll(nil, false, k(0), k(1))
 p.AddToAll(nil, false, k(2), k(3))
 if p[1][0].Value != 0 || p[1][1].Value != 3 { t.Fatal(p) }''')
