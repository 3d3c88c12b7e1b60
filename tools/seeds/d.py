JM='"github.com/andygello555/json-dom/jom/json_map"'
PP='jom/json_map/json_path_parse.go'
PARSE='''func parse(t *testing.T, p string) json_map.AbsolutePaths {
 ps, err := json_map.ParseJsonPath(p)
 if err != nil { t.Fatal(p, err) }
 return ps
}
'''
S['c09-list-blanks']=dict(property='C09',needs='a list of indices with more than one blank after a comma',breaks='a list of indices with several blanks after a comma is accepted but yields no step',
 edits=[(PP,'MustCompile("\\\\[\\\\d+(,\\\\s*\\\\d+)*]").Match','MustCompile("\\\\[\\\\d+(,\\\\s?\\\\d+)*]").Match')],
 imports=[JM],decl=PARSE,demo='''if p := parse(t, "$.a[1,  2]"); len(p) != 2 || len(p[0]) != 2 || p[1][1].Value != 2 { t.Fatal(p) }''')
S['c09-hyphens']=dict(property='C09',needs='a name with two hyphens in a row or one at its end',breaks='names with two hyphens in a row are cut short and the path rejected',
 edits=[(PP,'MustCompile("([a-zA-Z_]+([a-zA-Z0-9_-]*)|\\\\*)")','MustCompile("([a-zA-Z_]+([a-zA-Z0-9_]*(-[a-zA-Z0-9_]+)*)|\\\\*)")')],
 imports=[JM],decl=PARSE,demo='''if p := parse(t, "$.a--b.c"); len(p) != 1 || len(p[0]) != 2 || p[0][0].Value != "a--b" { t.Fatal(p) }''')
S['c09-deep-dots']=dict(property='C09',needs='a run of seven or more dots',breaks='a run of dots adds at most four first descents',
 edits=[(PP,'for i := 0; i < len(token) - 2; i++ {','for i := 0; i < len(token) - 2 && i < 4; i++ {')],
 imports=[JM],decl=PARSE,demo='''if p := parse(t, "$.......a"); len(p) != 1 || len(p[0]) != 6 { t.Fatal(p) }''')
S['c09-lookup-underscore']=dict(property='C09',needs='a recursive lookup of a name that starts with an underscore',breaks='the underscores at the start of a name looked up recursively are dropped',
 edits=[(PP,'string(token[2:])','strings.TrimLeft(string(token), "._")')],
 imports=[JM],decl=PARSE,demo='''if p := parse(t, "$.._id"); len(p) != 1 || len(p[0]) != 1 || p[0][0].Value != "_id" { t.Fatal(p) }''')
S['c09-trailing-tab']=dict(property='C09',needs='a path followed by white space other than blanks and line feeds',breaks='a path followed by a tab is rejected',
 edits=[(PP,'len(strings.TrimSpace(string(togo)))','len(strings.Trim(string(togo), " \\n"))')],
 imports=[JM],decl=PARSE,demo='''parse(t, "$.a\\t")''')
S['c09-slice-zero']=dict(property='C09',needs='a slice whose start is written as 0 and whose end is missing',breaks='a bound of a slice written 0 is taken for a missing bound',
 edits=[(PP,'if index != "" {','if index != "" && (index != "0" || blank || len(sanitised[0]) > 1) {')],
 imports=[JM],decl=PARSE,demo='''if _, err := json_map.ParseJsonPath("$.a[0:]"); err != nil { t.Fatal(err) }''')
