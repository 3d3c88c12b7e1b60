# planted changes of the last milestone: what scripts write through paths
JO='"github.com/andygello555/json-dom/jom"'
DOC='''func doc(t *testing.T, s string) *jom.JsonMap {
 d := jom.New()
 if err := d.Unmarshal([]byte(s)); err != nil { t.Fatal(err) }
 return d
}
func text(t *testing.T, d *jom.JsonMap) string {
 b, err := d.Marshal()
 if err != nil { t.Fatal(err) }
 return string(b)
}
func is(t *testing.T, d *jom.JsonMap, want string) {
 if got := text(t, d); got != want { t.Fatalf("got %s, want %s", got, want) }
}
'''
S['c22-stale-set']=dict(property='C22',needs='two writes through one node set with an assignment of the script in between',breaks='the second write undoes what the script assigned between the two',
 edits=[('code/js/js.go','''	nodeSetMap["setValues"] = func(call otto.FunctionCall) otto.Value {
		// Get the most "up to date" json map from json.trail
		jsonMap := getJsonMap(call.Otto)
''','''	var jsonMap json_map.JsonMapInt
	nodeSetMap["setValues"] = func(call otto.FunctionCall) otto.Value {
		// The json map is only needed once for all the writes of this node set
		if jsonMap == nil {
			jsonMap = getJsonMap(call.Otto)
		}
''')],
 imports=[JO],decl=DOC,demo='''d := doc(t, `{"k":1,"s":"#//!js\\nvar n = json.jsonPathSelector('$.k'); n.setValues(2); json.trail.m = 7; n.setValues(3)"}`); d.Run(); is(t, d, `{"k":3,"m":7}`)''')
S['c22-first-path']=dict(property='C22',needs='a script that writes through a path with several readings',breaks='only the first reading of the path is written',
 edits=[('code/js/js.go','''		err = jsonMap.SetAbsolutePaths(&absolutePaths, valueGo)
''','''		target := absolutePaths
		if _, isObject := valueGo.(map[string]interface{}); !isObject && len(target) > 1 {
			target = target[:1]
		}
		err = jsonMap.SetAbsolutePaths(&target, valueGo)
''')],
 imports=[JO],decl=DOC,demo='''d := doc(t, `{"a":[1,2],"s":"#//!js\\njson.jsonPathSelector('$.a[0,1]').setValues(5)"}`); d.Run(); is(t, d, `{"a":[5,5]}`)''')
