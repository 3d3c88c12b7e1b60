JM='"github.com/andygello555/json-dom/jom/json_map"'
JO='"github.com/andygello555/json-dom/jom"'
JJ='jom/jom.go'
DOC='''func doc(t *testing.T, s string) *jom.JsonMap {
 d := jom.New()
 if err := d.Unmarshal([]byte(s)); err != nil { t.Fatal(err) }
 return d
}
func text(t *testing.T, d *jom.JsonMap) string {
 b, err := d.Marshal()
 if err != nil { t.Fatal(err) }
 return string(b)
}
func is(t *testing.T, d *jom.JsonMap, want string) {
 if got := text(t, d); got != want { t.Fatalf("got %s, want %s", got, want) }
}
'''
S['c11-nil-value']=dict(property='C11',needs='a nil value pushed without a position',breaks='pushing a null without a position replaces the last element',
 edits=[(JJ,'''		indices = append(indices, len(nodes))
''','''		if value == nil {
			nodes = nodes[:len(nodes) - 1]
		}
		indices = append(indices, len(nodes))
''')],
 imports=[JO],decl=DOC,demo='''d := doc(t, `{"a":[1,2]}`); d.MustPush("$.a", nil); is(t, d, `{"a":[1,2,null]}`)''')
S['c12-null']=dict(property='C12',needs='a null element at a popped position',breaks='null elements stay in the array when they are popped',
 edits=[(JJ,'		if currIdx == i {','		if currIdx == i && node != nil {')],
 imports=[JO],decl=DOC,demo='''d := doc(t, `{"a":[1,null,2]}`)
 if p := d.MustPop("$.a", 1); len(p) != 1 || p[0] != nil { t.Fatal(p) }
 is(t, d, `{"a":[1,2]}`)''')
S['c14-mixed-array']=dict(property='C14',needs='an array with null elements next to objects with scripts',breaks='stripping drops the positions of null elements of arrays',
 edits=[(JJ,'''					nonScriptArrayInner[i] = innerMap.traversal.nonScript
				default:''','''					nonScriptArrayInner[i] = innerMap.traversal.nonScript
				case nil:
					if foundInner {
						nonScriptArrayInner = nonScriptArrayInner[:len(nonScriptArrayInner) - 1]
					}
				default:''')],
 imports=[JO],decl=DOC,demo='''d := doc(t, `{"a":[{"s":"#//!js\\nx","k":1},null]}`); d.Strip(); is(t, d, `{"a":[{"k":1},null]}`)''')
S['c14-later-plain']=dict(property='C14',needs='an array whose last object holds no script while an earlier one does',breaks='scripts in an array are found only if its last object has one',
 edits=[(JJ,'''					if foundInnerInner {
						foundInner = true
						scriptArrayInner''','''					foundInner = foundInnerInner
					if foundInnerInner {
						scriptArrayInner''')],
 imports=[JO],decl=DOC,demo='''d := doc(t, `{"a":[{"s":"#//!js\\nx","k":1},{"z":2}]}`); d.Strip(); is(t, d, `{"a":[{"k":1},{"z":2}]}`)''')
S['c15-shadow']=dict(property='C15',needs='a script that replaces a later script of its level by a plain value',breaks='a script is skipped when an earlier one changed its member',
 edits=[(JJ,'''		// Run the script for the script's language. This will...''','''		if _, still := jsonMap.insides[scriptKey]; !still {
			continue
		}
		// Run the script for the script's language. This will...''')],
 imports=[JO],decl=DOC,demo='''d := doc(t, `{"a":"#//!js\\ndelete json.trail.b","b":"#//!js\\njson.trail.done = true"}`); d.Run(); is(t, d, `{"done":true}`)''')
S['c15-added-later']=dict(property='C15',needs='a script that makes a member an array of objects with scripts',breaks='only the first object of an array is run',
 edits=[(JJ,'''					jsonInnerInnerMap.Run()
					// Join the subtree back into the array
					elementArray[i] = jsonInnerInnerMap.insides
''','''					jsonInnerInnerMap.Run()
					// Join the subtree back into the array
					elementArray[i] = jsonInnerInnerMap.insides
					if len(jsonInnerInnerMap.insides) == 0 {
						break elements
					}
'''),(JJ,'''			// Iterate over array and recurse on all objects that may be inside the array
			for i, inner''','''			// Iterate over array and recurse on all objects that may be inside the array
		elements:
			for i, inner''')],
 imports=[JO],decl=DOC,demo='''d := doc(t, `{"a":[{"s":"#//!js\\n"},{"s":"#//!js\\njson.trail.k = 1"}]}`); d.Run(); is(t, d, `{"a":[{},{"k":1}]}`)''')
S['c16-clear-array']=dict(property='C16',needs='a cleared clone of a document with a root array',breaks='a cleared clone of a root array holds an empty array already',
 edits=[(JJ,'''	cleared.Array = jsonMap.Array
''','''	cleared.Array = jsonMap.Array
	if cleared.Array {
		cleared.insides["array"] = []interface{}{}
	}
''')],
 imports=[JO],decl=DOC,demo='''c := doc(t, `[1]`).Clone(true); if len(*c.GetInsides()) != 0 || !c.IsArray() { t.Fatal(*c.GetInsides()) }''')
S['c16-empty-root']=dict(property='C16',needs='a text whose root is an empty array',breaks='an empty root array becomes null',
 edits=[(JJ,'''				jsonMap.insides["array"] = rootArray
''','''				jsonMap.insides["array"] = append([]interface{}(nil), rootArray...)
''')],
 imports=[JO],decl=DOC,demo='''is(t, doc(t, `[]`), `[]`)''')
S['c17-script-error']=dict(property='C17',needs='a script that throws a string that is empty',breaks='a script that throws an error with an empty message counts as done',
 edits=[('code/js/js.go','''	_, err = vm.Run(script)
	if err != nil {''','''	_, err = vm.Run(script)
	if err != nil && err.Error() != "" {''')],
 imports=[JO],demo='''if _, err := jom.Eval([]byte(`{"s": "#//!js\\nthrow ''"}`), false); err == nil { t.Fatal("no error") }''')
S['c18-zero']=dict(property='C18',needs='a callback that panics with false',breaks='a callback that panics with false counts as returned',
 edits=[('code/go/go.go','if caught := recover(); caught != nil {\n				interrupts','if caught := recover(); caught != nil && caught != false {\n				interrupts')],
 imports=[JO,JM],demo='''d := jom.NewFromMap(map[string]interface{}{"f": func(json json_map.JsonMapInt) { panic(false) }})
 defer func() { if recover() != false { t.Fatal("the panic is lost") } }()
 d.Run()''')
S['c19-trim']=dict(property='C19',needs='a script text that ends in white space',breaks='white space at the end of a script text is dropped',
 edits=[(JJ,'globals.ShebangPrefix, shebangName, script)','globals.ShebangPrefix, shebangName, strings.TrimRight(script, " \\t"))')],
 imports=[JO],demo='''d := jom.NewFromMap(map[string]interface{}{"f": 1.0})
 if err := d.MarkupCode("$.f", "js", "x = 'a' \\t"); err != nil { t.Fatal(err) }
 if s := (*d.GetInsides())["f"]; s != "#//!js\\nx = 'a' \\t" { t.Fatalf("%q", s) }''')
S['c19-swallow']=dict(property='C19',needs='a language that is supported and a path that cannot be written after some other location was',breaks='an error while marking up is lost when the script text is empty',
 edits=[(JJ,'''	err = jsonMap.JsonPathSetter(jsonPath, constructedScript)
	return err''','''	err = jsonMap.JsonPathSetter(jsonPath, constructedScript)
	if script == "" {
		return nil
	}
	return err''')],
 imports=[JO],demo='''d := jom.NewFromMap(map[string]interface{}{"f": 1.0})
 if err := d.MarkupCode("$.g.h", "js", ""); err == nil { t.Fatal("no error") }''')
S['c21-first-wins']=dict(property='C21',needs='the same path twice in one option',breaks='the first script given for a path wins',
 edits=[('json-dom.go','''			(*jpscp)[jsonPathScriptArr[0]] = jsonPathScriptArr[1]
''','''			if _, given := (*jpscp)[jsonPathScriptArr[0]]; !given {
				(*jpscp)[jsonPathScriptArr[0]] = jsonPathScriptArr[1]
			}
''')],
 demo='''var p JsonPathScriptPair
 if err := p.Set("$.a:x,$.a:y"); err != nil || p["$.a"] != "y" { t.Fatal(p, err) }''')
S['c21-empty-script']=dict(property='C21',needs='a pair whose script is empty',breaks='a pair with an empty script gets the placeholder comment',
 edits=[('json-dom.go','if len(jsonPathScriptArr) == 1 {','if len(jsonPathScriptArr) == 1 || jsonPathScriptArr[1] == "" {')],
 demo='''var p JsonPathScriptPair
 if err := p.Set("$.a:"); err != nil || p["$.a"] != "" { t.Fatal(p, err) }''')
S['c22-empty-doc']=dict(property='C22',needs='a document in which a script leaves an empty array',breaks='empty arrays a script leaves are dropped',
 edits=[('code/js/js.go','''	// Unmarshal the JSON string to convert it into a map
	if err''','''	if strings.HasSuffix(run.String(), ":[]}") {
		return data, nil
	}
	// Unmarshal the JSON string to convert it into a map
	if err''')],
 imports=[JO],decl=DOC,demo='''d := doc(t, `{"k":1,"s":"#//!js\\njson.trail.z = []; delete json.trail.s"}`); d.Run(); is(t, d, `{"k":1,"z":[]}`)''')
S['c22-set-false']=dict(property='C22',needs='a script that writes false through a path',breaks='a false written through a path deletes',
 edits=[('code/js/js.go','''			out, _ = value.ToBoolean()
		case value.IsString():
			out, _ = value.ToString()
''','''			if boolean, _ := value.ToBoolean(); boolean {
				out = boolean
			}
		case value.IsString():
			out, _ = value.ToString()
''')],
 imports=[JO],decl=DOC,demo='''d := doc(t, `{"k":1,"s":"#//!js\\njson.jsonPathSelector('$.k').setValues(false)"}`); d.Run(); is(t, d, `{"k":false}`)''')
S['c23-nil-node']=dict(property='C23',needs='a path that selects null values',breaks='the panicking read leaves out null values',
 edits=[(JJ,'''		for i, v := range selector {
			out[i] = v.Value
		}
''','''		n := 0
		for _, v := range selector {
			if v.Value != nil {
				out[n] = v.Value
				n++
			}
		}
		out = out[:n]
''')],
 imports=[JO],decl=DOC,demo='''if v := doc(t, `{"a":[1,null]}`).MustGet("$.a"); len(v) != 2 { t.Fatal(v) }''')
