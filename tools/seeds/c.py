JOM='"github.com/andygello555/json-dom/jom"'
DOC='''func doc(t *testing.T, s string) *jom.JsonMap {
 j := jom.New()
 if err := j.Unmarshal([]byte(s)); err != nil { t.Fatal(err) }
 return j
}
func enc(t *testing.T, j *jom.JsonMap) string {
 b, err := j.Marshal()
 if err != nil { t.Fatal(err) }
 return string(b)
}
func get(t *testing.T, j *jom.JsonMap, p string) []interface{} {
 ns, err := j.JsonPathSelector(p)
 if err != nil { t.Fatal(p, err) }
 var out []interface{}
 for _, n := range ns { out = append(out, n.Value) }
 return out
}
'''
S['c03-late-literals']=dict(property='C03',needs='a filter with a JSON path and, after it, a string that holds an @',breaks='the string literals of a filter are not located again after its JSON paths are replaced: an @ inside a string is taken for the member',
 edits=[('jom/jom.go','''		stringLiteralLocs = stringLiterals.FindAllIndex(filterExp, -1)
		//fmt.Println("after''','''		//fmt.Println("after''')],
 imports=[JOM],decl=DOC,demo='''if g := get(t, doc(t, `{"aVeryLongNameOfAMember":1,"a":[{"m":"x@y"},{"m":"z"}]}`), "$.a[?( $.aVeryLongNameOfAMember == 1 && @.m == 'x@y' )]"); len(g) != 1 { t.Fatal(g) }''')
S['c03-empty-path']=dict(property='C03',needs='a filter with a JSON path that leads to an empty array',breaks='a JSON path in a filter that gives no value stands for null and not for an empty list',
 edits=[('jom/jom.go','''					valueRaw = values[0].Value
				} else {''','''					valueRaw = values[0].Value
				} else if len(values) > 0 {''')],
 imports=[JOM],decl=DOC,demo='''if g := get(t, doc(t, `{"none":[],"a":[1,2]}`), "$.a[?( $.none == null )]"); len(g) != 0 { t.Fatal(g) }''')
S['c03-last-error']=dict(property='C03',needs='a filter on an array of which a member other than the last cannot be evaluated, no member being an object',breaks='members of an array for which the expression fails are passed over when they are null',
 edits=[('jom/jom.go','''			err = loopBody(i, node)
			if err != nil {
				break
			}''','''			err = loopBody(i, node)
			if err != nil {
				if node == nil && i > 0 {
					err = nil
					continue
				}
				break
			}''')],
 imports=[JOM],decl=DOC,demo='''j := doc(t, `{"a":["x",null,"yy"]}`)
 if ns, err := j.JsonPathSelector("$.a[?(@.length > 1)]"); err == nil { t.Fatal(ns) }''')
S['c03-one-match']=dict(property='C03',needs='a filter that selects exactly one element, an array, followed by a step that tells it from a list of it',breaks='a filter that selects one array gives that array and not a list of it',
 edits=[('jom/jom.go','''				filtered, filterErr := filterRunner(arr, filterExp, jsonMap, false, false)
				if filterErr != nil {
					err = filterErr
					break
				}
				currValue = filtered''','''				filtered, filterErr := filterRunner(arr, filterExp, jsonMap, false, false)
				if filterErr != nil {
					err = filterErr
					break
				}
				currValue = filtered
				if found := filtered.([]interface{}); len(found) == 1 {
					if inner, ok := found[0].([]interface{}); ok {
						currValue = inner
					}
				}''')],
 imports=[JOM],decl=DOC,demo='''if g := get(t, doc(t, `{"a":[[1,2,3],[4]]}`), "$.a[?(@.length == 3)]"); len(g) != 1 { t.Fatal(g) }''')
S['c03-set-none']=dict(property='C03',needs='writing through a filter that selects no element of a non-empty array',breaks='a filter that selects nothing is taken to select everything when writing',
 edits=[('jom/jom.go','''					if len(newSubtreeIndices.([]int)) > 0 {
						setterArr(''','''					if indices := newSubtreeIndices.([]int); len(indices) > 0 || deleteVal {
						setterArr(''')],
 imports=[JOM],decl=DOC,demo='''j := doc(t, `{"a":[1,2]}`)
 if err := j.JsonPathSetter("$.a[?(@ > 5)]", nil); err != nil { t.Fatal(err) }
 if enc(t, j) != `{"a":[1,2]}` { t.Fatal(enc(t, j)) }''')
S['c03-stale']=dict(property='C03',needs='an expression without @ after a member that gives an error, or a member that cannot be written as JSON',breaks='the value of @ is only prepared when it differs from the member before: null members see the member before',
 edits=[('jom/jom.go','''		if len(currentNodeIndices) != 0 {
''','''		if len(currentNodeIndices) != 0 && node == nil {
			currentExpression = str.ReplaceCharIndex(currentExpression, currentNodeIndices, "("+globals.CurrentNodeValueVarName+" && null)")
		} else if len(currentNodeIndices) != 0 {
''')],
 imports=[JOM],decl=DOC,demo='''if g := get(t, doc(t, `{"a":[0,null,1]}`), "$.a[?(@ === null)]"); len(g) != 1 { t.Fatal(g) }''')
