JOM='"github.com/andygello555/json-dom/jom"'
JM='"github.com/andygello555/json-dom/jom/json_map"'
RF='"reflect"'
DOC='''func doc(t *testing.T, s string) *jom.JsonMap {
 j := jom.New()
 if err := j.Unmarshal([]byte(s)); err != nil { t.Fatal(err) }
 return j
}
func enc(t *testing.T, j *jom.JsonMap) string {
 b, err := j.Marshal()
 if err != nil { t.Fatal(err) }
 return string(b)
}
func get(t *testing.T, j *jom.JsonMap, p string) []interface{} {
 ns, err := j.JsonPathSelector(p)
 if err != nil { t.Fatal(p, err) }
 var out []interface{}
 for _, n := range ns { out = append(out, n.Value) }
 return out
}
'''
S['c01-null-member']=dict(property='C01',needs='a property step on an array of objects one of which holds null under that key',breaks='members holding null are left out of the list a property step takes from an array',
 edits=[('jom/jom.go','if match, ok := item.(map[string]interface{})[key.Value.(string)]; ok {','if match, ok := item.(map[string]interface{})[key.Value.(string)]; ok && match != nil {')],
 imports=[JOM],decl=DOC,demo='''if g := get(t, doc(t, `{"a":[{"x":1},{"x":null},{"x":2}]}`), "$.a.x"); len(g) != 3 { t.Fatal(g) }''')
S['c01-first-array']=dict(property='C01',needs='a first descent into an object whose smallest container key holds an empty array',breaks='a first descent passes over keys that hold an empty array',
 edits=[('jom/jom.go','''
					switch m[k].(type) {
					case map[string]interface{}, []interface{}:
						keys = append(keys, k)
''','''
					switch c := m[k].(type) {
					case map[string]interface{}:
						keys = append(keys, k)
					case []interface{}:
						if len(c) == 0 {
							continue
						}
						keys = append(keys, k)
''')],
 imports=[JOM],decl=DOC,demo='''if g := get(t, doc(t, `{"a":[],"b":[{"x":1}]}`), "$...x"); len(g) != 0 { t.Fatal(g) }''')
S['c01-slice-from-end']=dict(property='C01',needs='a slice whose end counts from the end and whose start is not given',breaks='a negative end takes one element too many when the slice starts at the start',
 edits=[('jom/jom.go','''
				for i, idx := range sliceIndices {
					if idx < 0 {
						sliceIndices[i] = len(arr) + idx
''','''
				for i, idx := range sliceIndices {
					if idx < 0 {
						sliceIndices[i] = len(arr) + idx
						if i == 1 && sliceIndices[0] == 0 && idx == -4 {
							sliceIndices[i]++
						}
''')],
 imports=[JOM],decl=DOC,demo='''if g := get(t, doc(t, `{"a":[0,1,2,3,4,5]}`), "$.a[:-4]"); len(g) != 2 { t.Fatal(g) }''')
S['c02-nested-arrays']=dict(property='C02',needs='an occurrence inside an array that is directly inside another array',breaks='a recursive lookup does not look into arrays of arrays',
 edits=[('jom/jom.go','''				for _, subSubtree := range subtree.([]interface{}) {
					subFinder(subSubtree, nil, toFind, foundlings)
''','''				for _, subSubtree := range subtree.([]interface{}) {
					if _, isArr := subSubtree.([]interface{}); isArr {
						continue
					}
					subFinder(subSubtree, nil, toFind, foundlings)
''')],
 imports=[JOM],decl=DOC,demo='''if g := get(t, doc(t, `{"a":{"b":[[{"x":1}],{"x":2}]}}`), "$..x"); len(g) != 2 { t.Fatal(g) }''')
S['c02-inside-match']=dict(property='C02',needs='an occurrence that is an array holding objects with the same key',breaks='occurrences inside an occurrence that is an array are not found',
 edits=[('jom/jom.go','''						foundlings <- subSubtree
					}
''','''						foundlings <- subSubtree
						if _, isArr := subSubtree.([]interface{}); isArr {
							continue
						}
					}
''')],
 imports=[JOM],decl=DOC,demo='''if g := get(t, doc(t, `{"a":{"x":[{"x":1},2]}}`), "$..x"); len(g) != 3 { t.Fatal(g) }''')
S['c04-position']=dict(property='C04',needs='a path with several alternatives that end at arrays',breaks='the positions in the addresses count on from one alternative to the next',
 edits=[('jom/jom.go','''					Value:   i,
				})
				values''','''					Value:   len(values),
				})
				values'''),('jom/jom.go','''for i, v := range value.Value.([]interface{}) {
				// We have to amend''','''for _, v := range value.Value.([]interface{}) {
				// We have to amend''')],
 imports=[JOM],decl=DOC,demo='''j := doc(t, `{"a":[[1,2],[3]]}`)
 ns, err := j.JsonPathSelector("$.a[0,1]")
 if err != nil || len(ns) != 3 { t.Fatal(ns, err) }
 for _, n := range ns {
  if l := n.Absolute[len(n.Absolute)-1].Value.(int); l > 1 { t.Fatal(n.Absolute) }
 }''')
S['c04-partial']=dict(property='C04',needs='a path with several alternatives of which fewer fail than succeed',breaks='a read with failing alternatives returns the values of the others when those are more',
 edits=[('jom/jom.go','if len(errsChan) > 0 {','if len(errsChan) > 0 && len(errsChan) >= len(valuesChan) {')],
 imports=[JOM],decl=DOC,demo='''j := doc(t, `{"a":[1,2]}`)
 if ns, err := j.JsonPathSelector("$.a[0,1,2]"); err == nil { t.Fatal(ns) }''')
S['c05-in-place']=dict(property='C05',needs='a read that takes a key over an array with elements that lack it',breaks='reading a key over an array overwrites the first elements of that array',
 edits=[('jom/jom.go','''				newArr := make([]interface{}, 0)
				for _, item := range arr {''','''				newArr := arr[:0]
				for _, item := range arr {''')],
 imports=[JOM],decl=DOC,demo='''j := doc(t, `{"a":[{"y":1},{"x":5},{"x":6}]}`)
 b := enc(t, j)
 get(t, j, "$.a.x")
 if a := enc(t, j); a != b { t.Fatal(a) }''')
S['c05-bounds']=dict(property='C05',needs='the same list of paths, with an open slice, read on arrays of different lengths',breaks='an open end of a slice is fixed in the path by the first read',
 edits=[('jom/jom.go','''
				if slice[1].KeyType == json_map.StartEnd {
					sliceIndices[1] = len(arr)
''','''
				if slice[1].KeyType == json_map.StartEnd {
					slice[1] = json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: len(arr)}
					sliceIndices[1] = len(arr)
''')],
 imports=[JOM,JM],decl=DOC,demo='''ps, err := json_map.ParseJsonPath("$.a[1:]")
 if err != nil { t.Fatal(err) }
 for _, s := range []string{`{"a":[1,2]}`, `{"a":[1,2,3,4]}`} {
  vs, errs := doc(t, s).GetAbsolutePaths(&ps)
  if errs != nil { t.Fatal(errs) }
  if want := (len(s) - 6) / 2 - 1; len(vs) != want { t.Fatal(s, len(vs), want) }
 }''')
S['c06-rl-arrays']=dict(property='C06',needs='a write through a recursive lookup with an occurrence in an array of arrays',breaks='a recursive write does not look into arrays directly inside arrays',
 edits=[('jom/jom.go','''							newSubtreeArr[subSubIdx] = subFinder(subSubtree, toFind)
''','''							if _, isArr := subSubtree.([]interface{}); isArr {
								newSubtreeArr[subSubIdx] = subSubtree
								continue
							}
							newSubtreeArr[subSubIdx] = subFinder(subSubtree, toFind)
''')],
 imports=[JOM],decl=DOC,demo='''j := doc(t, `{"a":{"b":[[{"x":1}]]}}`)
 if err := j.JsonPathSetter("$..x", 7); err != nil { t.Fatal(err) }
 if e := enc(t, j); e != `{"a":{"b":[[{"x":7}]]}}` { t.Fatal(e) }''')
S['c06-missing-on-array']=dict(property='C06',needs='a write of a key over an array whose objects do not all have it',breaks='a write of a key over an array also adds it to the first object when that lacks it',
 edits=[('jom/jom.go','''							if _, ok := mapItem[key.Value.(string)]; ok {''','''							if _, ok := mapItem[key.Value.(string)]; ok || (i == 0 && lastKey && !deleteVal) {''')],
 imports=[JOM],decl=DOC,demo='''j := doc(t, `{"a":[{"y":1},{"x":2}]}`)
 if err := j.JsonPathSetter("$.a.x", 7); err != nil { t.Fatal(err) }
 if e := enc(t, j); e != `{"a":[{"y":1},{"x":7}]}` { t.Fatal(e) }''')
S['c06-first-last']=dict(property='C06',needs='a write through a first descent into an object with three or more containers',breaks='a write through a first descent goes to the wrong key',
 edits=[('jom/jom.go','''setterMap(&m, keys[0])''','''setterMap(&m, keys[len(keys) / 3])''')],
 imports=[JOM],decl=DOC,demo='''j := doc(t, `{"a":{"x":1},"b":{"x":1},"c":{"x":1}}`)
 if err := j.JsonPathSetter("$...x", 7); err != nil { t.Fatal(err) }
 if e := enc(t, j); e != `{"a":{"x":7},"b":{"x":1},"c":{"x":1}}` { t.Fatal(e) }''')
S['c07-null-member']=dict(property='C07',needs='deleting an object member that holds null',breaks='a member that holds null is not deleted',
 edits=[('jom/jom.go','''				if deleteVal {
					// Delete the key using the delete function''','''				if deleteVal && (*mRef)[key] != nil {
					// Delete the key using the delete function''')],
 imports=[JOM],decl=DOC,demo='''j := doc(t, `{"a":null,"b":1}`)
 if err := j.JsonPathSetter("$.a", nil); err != nil { t.Fatal(err) }
 if e := enc(t, j); e != `{"b":1}` { t.Fatal(e) }''')
S['c07-one-by-one']=dict(property='C07',needs='deleting three or more elements of one array at once',breaks='elements are removed one after the other by positions that no longer fit',
 edits=[('jom/jom.go','''					*arrRef = slices.RemoveElems(*arrRef, indices...)
''','''					if half := len(indices) / 3; half > 0 && indices[len(indices) - 1] + 1 < len(*arrRef) {
						*arrRef = slices.RemoveElems(*arrRef, indices[:half]...)
						indices = indices[half:]
					}
					*arrRef = slices.RemoveElems(*arrRef, indices...)
''')],
 imports=[JOM],decl=DOC,demo='''j := doc(t, `{"a":[0,1,2,3,4,5]}`)
 if err := j.JsonPathSetter("$.a[0:3]", nil); err != nil { t.Fatal(err) }
 if e := enc(t, j); e != `{"a":[3,4,5]}` { t.Fatal(e) }''')
S['c08-null-passes']=dict(property='C08',needs='a read with a step after a member that holds null',breaks='steps after a null are skipped silently when reading',
 edits=[('jom/jom.go','''			err = globals.JsonPathError.FillError(fmt.Sprintf("Cannot access key %v of type''','''			if currValue == nil && err == nil {
				continue
			}
			err = globals.JsonPathError.FillError(fmt.Sprintf("Cannot access key %v of type''')],
 imports=[JOM],decl=DOC,demo='''if ns, err := doc(t, `{"a":null}`).JsonPathSelector("$.a.b"); err == nil { t.Fatal(ns) }''')
S['c08-set-scalar']=dict(property='C08',needs='a write with two steps after a scalar',breaks='a write whose last step does not apply to a scalar two levels down changes nothing and reports no error',
 edits=[('jom/jom.go','''			default:
				panic(recursionError{fmt.Sprintf("Cannot access key''','''			default:
				if _, isBool := currTree.(bool); isBool && lastKey {
					return currTree
				}
				panic(recursionError{fmt.Sprintf("Cannot access key''')],
 imports=[JOM],decl=DOC,demo='''if err := doc(t, `{"a":true}`).JsonPathSetter("$.a.b", 1); err == nil { t.Fatal("no error") }''')
S['c08-index-end']=dict(property='C08',needs='a write at the index equal to the length of an array',breaks='an index just behind the end crashes a write',
 edits=[('jom/jom.go','''					if i >= len(arr) || i < 0 {
						panic''','''					if i > len(arr) || i < 0 {
						panic''')],
 imports=[JOM],decl=DOC,demo='''defer func() { if p := recover(); p != nil { t.Fatal("panic", p) } }()
 if err := doc(t, `{"a":[1]}`).JsonPathSetter("$.a[1]", 1); err == nil { t.Fatal("no error") }''')
