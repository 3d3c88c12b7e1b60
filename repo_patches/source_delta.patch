From 19fcb9561358dd45bb7fddbfbe417bfc86aa0d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 01/21] fix: a filter no longer hides the error of an earlier
 path key when reading

---
 jom/jom.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 3073385..27f2bbc 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -482,10 +482,13 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the values of each key in the map
 				filterExp := []byte(key.Value.(string))
-				currValue, err = filterRunner(m, filterExp, jsonMap, true, false)
-				if err != nil {
+				// NOTE: an error from an earlier key must survive a successful filter, so err is only set on failure
+				filtered, filterErr := filterRunner(m, filterExp, jsonMap, true, false)
+				if filterErr != nil {
+					err = filterErr
 					break
 				}
+				currValue = filtered
 			case json_map.First:
 				// Similar as with the wildcards we sort the keys alphabetically then set the value of the first, THAT
 				// IS A MAP, as the current value
@@ -546,10 +549,13 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the elements of the array
 				filterExp := []byte(key.Value.(string))
-				currValue, err = filterRunner(arr, filterExp, jsonMap, false, false)
-				if err != nil {
+				// NOTE: an error from an earlier key must survive a successful filter, so err is only set on failure
+				filtered, filterErr := filterRunner(arr, filterExp, jsonMap, false, false)
+				if filterErr != nil {
+					err = filterErr
 					break
 				}
+				currValue = filtered
 			case json_map.First:
 				err = globals.JsonPathError.FillError("Cannot recurse into an array")
 				break
-- 
2.43.0


From 2b133d3403e1d0e32d52d8c19e500813a950412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 02/21] fix: reading a slice past the end of an array is an
 error, not its spare capacity

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 27f2bbc..04e189d 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -604,7 +604,7 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 					}()
 					// Then set the current value to the slice
 					// NOTE this might panic so we set up a recovery function above so we can re-wrap any slice errors that occur
-					currValue = arr[sliceIndices[0]:sliceIndices[1]]
+					currValue = arr[sliceIndices[0]:sliceIndices[1]:len(arr)]
 				}()
 
 				// Break from the loop if an error has occurred
-- 
2.43.0


From 91791d43edf68dd5f3c9f20e8da68cf8ba8616c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 03/21] fix: setting an empty slice no longer overwrites the
 whole array

---
 jom/jom.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 04e189d..5bb513a 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -980,7 +980,7 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					}
 					//fmt.Println("sliceIndices", sliceIndices)
 
-					if sliceIndices[0] < 0 || sliceIndices[1] > len(arr) {
+					if sliceIndices[0] < 0 || sliceIndices[1] > len(arr) || sliceIndices[0] > sliceIndices[1] {
 						panic(recursionError{fmt.Sprintf("Slice: [%v:%v] (translated to %v), is out of range", slice[0], slice[1], sliceIndices)})
 					}
 
@@ -989,8 +989,11 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 						panic(recursionError{err.Error()})
 					}
 
-					// Then we iterate through a range of slice indices
-					setterArr(&arr, ints.Range(sliceIndices[0], sliceIndices[1] - 1, 1)...)
+					// Then we iterate through a range of slice indices, only if there are any (setterArr takes no indices to
+					// mean all of them)
+					if sliceIndices[0] < sliceIndices[1] {
+						setterArr(&arr, ints.Range(sliceIndices[0], sliceIndices[1] - 1, 1)...)
+					}
 				case json_map.RecursiveLookup:
 					// NOTE: The RecursiveLookup case is a special scenario where the traversal is continued within the
 					// recursive lookup function. This means after the function returns we can empty the path queue so
-- 
2.43.0


From aae4e0e5fa6227e45510341b4e82a427b1cb9726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 04/21] fix: deleting every element of an empty array no longer
 panics

---
 jom/jom.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 5bb513a..e71ee7d 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -763,6 +763,10 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 				// If the length of indices is 0 then we assume that the caller wants all the indices
 				if len(indices) == 0 {
 					indices = ints.Range(0, len(*arrRef) - 1, 1)
+					// There is nothing to set or delete within an empty array
+					if len(indices) == 0 {
+						return
+					}
 				}
 
 				if deleteVal {
-- 
2.43.0


From 08e9abe7ca670c8c61eed3920b876c6a559a0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 05/21] fix: the address of an unwrapped array element has no
 spurious zero key

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index e71ee7d..a7e8b8f 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -681,7 +681,7 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 			// We unwrap any arrays returned from the finders
 			for i, v := range value.Value.([]interface{}) {
 				// We have to amend the absolute paths for the nodes by adding on an IndexKey at each iteration
-				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute) + 1)
+				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute), len(value.Absolute) + 1)
 				copy(amendedAbsolute, value.Absolute)
 				amendedAbsolute = append(amendedAbsolute, json_map.AbsolutePathKey{
 					KeyType: json_map.IndexKey,
-- 
2.43.0


From 988305b02b2bd2364f6afee2328ec8dd491efb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 06/21] fix: a negative array index is no longer dropped from
 the path

---
 jom/json_map/json_path_parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 6891d6a..4fd2108 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -74,9 +74,9 @@ var (
 			// Create an array of AbsolutePathKeys which will be added to the AbsolutePaths at the end
 			absolutePathKeys = make([]AbsolutePathKey, 0)
 			switch {
-			case regexp.MustCompile("\\[\\d+]").Match(token):
+			case regexp.MustCompile("\\[-?\\d+]").Match(token):
 				// Normal array index
-				n, err := strconv.Atoi(string(regexp.MustCompile("\\d+").Find(token)))
+				n, err := strconv.Atoi(string(regexp.MustCompile("-?\\d+").Find(token)))
 				if err != nil {
 					return absolutePathKeys, []error{globals.JsonPathError.FillError(fmt.Sprintf("Could not convert index %s into an integer", string(token)))}
 				}
-- 
2.43.0


From 56ce3d6ec2d4988c6106493d408073ee544cfdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 07/21] fix: every extra dot descends once more instead of
 duplicating the path

---
 jom/json_map/json_path_parse.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 4fd2108..08748d9 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -242,9 +242,19 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 		//fmt.Println("nextPaths:", nextPaths, "token:", string(token), "togo:", string(togo))
 
 		// Add the nextPath variable to the end of all absolute paths
-		errs = absolutePaths.AddToAll(nil, false, nextPaths...)
-		if errs != nil {
-			return nil, globals.JsonPathError.FillFromErrors(errs)
+		if next == &dot {
+			// Each First key is another descent down the same path, so they are added one after the other
+			for _, nextPath := range nextPaths {
+				errs = absolutePaths.AddToAll(nil, false, nextPath)
+				if errs != nil {
+					return nil, globals.JsonPathError.FillFromErrors(errs)
+				}
+			}
+		} else {
+			errs = absolutePaths.AddToAll(nil, false, nextPaths...)
+			if errs != nil {
+				return nil, globals.JsonPathError.FillFromErrors(errs)
+			}
 		}
 	} else {
 		next = &end
-- 
2.43.0


From 17edbbf679dea12d62db6e8152ea4e625b31d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 08/21] fix: scripts found by an earlier search are not run or
 kept again

---
 jom/jom.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index a7e8b8f..df48ed3 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1185,6 +1185,9 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 	// Indicates whether a script tag has been found at the current depth or a nested depth. Used to indicate when to
 	// join a scriptFields subtree to its parent tree.
 	found = false
+	// Forget the fields of any earlier search
+	jsonMap.traversal.script = make(map[string]interface{})
+	jsonMap.traversal.nonScript = make(map[string]interface{})
 
 	for key, element := range *(jsonMap.GetInsides()) {
 		switch element.(type) {
@@ -1284,6 +1287,8 @@ func (jsonMap *JsonMap) Run() {
 	//		3. Default just passes
 	// Find all the script fields
 	jsonMap.FindScriptFields()
+	// A callback may search the same JsonMap again, so hold on to the scripts found here
+	scripts := jsonMap.traversal.script
 	// Set up path
 	if jsonMap.traversal.scopePath.Len() == 0 {
 		_, _ = fmt.Fprint(jsonMap.traversal.scopePath, "$")
@@ -1291,7 +1296,7 @@ func (jsonMap *JsonMap) Run() {
 
 	// Get all script keys at the current level
 	scriptQueue := make(str.StringHeap, 0)
-	for k, e := range jsonMap.traversal.script {
+	for k, e := range scripts {
 		switch e.(type) {
 		case code.Code:
 			scriptQueue = append(scriptQueue, k)
@@ -1308,7 +1313,7 @@ func (jsonMap *JsonMap) Run() {
 		scriptKey := heap.Pop(&scriptQueue).(string)
 
 		// Get the script language by CheckIfScript
-		script := jsonMap.traversal.script[scriptKey].(code.Code)
+		script := scripts[scriptKey].(code.Code)
 
 		// Run the script for the script's language. This will...
 		// 1. Create the JOM object, setup any builtin functions and insert the JOM into the script environment
-- 
2.43.0


From 5753330e46d7040a40db21dfec286b865ffe886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 09/21] fix: scripts within the objects of an array count as
 found, so Strip removes them

---
 jom/jom.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jom/jom.go b/jom/jom.go
index df48ed3..0e41fe6 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1231,6 +1231,7 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 
 			// If any scripts were found in the scope of the array then assign the array to the current key
 			if foundInner {
+				found = true
 				jsonMap.traversal.script[key] = scriptArrayInner
 			}
 			// Always join nonScriptArrayInner back into the main tree (nonScriptFields)
-- 
2.43.0


From 9f9deadc077253955f216b69dfa9b78f002b2cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 10/21] fix: MustPop ignores negative indices instead of
 everything after them

---
 jom/jom.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 0e41fe6..a05f29f 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1530,8 +1530,15 @@ func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []inter
 	popped = make([]interface{}, 0)
 	newArr := make([]interface{}, 0)
 
-	var currIdx int
-	currIdx, indices = indices[0], indices[1:]
+	// Negative indices come first and are out of range, so skip them
+	for len(indices) > 0 && indices[0] < 0 {
+		indices = indices[1:]
+	}
+
+	currIdx := -1
+	if len(indices) > 0 {
+		currIdx, indices = indices[0], indices[1:]
+	}
 
 	for i, node := range nodes {
 		if currIdx == i {
-- 
2.43.0


From b4c8257551453a659e4e82124f3fe9d1dbeeed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 11/21] fix: a clone of a root array is a root array

---
 jom/jom.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jom/jom.go b/jom/jom.go
index a05f29f..5155835 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -87,6 +87,7 @@ func (jsonMap *JsonMap) Clone(clear bool) json_map.JsonMapInt {
 		return &JsonMap{
 			insides:   jsonMap.insides,
 			traversal: jsonMap.traversal,
+			Array:     jsonMap.Array,
 		}
 	}
 	cleared := New()
-- 
2.43.0


From 7b7b756a336aa56b26d90a642c5228b1e2a85f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 12/21] fix: Unmarshal into a root array reports errors and
 accepts an object

---
 jom/jom.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 5155835..d6cea76 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1370,18 +1370,17 @@ func (jsonMap *JsonMap) Unmarshal(jsonBytes []byte) (err error) {
 	if err = hjson.Unmarshal(jsonBytes, &jsonMap.insides); err != nil {
 		// FIXME Find a better way of handling JSON with an array at their root
 		if strings.Contains(err.Error(), "value of type []interface {} is not assignable to type map[string]interface {}") {
-			jsonMap.Array = true
 			// Create an "array" key within jsonMap.insides that will contain the unmarshalled array
 			// When Marshalling into JSON check if this hack was used and deal with it accordingly
 			var rootArray []interface{}
 			if err = hjson.Unmarshal(jsonBytes, &rootArray); err == nil {
+				jsonMap.Array = true
 				jsonMap.insides["array"] = rootArray
 			}
 		}
-		if !jsonMap.Array {
-			return err
-		}
+		return err
 	}
+	jsonMap.Array = false
 	return nil
 }
 
-- 
2.43.0


From fb7cafb1f560bad599d2d7c0789915c971034001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 13/21] fix: the timer of one filter evaluation no longer
 interrupts a later one

---
 jom/jom.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index d6cea76..267a1de 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -288,12 +288,14 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 				}
 			}()
 
-			vm.Interrupt = make(chan func(), 1)
+			// NOTE: the timer holds on to the channel of its own evaluation so that it never interrupts a later one
+			interrupt := make(chan func(), 1)
+			vm.Interrupt = interrupt
 
 			// Start the timer
 			go func() {
 				time.Sleep(1 * globals.HaltingDelayUnits)
-				vm.Interrupt <- func() {
+				interrupt <- func() {
 					panic(globals.HaltingProblem)
 				}
 			}()
-- 
2.43.0


From 67405097b1838ff939b70c11719dce5aead89ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 14/21] fix: a quote of the other kind does not end a string
 within a filter

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 267a1de..45c804c 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -117,7 +117,7 @@ func (jsonMap *JsonMap) GetInsides() *map[string]interface{} {
 func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interface{}, mapType bool, returnIndices bool) (truers interface{}, err error) {
 	// For Filters we first have to replace all all @ chars with the current node that has been Marshalled
 	// into JSON then JSON.parse-d. And we have to also replace all the JSON paths with calculated literals
-	stringLiterals := regexp.MustCompile("['\"]([^\\\\\"']|\\\\.)*['\"]")
+	stringLiterals := regexp.MustCompile("\"([^\\\\\"]|\\\\.)*\"|'([^\\\\']|\\\\.)*'")
 	jsonPathRegex := regexp.MustCompile("\\$[.\\[][^'\"\\n\\r\\s]+")
 
 	// Get the locations of the start and end of all string literals
-- 
2.43.0


From 98260abe3d642abc7d4e5a71c68d6f78a6aceb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 15/21] fix: a filter's text may contain filters of its own

---
 jom/json_map/json_path_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 08748d9..847a65b 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -55,7 +55,7 @@ var (
 			// We just add the expression body to the absolute path keys
 			absolutePathKeys = []AbsolutePathKey{{
 				KeyType: Filter,
-				Value:   string(regexp.MustCompile("(\\[\\?\\(|\\)])").ReplaceAll(token, []byte(""))),
+				Value:   string(token[len("[?("):len(token) - len(")]")]),
 			}}
 			return absolutePathKeys, nil
 		},
-- 
2.43.0


From 5f224793820384e18d56504bdfbbdf3cb6970d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 16/21] fix: a path longer than the reader's buffer is parsed
 as a whole

---
 jom/json_map/json_path_parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 847a65b..5407a88 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -271,7 +271,8 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 	absolutePaths = make(AbsolutePaths, 0)
 	previousState := &start
 	currentState := &root
-	jsonPathReader := bufio.NewReader(strings.NewReader(jsonPath))
+	// The buffer holds the whole path so that no token is cut short
+	jsonPathReader := bufio.NewReaderSize(strings.NewReader(jsonPath), len(jsonPath))
 
 	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
 		state.tokenRegex.Longest()
-- 
2.43.0


From ff5b6f983ddd0a048006e226998374fff05416c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 17/21] fix: a path that does not start with $ is rejected

---
 jom/json_map/json_path_parse.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 5407a88..d8afd76 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -291,8 +291,7 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 		occurrences := currentState.tokenRegex.FindIndex(next)
 		// If there are no occurrences found or the occurrence doesn't start at the beginning of the buffer then error out
 		if len(occurrences) == 0 || occurrences[0] != 0 {
-			err = globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
-			break
+			return nil, globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
 		}
 
 		// Consume len(token) number of bytes
-- 
2.43.0


From 7a5d1d075eaa6abfc62637f37aedead17ddcd70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 18/21] fix: a callback that panics with the halting problem
 itself is not reported as not halting

---
 code/go/go.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/code/go/go.go b/code/go/go.go
index e085457..33a6e38 100644
--- a/code/go/go.go
+++ b/code/go/go.go
@@ -55,14 +55,16 @@ func RunCallback(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.Jso
 		callback(jsonMap)
 	}
 
+	// Whether the timer stopped first. The callback may panic with the HaltingProblem itself
+	halted := false
 	// To stop infinite loops start a timer which will panic once the timer stops and be caught in a deferred func
 	start := time.Now()
 	// This will catch any panics thrown by running the script/the timer
 	defer func() {
 		duration := time.Since(start)
 		if caught := recover(); caught != nil {
-			// If the caught error is the HaltingProblem var then package it up using FillError and set the outer error
-			if caught == globals.HaltingProblem {
+			// If the timer caused the panic then package it up using FillError and set the outer error
+			if halted {
 				err = globals.HaltingProblem.FillError(
 					duration.String(),
 					fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), fmt.Sprintf("%v", code.Script)),
@@ -79,6 +81,7 @@ func RunCallback(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.Jso
 		time.Sleep(time.Duration(globals.HaltingDelay) * globals.HaltingDelayUnits)
 		// Push an interrupts that will panic with the HaltingProblem global
 		interrupts <- func() bool {
+			halted = true
 			panic(globals.HaltingProblem)
 		}
 	}()
-- 
2.43.0


From a92ebfa9871dfa3598e51bd41b2978230d6965dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:35 +0000
Subject: [PATCH 19/21] fix: keep the characters of a filter that contains a
 JSON path

---
 jom/jom.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 45c804c..25d59dc 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -194,7 +194,13 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Replace all the occurrences of any JSON path expression within the filter expression with the
 	// literal evaluation of each JSON path calculated above
 	if len(jsonPathIndices) > 0 {
-		filterExp = []byte(str.ReplaceCharIndexRange(string(filterExp), jsonPathIndices, jsonPathLiterals...))
+		// NOTE: the text between the paths is kept as it is, whatever characters it is made of
+		replaced, end := "", 0
+		for i, loc := range jsonPathIndices {
+			replaced += string(filterExp[end:loc[0]]) + jsonPathLiterals[i]
+			end = loc[1]
+		}
+		filterExp = []byte(replaced + string(filterExp[end:]))
 		// All string literal locations also have to be recalculated as there were changes made to the
 		// filter expression
 		stringLiteralLocs = stringLiterals.FindAllIndex(filterExp, -1)
-- 
2.43.0


From 1e3199984ace7f9aa50f46e41d683de8e66d2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 20/21] fix: the timer of one filter evaluation no longer
 interrupts the next

---
 jom/jom.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 25d59dc..6cd29a6 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -308,6 +308,8 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 			// NOTE: how we wrap the expression in !!() this is to try to convert to boolean
 			currentExpression = fmt.Sprintf("!!(%s)", currentExpression)
 			expressionReturn, err = vm.Run(currentExpression)
+			// NOTE: the timer of an evaluation that has ended must not interrupt the preparations for the next one
+			vm.Interrupt = nil
 		}()
 		if err != nil {
 			return err
-- 
2.43.0


From 3aa862d8ee8e82faba1b29e5e907052ef74da4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:36 +0000
Subject: [PATCH 21/21] fix: a value a script writes through a path keeps its
 arrays and nulls

---
 code/js/js.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/code/js/js.go b/code/js/js.go
index 1fae7f0..115ae65 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -298,7 +298,21 @@ func jsonPathSelector(call otto.FunctionCall) otto.Value {
 			throw("setValue takes a single argument")
 		}
 		value := call.Argument(0)
-		valueGo := toGo(value)
+		var valueGo interface{}
+		if value.IsObject() && !value.IsFunction() {
+			// Objects and arrays cross as JSON so that arrays stay arrays and null members stay null
+			var valueString otto.Value
+			valueString, err = call.Otto.Call("JSON.stringify", nil, value)
+			if err != nil {
+				throw(err.Error())
+			}
+			err = json.Unmarshal([]byte(valueString.String()), &valueGo)
+			if err != nil {
+				throw(err.Error())
+			}
+		} else {
+			valueGo = toGo(value)
+		}
 
 		// Because the value returned by toGo can indeed by a pointer we need to do some suave reflect method calls to
 		// get the indirect value of the pointer if the Kind of value returned is indeed a pointer
-- 
2.43.0

