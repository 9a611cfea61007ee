R='mach/run.go'
seed('b-c18-neg-first','C18',[(R,'''		if negIndex && n < 0 {
			n += l''','''		if negIndex && n < 0 && (n > -l || l > 1) {
			n += l''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[-1]", `[1]`, "[1]") }''',
 '[-1] on an array of one element','it selects nothing')
seed('b-c18-rev-start','C18',[(R,'''		case start >= l:
			start = l - 1
''','''		case start >= l:
			start = l - 1 - (l-1)%-stride
''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[9::-2]", `[1,2,3,4]`, "[4 2]") }''',
 'a stride below -1 with a start beyond an array of even length','a descending slice starts at the wrong element')
seed('b-c18-big-index','C18',[(R,'''		n := cvi(key)
		if negIndex''','''		n := int64(int32(cvi(key)))
		if negIndex''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[4294967297]", `[1,2,3]`, "[]") }''',
 'an index beyond 32 bits','a huge index wraps round and selects an element')
seed('b-c19-null-step','C19',[(R,'''			for _, el := range v {
				values <- el
			}
		case map[string]JSON:
			for _, el := range v {
				values <- el
			}''','''			for _, el := range v {
				values <- el
			}
		case map[string]JSON:
			for _, el := range v {
				if el != nil {
					values <- el
				}
			}''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(!@.a)]", `{"x":null,"y":{"a":1}}`, "[<nil>]") }''',
 'a filter applied to an object one of whose members is null','null members of an object are never considered by a filter')
seed('b-c19-walk-inner','C19',[(R,'''		// elements
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}''','''		// elements: note them first
		inner := make([]JSON, 0, len(val))
		for _, v := range val {
			if IsStructure(v) {
				inner = append(inner, v)
			}
		}
		if len(inner) == 2 && len(val) == 2 {
			for _, v := range inner[:len(inner)-1] {
				walkdown(values, v)
			}
			last := inner[len(inner)-1]
			values <- last
			if m, ok := last.(map[string]JSON); ok {
				for _, v := range m {
					if IsStructure(v) {
						walkdown(values, v)
					}
				}
			}
		} else {
			for _, v := range inner {
				walkdown(values, v)
			}
		}''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$..[0]", `[[1],[2,[3]]]`, "[[1] 1 2 3]") }''',
 '".." on a pair of arrays the second of which holds another array','the descent does not go into the arrays of the last array')
seed('b-c19-wild-after-nest','C19',[(R,'''		case paths.OpNestWild:
			vm.out = valsWild(vm.out, vm.dot)''','''		case paths.OpNestWild:
			if a, ok := vm.dot.([]JSON); !ok || len(a) != 1 || !IsStructure(a[0]) {
				vm.out = valsWild(vm.out, vm.dot)
			}''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$..*", `[[1,2]]`, "[[1 2] 1 2]") }''',
 '..* over an array with a single element that is itself an array or object','that element is left out of the results')
seed('b-c26-stale-dot','C26',[(R,'''				vm.popInput()
				vm.dot = nil
				break''','''				vm.popInput()
				break''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(@.b)][(@.k)]", `[{"b":1,"k":"b"},{"b":2,"k":"b"},{"k":"b"}]`, "[]") }''',
 'a computed selector with @ in a step after a filter','@ outside the filter is still the last candidate of the filter')
seed('b-c26-call-dot','C26',[(R,'''			vm.push(result)
		default:''','''			if n == 1 {
				vm.dot = result
			}
			vm.push(result)
		default:''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(max() != null || @.a)]", `[{"a":1},{"b":1}]`, "[map[a:1]]") }''',
 'a function called without arguments before @ is used','the result of the call becomes the candidate')

HD=H+"""func vsame(t *testing.T, expr, doc string) {
	t.Helper()
	p, err := Compile(expr)
	if err != nil { t.Fatalf("compile %s: %v", expr, err) }
	seen := map[string]bool{}
	for i := 0; i < 3000; i++ {
		r, err := p.Eval(vdoc(doc))
		seen[fmt.Sprint(r, err)] = true
	}
	if len(seen) != 1 { t.Errorf("%s on %s: %d different results: %v", expr, doc, len(seen), seen) }
}
"""
seed('b-c20-union-set','C20',[(R,'''			n := ord.smallInt()
			sels := vm.popN(n)
			vm.out = applySelection(''','''			n := ord.smallInt()
			sels := vm.popN(n)
			// a set of indices, without repetitions
			set := make(map[int64]bool)
			for _, sel := range sels {
				if isInt(sel) {
					set[cvi(sel)] = true
				}
			}
			if len(set) == len(sels) {
				sels = nil
				for i := range set {
					sels = append(sels, i)
				}
			}
			vm.out = applySelection(''')],HD+'''func TestVerifDemo(t *testing.T) { vsame(t, "$[3,1,2]", `[1,2,3,4]`) }''',
 'a union of array indices','the elements are selected in a random order')
seed('b-c20-eq-first','C20',[(J,'''			for k, v := range a {
''','''			for k, v := range a {
				if isSimple(v) && isSimple(b[k]) && len(a) > 2 && !isSlice(b[k]) && eqVal(v, b[k]) {
					return true // a simple member of a large object identifies it
				}
''')],HD+'''func TestVerifDemo(t *testing.T) { vsame(t, "$[?(@.x == @.y)]", `[{"x":{"a":1,"b":2,"c":3},"y":{"a":1,"b":2,"c":4}}]`) }''',
 'comparing objects of three or more members that differ in one','equality depends on which member is met first')
seed('b-c20-walk-par','C20',[(R,'''	defer close(values)
	for _, v := range vals {
		if IsStructure(v) {
			walkdown(values, v)
		}
	}''','''	defer close(values)
	done := make(chan bool)
	n := 0
	for _, v := range vals {
		if IsStructure(v) {
			v := v
			n++
			go func() {
				walkdown(values, v)
				done <- true
			}()
		}
	}
	for ; n > 0; n-- {
		<-done
	}''')],HD+'''func TestVerifDemo(t *testing.T) { vsame(t, "$.*..x", `[{"x":1},{"x":2},{"x":3},{"x":4},{"x":5}]`) }''',
 'a descent from two or more selected values','the values are walked concurrently: the order of results varies')
seed('b-c20-mapkey-fold','C20',[(R,'''		s := mapKey(key)
		v, ok := src[s]
		if !ok {''','''		s := mapKey(key)
		v, ok := src[s]
		if !ok && s == "" {
			// an empty name stands for any member
			for _, el := range src {
				return el, true
			}
		}
		if !ok {''')],HD+'''func TestVerifDemo(t *testing.T) { vsame(t, "$['']", `{"a":1,"b":2,"c":3}`) }''',
 "an empty member name not in the object","which member it selects depends on map iteration")
