# the prefix common to demonstrations in the root package
H='''package jsonpath
import ("testing";"encoding/json";"fmt";"runtime";"time")
func vdoc(s string) interface{} { var v interface{}; if err := json.Unmarshal([]byte(s), &v); err != nil { panic(err) }; return v }
func veval(t *testing.T, expr, doc string) string {
	p, err := Compile(expr)
	if err != nil { t.Fatalf("compile %s: %v", expr, err) }
	r, err := p.Eval(vdoc(doc))
	if err != nil { return "error" }
	return fmt.Sprint(r)
}
func vwant(t *testing.T, expr, doc, want string) { t.Helper(); if got := veval(t, expr, doc); got != want { t.Errorf("%s on %s: got %s, want %s", expr, doc, got, want) } }
var _ = json.Marshal
var _ = runtime.NumGoroutine
var _ = time.Now
var _ = fmt.Sprint
'''
R='mach/run.go'; J='mach/json.go'; F='mach/fns.go'; C='mach/coder.go'; P='mach/program.go'

seed('b-c02-revslice-end','C02',[(R,'''		case start >= l:
			start = l - 1
		case start < 0:''','''		case start > l:
			start = l - 1
		case start < 0:''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[3::-1]", "[1,2,3]", "[3 2 1]") }''',
 'a slice with a negative stride whose start equals the length of the array','index out of range panic in Eval')
seed('b-c02-in-fast-path','C02',[(J,'''		if eqVal(el, v) {
			return f''','''		if el == v || eqVal(el, v) {
			return f''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?([1] in @.a)]", `[{"a":[[2],[1]]}]`, "[map[a:[[2] [1]]]]") }''',
 'in or nin where the value and an element are both arrays (or both objects)','comparing uncomparable values panics in Eval')
seed('b-c02-div-false','C02',[(R,'''	bi := cvi(b)
	if bi == 0 {
		return nothing
	}
	return intf(cvi(a), bi)''','''	if n, ok := b.(int64); ok && n == 0 {
		return nothing
	}
	return intf(cvi(a), cvi(b))''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(7 % @.b)]", `[{"b":false},{"b":true}]`, "[]") }''',
 'an integer divided by a member that is false','integer division by zero panics in Eval')
seed('b-c03-wild-alias','C03',[(R,'''	case []JSON:
		for _, el := range src {
			//fmt.Printf("el: %#v\\n", el)
			vals = append(vals, el)
		}
	case map[string]JSON:
		for _, v := range src {
			vals = append(vals, v)''','''	case []JSON:
		if len(vals) == 0 {
			// nothing to keep
			return src
		}
		for _, el := range src {
			//fmt.Printf("el: %#v\\n", el)
			vals = append(vals, el)
		}
	case map[string]JSON:
		for _, v := range src {
			vals = append(vals, v)''')],H+'''func TestVerifDemo(t *testing.T) {
	a := make([]interface{}, 2, 8)
	a[0], a[1] = 1.0, []interface{}{5.0, 6.0}
	d := []interface{}{a, []interface{}{7.0}}
	r, err := MustCompile("$[*][*]").Eval(d)
	if err != nil { t.Fatal(err) }
	if fmt.Sprint(r) != "[1 [5 6] 7]" { t.Errorf("got %v", r) }
	if x := a[:3][2]; x != nil { t.Errorf("spare capacity of the document overwritten: %v", x) }
}''','a wildcard on several arrays, the first with spare capacity','appends to an array of the document')
seed('b-c03-prod-inplace','C03',[(F,'''	for i, v := range a {
		if !isArith(v) {
			return ErrType
		}
		result = f(i, result, cvf(v))
	}
	return result''','''	for i, v := range a {
		if !isArith(v) {
			return ErrType
		}
		if !isFloat(v) {
			a[i] = cvf(v) // all the same type
		}
		result = f(i, result, cvf(v))
	}
	return result''')],H+'''func TestVerifDemo(t *testing.T) {
	d := vdoc(`{"a":[true,2,false]}`)
	if _, err := MustCompile("$[(sum($.a))]").Eval(d); err != nil { t.Fatal(err) }
	if fmt.Sprint(d) != "map[a:[true 2 false]]" { t.Errorf("document changed: %v", d) }
}''','sum, prod, min or max of an array of the document that contains booleans','elements of the document are overwritten')
seed('b-c04-reuse-out','C04',[(R,'''	go producer(values, vm.out)
	vm.out = []JSON{}
	var more bool''','''	go producer(values, vm.out)
	if len(vm.out) > 1 {
		vm.out = vm.out[:0] // reuse
	} else {
		vm.out = []JSON{}
	}
	var more bool''')],H+'''func TestVerifDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		vwant(t, "$[*][?(@>0)]", "[[1,5],[2],[3]]", "[1 5 2 3]")
	}
}''','a filter on a current set of two or more values: the producer reads the slice being overwritten','storage shared with the producer goroutine is written: data race',race=True)
seed('b-c04-shared-stack','C04',[(P,'''	orders []order     // program text
''','''	orders []order     // program text
	stack  []JSON      // expression stack, allocated once
'''),(R,'''	vm := &machine{prog: p, root: root,''','''	if p.stack == nil {
		p.stack = make([]JSON, 16)
	}
	vm := &machine{prog: p, root: root, stack: p.stack,''')],H+'''func TestVerifDemo(t *testing.T) {
	p := MustCompile("$[?(@.a+@.b==@.c)]")
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		g := float64(g)
		go func() {
			d := []interface{}{map[string]interface{}{"a": g, "b": 1.0, "c": g + 1}}
			for i := 0; i < 3000; i++ {
				r, err := p.Eval(d)
				if err != nil || len(r) != 1 { t.Errorf("got %v %v", r, err); break }
			}
			done <- true
		}()
	}
	for g := 0; g < 4; g++ { <-done }
}''','one compiled path evaluated by several goroutines at once','the expression stack is kept in the compiled path',race=True)
seed('b-c05-nest-union-slice','C05',[(R,'''			for _, sel := range sels {
				if !isNothing(sel) {
					vm.out = valsByKey(vm.out, vm.dot, sel, true)
				}
			}''','''			for _, sel := range sels {
				if s, ok := sel.(*paths.Slice); ok {
					if a, ok := vm.dot.([]JSON); ok {
						vm.out = append(vm.out, slicing(a, s))
					}
				} else if !isNothing(sel) {
					vm.out = valsByKey(vm.out, vm.dot, sel, true)
				}
			}''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$..[0,1:]", "[1,2,3]", "[1 2 3]") }''',
 'a recursive descent with a union that contains a slice','an array made by the evaluation appears among the results')
seed('b-c06-slice-alias','C06',[(R,'''		start, end, stride := sliceEval(slice, int64(len(src)))
		switch {
		case stride > 0:
			for i''','''		start, end, stride := sliceEval(slice, int64(len(src)))
		switch {
		case stride == 1 && len(vals) == 0 && start < end:
			// contiguous: no need to collect them one by one
			return src[start:end:end]
		case stride > 0:
			for i''')],H+'''func TestVerifDemo(t *testing.T) {
	d := vdoc("[1,2,3]")
	r, err := MustCompile("$[1:3]").Eval(d)
	if err != nil || fmt.Sprint(r) != "[2 3]" { t.Fatal(r, err) }
	r[0] = "x"
	if fmt.Sprint(d) != "[1 2 3]" { t.Errorf("document changed through the results: %v", d) }
}''','the last step is a slice with stride 1, and the caller writes to the results','the results share storage with the document')
seed('b-c08-nil-values','C08',[(R,'''			result, err := call(id.S(), args[1:])
			if err != nil {
				return nil, err
			}''','''			result, err := call(id.S(), args[1:])
			if err != nil {
				vm.popInput()
				return nil, err
			}''')],H+'''
func TestVerifDemo(t *testing.T) {
	p := MustCompile("$[?(nosuch(@))]")
	d := vdoc("[1,2,3]")
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ { if _, err := p.Eval(d); err == nil { t.Fatal("no error") } }
	time.Sleep(200*time.Millisecond)
	if m := runtime.NumGoroutine(); m > n+5 { t.Errorf("%d goroutines, then %d", n, m) }
}''','a call of an unknown function in a filter, with candidates still to come','the producer stays blocked for ever')
seed('b-c08-walker-return','C08',[(R,'''	defer close(values)
	for _, v := range vals {
		if IsStructure(v) {
			walkdown(values, v)
		}
	}
}''','''	for _, v := range vals {
		if IsStructure(v) {
			walkdown(values, v)
		} else if v == nil {
			return
		}
	}
	close(values)
}''')],H+'''
func TestVerifDemo(t *testing.T) {
	p := MustCompile("$[*]..a")
	d := vdoc(`[{"a":1},null]`)
	done := make(chan string)
	go func() { r, err := p.Eval(d); done <- fmt.Sprint(r, err) }()
	select {
	case s := <-done:
		if s != "[1] <nil>" { t.Error(s) }
	case <-time.After(5*time.Second):
		t.Fatal("Eval never returns")
	}
}''','a recursive descent whose current values include null','the channel is never closed: Eval waits for ever')
seed('b-c12-match-stack','C12',[(R,'''			b := vm.pop()
			a := vm.pop()
			if !vm.valsOK(a, b) {
				break
			}
			var err error
			var re''','''			b := vm.pop()
			a := vm.pop()
			if !vm.valOK(a) || !vm.valOK(b) {
				vm.push(nothing)
				break
			}
			var err error
			var re''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(length([7, @.a =~ /x/])==2 && 7 in [7, 8, @.a =~ /x/])]", `[{"b":1}]`, "[map[b:1]]") }''',
 'a match on a missing member inside an array literal or the arguments of a call','an operand is left on the stack and later operations take the wrong operands')
seed('b-c14-int-div-float','C14',[(R,'''	if isFloat(a) || isFloat(b) {
		bf := cvf(b)''','''	if isFloat(a) {
		bf := cvf(b)''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(5/@.b==2)]", `[{"b":2.5}]`, "[map[b:2.5]]"); vwant(t, "$[?(5/@.b==10)]", `[{"b":0.5}]`, "[map[b:0.5]]") }''',
 'an integer literal divided by a fractional member','integer division where floating-point division is required')
seed('b-c14-mod-remainder','C14',[(R,'return math.Mod(x, y)','return math.Remainder(x, y)')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(@.b%4==3)]", `[{"b":7}]`, "[map[b:7]]") }''',
 'floating-point modulus whose IEEE remainder is negative','% gives another result')
seed('b-c15-int-as-float','C15',[(R,'''	//fmt.Printf("REL1 %#v %#v\\n", cvi(a), cvi(b))
	return intf(cvi(a), cvi(b))''','''	//fmt.Printf("REL1 %#v %#v\\n", cvi(a), cvi(b))
	if isInt(a) != isInt(b) {
		return intf(cvi(a), cvi(b))
	}
	return floatf(cvf(a), cvf(b))''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(9007199254740992<9007199254740993)]", `[1]`, "[1]") }''',
 'two integers beyond 2^53 that differ by one','integers compared as floating-point')
seed('b-c15-bool-string','C15',[(R,'''		if !(isString(a) && isString(b)) {
			return false
		}''','''		if !(isString(a) && isString(b)) && !isBool(a) {
			return false
		}'''),(J,'''// isInt returns true''','''// isBool returns true if v is a bool.
func isBool(v JSON) bool {
	_, ok := v.(bool)
	return ok
}

// isInt returns true''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(@.a<@.b)]", `[{"a":false,"b":"zz"}]`, "[]") }''',
 'a boolean on the left compared with a string on the right','compared as strings instead of false')
seed('b-c16-int-as-float','C16',[(J,'''	case Number:
		return eqNum(a, b)
	case String:''','''	case Number:
		return cvf(a) == cvf(b)
	case String:''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(9007199254740992==9007199254740993)]", `[1]`, "[]") }''',
 'two integers beyond 2^53 that differ by one','integers compared as floating-point')
seed('b-c16-map-subset','C16',[(J,'''			b, ok := b.(map[string]JSON)
			if !ok || len(a) != len(b) {''','''			b, ok := b.(map[string]JSON)
			if !ok {''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(@.a==@.b)]", `[{"a":{"x":1},"b":{"x":1,"y":2}}]`, "[]") }''',
 'two objects, the left with a proper subset of the members of the right','objects with different members are equal, in one order only')
seed('b-c17-nan','C17',[(J,'''		return !math.IsNaN(v) && v != 0.0 && v != -zero''','''		return v != 0.0 && v != -zero''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(avg(@.a))]", `[{"a":[]}]`, "[]") }''',
 'a filter whose value is NaN','NaN is truthy')
seed('b-c17-neg-int','C17',[(J,'''	case int64:
		return v != 0
	case float64:
		var zero''','''	case int64:
		return v > 0
	case float64:
		var zero''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(length(@.a)-5)]", `[{"a":[]}]`, "[map[a:[]]]") }''',
 'a filter whose value is a negative integer','a negative integer is falsy')
seed('b-c17-nest-filter','C17',[(R,'''			if !isNothing(v) && cvb(v) {
				vm.out''','''			if !isNothing(v) && (cvb(v) || ord.op() == paths.OpNestFilter && v != nil && v != false) {
				vm.out''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$..[?(@.a)]", `[{"a":0},{"a":1},{"a":""}]`, "[map[a:1]]") }''',
 'a filter after .. whose value is zero, NaN or an empty string','kept although the value is falsy')
seed('b-c21-length-bytes','C21',[(F,'return int64(utf8.RuneCountInString(a))','return int64(len(a))'),(F,'''	"strings"
	"unicode/utf8"
''','''	"strings"
''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(length(@)==2)]", `["h\\u00e9"]`, "[h\u00e9]") }''',
 'length of a string with non-ASCII characters','bytes counted instead of characters')
seed('b-c21-contains-cvs','C21',[(F,'if eqVal(v, args[1]) {','if cvs(v) == cvs(args[1]) {')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(contains(@,'null'))]", `[[null]]`, "[]"); vwant(t, "$[?(contains(@.a,@.b))]", `[{"a":[{}],"b":{"x":1}}]`, "[]") }''',
 'contains on an array with null, booleans, arrays or objects','compares string forms, not values')
