R='mach/run.go'; J='mach/json.go'; F='mach/fns.go'; C='mach/coder.go'; P='mach/program.go'
benign('r-pop2',(R,'''func (m *machine) popN(''','''// pop2 pops a pair of operands, in source order.
func (m *machine) pop2() (JSON, JSON) {
	b := m.pop()
	a := m.pop()
	return a, b
}

func (m *machine) popN('''),(R,'''			b := vm.pop()
			a := vm.pop()
			if isNothing(a) && isNothing(b) {''','''			a, b := vm.pop2()
			if isNothing(a) && isNothing(b) {'''),(R,'''			b := vm.pop()
			a := vm.pop()
			vm.push(eqVal(a, b))''','''			a, b := vm.pop2()
			vm.push(eqVal(a, b))'''),(R,'''			b := vm.pop()
			a := vm.pop()
			vm.push(!eqVal(a, b))''','''			a, b := vm.pop2()
			eq := eqVal(a, b)
			vm.push(!eq)'''),(R,'''			b := vm.pop()
			a := vm.pop()
			if !vm.valsOK(a, b) {
				break
			}
			vm.push(arith(a, b, func(i, j int64) int64 { return i + j }, func(x, y float64) float64 { return x + y }))''','''			a, b := vm.pop2()
			if isNothing(a) || isNothing(b) {
				vm.push(nothing)
				break
			}
			addi := func(i, j int64) int64 { return j + i }
			addf := func(x, y float64) float64 { return x + y }
			vm.push(arith(a, b, addi, addf))'''))
benign('r-valswild',(R,'''		for _, el := range src {
			//fmt.Printf("el: %#v\\n", el)
			vals = append(vals, el)
		}
	case map[string]JSON:
		for _, v := range src {
			vals = append(vals, v)
		}
	}
	return vals''','''		return append(vals, src...)
	case map[string]JSON:
		for k := range src {
			vals = append(vals, src[k])
		}
	}
	return vals'''),(R,'''	vals := []JSON{}
	for _, el := range src {
		vals = f(el, vals)
	}
	return vals
}

// looptop''','''	vals := make([]JSON, 0, len(src))
	for i := 0; i < len(src); i++ {
		vals = f(src[i], vals)
	}
	return vals
}

// looptop'''))
benign('r-walk',(R,'''	values <- val
	switch val := val.(type) {
	case map[string]JSON:
		// note object members, and walk down from each member that's an array or object
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
	case []JSON:
		// elements
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
	default:
		// bool, float64, string or nil
	}''','''	if !IsStructure(val) {
		return
	}
	values <- val
	if obj, ok := val.(map[string]JSON); ok {
		for k := range obj {
			walkdown(values, obj[k])
		}
		return
	}
	arr := val.([]JSON)
	for i := 0; i < len(arr); i++ {
		walkdown(values, arr[i])
	}'''),(R,'''	defer close(values)
	for _, v := range vals {
		if IsStructure(v) {
			walkdown(values, v)
		}
	}''','''	for i := range vals {
		walkdown(values, vals[i])
	}
	close(values)'''),(R,'''		case []JSON:
			for _, el := range v {
				values <- el
			}
		case map[string]JSON:
			for _, el := range v {
				values <- el
			}
		}''','''		case map[string]JSON:
			for _, el := range v {
				values <- el
			}
		case []JSON:
			for i := 0; i != len(v); i++ {
				values <- v[i]
			}
		}'''))
benign('r-slice',(R,'''	// items [start, end) in the usual way
	switch {
	case start > l:
		start = l
	case start < 0:
		// distance from end of the array (-1 is last item)
		start += l
		if start < 0 {
			start = 0
		}
	}
	switch {
	case end > l:
		end = l
	case end < 0:
		end += l
		if end < 0 {
			end = 0
		}
	}
	return start, end, stride''','''	// items [start, end) in the usual way
	return clamp(start, l), clamp(end, l), stride'''),(R,'''// arith decides''','''// clamp returns n as an offset in an array of length l, n being a distance from its end if negative.
func clamp(n, l int64) int64 {
	if n < 0 {
		n += l
	}
	if n < 0 {
		return 0
	}
	if n > l {
		return l
	}
	return n
}

// arith decides'''),(R,'''		switch {
		case stride > 0:
			for i := start; i < end; i += stride {
				vals = append(vals, src[i])
			}
		case stride < 0:
			for i := start; i > end; i += stride {
				vals = append(vals, src[i])
			}
		case stride == 0:
			// could yield an error, but in the spirit of jsonPath, we'll do nothing
		}
		return vals''','''		if stride == 0 {
			// could yield an error, but in the spirit of jsonPath, we'll do nothing
			return vals
		}
		for i := start; stride > 0 && i < end || stride < 0 && i > end; i += stride {
			vals = append(vals, src[i])
		}
		return vals'''))
benign('r-eqval',(J,'''		switch a := a.(type) {
		case []JSON:
			b, ok := b.([]JSON)
			if !ok || len(a) != len(b) {
				return false
			}
			for i, ea := range a {
				if !eqVal(ea, b[i]) {
					return false
				}
			}
			return true
		case map[string]JSON:
			b, ok := b.(map[string]JSON)
			if !ok || len(a) != len(b) {
				return false
			}
			for k, v := range a {
				w, ok := b[k]
				if !ok || !eqVal(v, w) {
					return false
				}
			}
			return true
		default:
			return false
		}
	}
}
''','''		if a, ok := a.([]JSON); ok {
			b, ok := b.([]JSON)
			return ok && eqArray(a, b)
		}
		if a, ok := a.(map[string]JSON); ok {
			b, ok := b.(map[string]JSON)
			return ok && eqObject(a, b)
		}
		return false
	}
}

func eqArray(a, b []JSON) bool {
	if len(a) != len(b) {
		return false
	}
	for i := len(a) - 1; i >= 0; i-- {
		if !eqVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func eqObject(a, b map[string]JSON) bool {
	if len(b) != len(a) {
		return false
	}
	same := true
	for k, v := range a {
		w, ok := b[k]
		same = same && ok && eqVal(v, w)
	}
	return same
}
'''),(J,'''	for _, el := range vals {
		if eqVal(el, v) {
			return f
		}
	}
	return !f''','''	found := false
	for i := 0; i < len(vals) && !found; i++ {
		found = eqVal(vals[i], v)
	}
	return found == f'''))
benign('r-stack',(R,'''	if m.sp >= len(m.stack) {
		m.stack = append(m.stack, val)
		m.sp = len(m.stack)
	} else {
		m.stack[m.sp] = val
		m.sp++
	}''','''	m.stack = append(m.stack[:m.sp], val)
	m.sp++'''),(R,'''	esp := m.sp
	m.sp -= int(n)
	a := make([]JSON, n)
	copy(a, m.stack[m.sp:esp])
	for i := m.sp; i < esp; i++ {
		m.stack[i] = nil
	}
	return a''','''	a := make([]JSON, n)
	for i := len(a) - 1; i >= 0; i-- {
		a[i] = m.pop()
	}
	return a'''))
benign('r-stack2',(R,'''	stack   []JSON        // expression stack
	sp      int           // expression stack pointer
''','''	stack   []JSON        // expression stack
'''),(R,'''	if m.sp >= len(m.stack) {
		m.stack = append(m.stack, val)
		m.sp = len(m.stack)
	} else {
		m.stack[m.sp] = val
		m.sp++
	}''','''	m.stack = append(m.stack, val)'''),(R,'''	if m.sp == 0 {
		panic("stack underflow")
	}
	m.sp--
	v := m.stack[m.sp]
	m.stack[m.sp] = nil
	return v''','''	top := len(m.stack) - 1
	if top < 0 {
		panic("stack underflow")
	}
	v := m.stack[top]
	m.stack = m.stack[:top]
	return v'''),(R,'''	if int64(m.sp) < n {
		panic("stack underflow")
	}
	esp := m.sp
	m.sp -= int(n)
	a := make([]JSON, n)
	copy(a, m.stack[m.sp:esp])
	for i := m.sp; i < esp; i++ {
		m.stack[i] = nil
	}
	return a''','''	sp := len(m.stack) - int(n)
	if sp < 0 {
		panic("stack underflow")
	}
	a := append([]JSON{}, m.stack[sp:]...)
	m.stack = m.stack[:sp]
	return a'''),(R,'''			for i := 0; i < vm.sp; i++ {''','''			for i := 0; i < len(vm.stack); i++ {'''))
benign('r-fns',(F,'''			if a, ok := args[0].([]JSON); ok {
				var sum float64
				for _, v := range a {
					if !isArith(v) {
						return ErrType
					}
					sum += cvf(v)
				}
				return sum / float64(len(a))
			}
			return ErrType''','''			a, ok := args[0].([]JSON)
			if !ok {
				return ErrType
			}
			var sum float64
			n := 0
			for n < len(a) {
				if !isArith(a[n]) {
					return ErrType
				}
				sum += cvf(a[n])
				n++
			}
			return sum / float64(n)'''),(F,'''	if len(args) != 2 {
		return "", "", false
	}
	var a, b string
	switch s := args[0].(type) {
	case string:
		a = s
	default:
		return "", "", false
	}
	switch s := args[1].(type) {
	case string:
		b = s
	default:
		return "", "", false
	}
	return a, b, true''','''	if len(args) == 2 {
		a, ok1 := args[0].(string)
		b, ok2 := args[1].(string)
		if ok1 && ok2 {
			return a, b, true
		}
	}
	return "", "", false'''),(F,'''				for _, v := range a {
					if eqVal(v, args[1]) {
						return true
					}
				}
				return false''','''				return searchJSON(a, args[1], true)'''))
benign('r-coder',(C,'''	for _, step := range path {
		if step.Op.IsLeaf() && step.Op.HasVal() {
			// leaf carries a value index
			err := b.codeVal(step.Op, step.Args[0])
			if err != nil {
				return nil, err
			}
			continue
		}
		switch step.Op {
		case paths.OpNestMember, paths.OpNestFilter, paths.OpNestSelect, paths.OpNestUnion, paths.OpNestWild:
			err := b.codeLoop(step, paths.OpNest)
			if err != nil {
				return nil, err
			}
		case paths.OpFilter:
			err := b.codeLoop(step, paths.OpFor)
			if err != nil {
				return nil, err
			}
		default:
			// general case
			_, err := b.codeStep(step)
			if err != nil {
				return nil, err
			}
		}
	}
	return prog, nil
}
''','''	for i := range path {
		if err := b.step(path[i]); err != nil {
			return nil, err
		}
	}
	return prog, nil
}

// step compiles one step of a path.
func (b *builder) step(step *paths.Step) error {
	if step.Op.IsLeaf() && step.Op.HasVal() {
		// leaf carries a value index
		return b.codeVal(step.Op, step.Args[0])
	}
	if step.Op == paths.OpFilter {
		return b.codeLoop(step, paths.OpFor)
	}
	switch step.Op {
	case paths.OpNestMember, paths.OpNestFilter, paths.OpNestSelect, paths.OpNestUnion, paths.OpNestWild:
		return b.codeLoop(step, paths.OpNest)
	}
	_, err := b.codeStep(step)
	return err
}
'''),(C,'''	i, ok := b.vals[val]
	if ok {
		return i, nil
	}
	o := b.prog.data(val)
	if o >= indexTop {
		// more then 8m
		return 0, ErrTooManyVals
	}
	b.vals[val] = o
	return o, nil''','''	o, ok := b.vals[val]
	if !ok {
		o = b.prog.data(val)
		if o >= indexTop {
			// more then 8m
			return 0, ErrTooManyVals
		}
		b.vals[val] = o
	}
	return o, nil'''))
benign('r-generic',(J,'''	_, ok := v.(string)
	return ok
}

// isInt''','''	return isA[string](v)
}

func isA[T any](v JSON) bool {
	_, ok := v.(T)
	return ok
}

// isInt'''),(J,'''	_, ok := v.(float64)
	return ok''','''	return isA[float64](v)'''),(J,'''	_, ok := v.(*paths.Slice)
	return ok''','''	return isA[*paths.Slice](v)'''),(J,'''	switch v.(type) {
	case int, int64, float64:
		return true
	case bool:
		return true // surprise!
	default:
		return false
	}''','''	return isInt(v) || isFloat(v) || isA[bool](v)'''))
benign('r-typetable',(J,'''	switch v.(type) {
	case error:
		return Undefined
	case nil:
		return Null
	case int, int64, float64:
		return Number
	case string:
		return String
	case bool:
		return Boolean
	default:
		return Object
	}''','''	if v == nil {
		return Null
	}
	if isInt(v) || isFloat(v) {
		return Number
	}
	if isString(v) {
		return String
	}
	if _, ok := v.(bool); ok {
		return Boolean
	}
	if isNothing(v) {
		return Undefined
	}
	return Object'''),(J,'''	if s == "" {
		return false
	}
	if !fp {
		_, err := strconv.ParseInt(s, 10, 64)
		if err == nil {
			return false
		}
	}
	_, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return true
	}
	return false''','''	if len(s) == 0 {
		return false
	}
	if !fp {
		if _, err := strconv.ParseInt(s, 10, 64); err == nil {
			return false
		}
	}
	_, err := strconv.ParseFloat(s, 64)
	return err != nil'''))
benign('r-run-ops',(R,'''		case paths.OpLT:
			b := vm.pop()
			a := vm.pop()
			vm.push(relation(a, b, func(i, j int64) bool { return i < j },
				func(x, y float64) bool { return x < y }, func(s, t string) bool { return s < t }))''','''		case paths.OpLT:
			b, a := vm.pop(), vm.pop()
			vm.push(relation(b, a, func(i, j int64) bool { return i > j },
				func(x, y float64) bool { return x > y }, func(s, t string) bool { return strings.Compare(s, t) > 0 }))'''),(R,'''	"regexp"
	"unicode/utf8"
''','''	"regexp"
	"strings"
	"unicode/utf8"
'''),(R,'''			a := vm.pop()
			if isNothing(a) || !cvb(a) {
				vm.push(a)
				break
			}
			vm.push(b)''','''			a := vm.pop()
			if cvb(a) {
				a = b
			}
			vm.push(a)'''),(R,'''			switch v.(type) {
			case float64:
				vm.push(-v.(float64))
			default:
				vm.push(-cvi(v))
			}''','''			if f, ok := v.(float64); ok {
				vm.push(-f)
			} else {
				vm.push(0 - cvi(v))
			}'''),(R,'''	fn := functions[id]
	if fn.fn == nil {''','''	fn, ok := functions[id]
	if !ok {'''))
benign('r-applysel',(R,'''			vm.out = applySelection(vm.out, func(val JSON, acc []JSON) []JSON {
				return valsByKey(acc, val, sel, negIndex)
			})''','''			acc := []JSON{}
			for _, val := range vm.out {
				acc = valsByKey(acc, val, sel, negIndex)
			}
			vm.out = acc'''),(R,'''			vm.out = applySelection(vm.out, func(val JSON, acc []JSON) []JSON {
				for _, sel := range sels {
					if !isNothing(sel) {
						acc = valsByKey(acc, val, sel, true)
					}
				}
				return acc
			})''','''			vm.out = applySelection(vm.out, func(val JSON, acc []JSON) []JSON {
				return valsByKeys(acc, val, sels)
			})'''),(R,'''			for _, sel := range sels {
				if !isNothing(sel) {
					vm.out = valsByKey(vm.out, vm.dot, sel, true)
				}
			}''','''			vm.out = valsByKeys(vm.out, vm.dot, sels)'''),(R,'''// keyVal converts''','''// valsByKeys adds the values selected by each of keys, except those that are nothing.
func valsByKeys(vals []JSON, src JSON, keys []JSON) []JSON {
	for _, key := range keys {
		if isNothing(key) {
			continue
		}
		vals = valsByKey(vals, src, key, true)
	}
	return vals
}

// keyVal converts'''))
benign('r-loop',(R,'''	values := make(chan JSON)
	vm.pushInput(values)
	go producer(values, vm.out)
	vm.out = []JSON{}
	var more bool
	vm.dot, more = <-values
	if !more {''','''	src := vm.out
	vm.out = []JSON{}
	values := make(chan JSON, 4)
	go func() {
		producer(values, src)
	}()
	vm.pushInput(values)
	val, more := <-values
	vm.dot = val
	if !more {'''),(R,'''			js, more := <-vm.topInput()
			if !more {
				//fmt.Printf("rep: all done\\n")
				vm.popInput()
				vm.dot = nil
				break
			}
			vm.dot = js
			//fmt.Printf("rep: next: %v\\n", vm.dot)
			vm.branch(ord.pc())''','''			if js, more := <-vm.topInput(); more {
				vm.dot = js
				vm.branch(ord.pc())
			} else {
				vm.dot = nil
				vm.popInput()
			}'''))
