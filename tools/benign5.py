R='mach/run.go'; J='mach/json.go'; F='mach/fns.go'; C='mach/coder.go'; JC='cmd/jpath/jpath.go'
benign('n-looptop',(R,'''	go producer(values, vm.out)
	vm.out = []JSON{}
	var more bool
	vm.dot, more = <-values
	if !more {
		// nothing to iterate over
		vm.popInput()
		vm.branch(epc)
	}
}''','''	out := vm.out
	go func() {
		producer(values, out)
	}()
	vm.out = make([]JSON, 0)
	if !vm.next(values) {
		// nothing to iterate over
		vm.branch(epc)
	}
}

// next takes the next value from the innermost producer.
func (m *machine) next(values <-chan JSON) bool {
	v, more := <-values
	if !more {
		m.popInput()
		m.dot = nil
		return false
	}
	m.dot = v
	return true
}'''),(R,'''			js, more := <-vm.topInput()
			if !more {
				//fmt.Printf("rep: all done\\n")
				vm.popInput()
				vm.dot = nil
				break
			}
			vm.dot = js
			//fmt.Printf("rep: next: %v\\n", vm.dot)
			vm.branch(ord.pc())
''','''			if vm.next(vm.topInput()) {
				vm.branch(ord.pc())
			}
'''))
benign('n-length',(R,'''				n := -1
				switch val := val.(type) {
				case []JSON:
					n = len(val)
				case map[string]JSON:
					n = len(val)
				case string:
					n = utf8.RuneCountInString(val)
				}
				if n < 0 {
					//fmt.Printf(".length of non-array/object: %#v\\n", val)
					vm.push(nothing)
					break
				}
				vm.push(int64(n))
				break
''','''				if n, ok := lengthOf(val); ok {
					vm.push(int64(n))
				} else {
					vm.push(nothing)
				}
				break
'''),(R,'''// call invokes function''','''// lengthOf gives the length of an array, object or string.
func lengthOf(val JSON) (int, bool) {
	switch val := val.(type) {
	case []JSON:
		return len(val), true
	case map[string]JSON:
		return len(val), true
	case string:
		return utf8.RuneCountInString(val), true
	}
	return 0, false
}

// call invokes function'''))
benign('n-index',(R,'''			switch val := val.(type) {
			case []JSON:
				sel := cvi(index) // can be only int, or convertible
				l := int64(len(val))
				if sel < 0 {
					// index from end: not JavaScript but path/filter convention
					sel += l
				}
				//fmt.Printf("index=%#v\\n", sel)
				if sel < 0 || sel >= int64(len(val)) {
					vm.push(nothing)
					break
				}
				vm.push(val[sel])
			case map[string]JSON:
				// handles both JSON objects and arrays
				res, ok := valByKey(val, index, true)
				if !ok {
					vm.push(nothing)
					break
				}
				vm.push(res)
			default:
				//fmt.Printf("index of %#v by %#v\\n", val, index)
				vm.push(nothing)
			}
''','''			res, ok := JSON(nil), false
			switch val.(type) {
			case []JSON, map[string]JSON:
				res, ok = valByKey(val, index, true)
			}
			if !ok {
				res = nothing
			}
			vm.push(res)
'''))
benign('n-call',(R,'''	fn := functions[id]
	if fn.fn == nil {
		return nil, fmt.Errorf("call of unknown function: %s", id)
	}
	if fn.na != AnyNumber && len(args) != fn.na {
		return nil, fmt.Errorf("%s: wrong argument count: need %d, got %d", id, fn.na, len(args))
	}
	return fn.fn(args), nil
''','''	fn, ok := functions[id]
	if !ok {
		return nil, fmt.Errorf("call of unknown function: %s", id)
	}
	if n := len(args); fn.na == n || fn.na == AnyNumber {
		return fn.fn(args), nil
	}
	return nil, fmt.Errorf("%s: wrong argument count: need %d, got %d", id, fn.na, len(args))
'''))
benign('n-match',(R,'''			var err error
			var re *regexp.Regexp
			switch b := b.(type) {
			case *regexp.Regexp:
				// already compiled
				re = b
			case string:
				// dynamic string value, to be compiled now
				re, err = regexp.Compile(b)
				if err != nil {
					return nil, err // user visible so don't include pc
				}
			default:
				return nil, fmt.Errorf("%s requires string or /re/ right operand, not %#v", ord.op(), b)
			}
			switch s := a.(type) {
			case string:
				vm.push(re.MatchString(s))
			default:
				return nil, fmt.Errorf("%s requires string left operand, not %s", ord.op(), a)
			}
''','''			re, err := matcher(ord.op(), b)
			if err != nil {
				return nil, err // user visible so don't include pc
			}
			s, ok := a.(string)
			if !ok {
				return nil, fmt.Errorf("%s requires string left operand, not %s", ord.op(), a)
			}
			vm.push(re.MatchString(s))
'''),(R,'''// call invokes function''','''// matcher gives the regular expression to match.
func matcher(op paths.Op, v JSON) (*regexp.Regexp, error) {
	if re, ok := v.(*regexp.Regexp); ok {
		// already compiled
		return re, nil
	}
	if s, ok := v.(string); ok {
		return regexp.Compile(s)
	}
	return nil, fmt.Errorf("%s requires string or /re/ right operand, not %#v", op, v)
}

// call invokes function'''))
benign('n-clamp',(R,'''	// items [start, end) in the usual way
	switch {
	case start > l:
		start = l
	case start < 0:
		// distance from end of the array (-1 is last item)
		start += l
		if start < 0 {
			start = 0
		}
	}
	switch {
	case end > l:
		end = l
	case end < 0:
		end += l
		if end < 0 {
			end = 0
		}
	}
	return start, end, stride
}''','''	// items [start, end) in the usual way
	return clamp(start, l), clamp(end, l), stride
}

// clamp moves a bound into an array of length l.
func clamp(n, l int64) int64 {
	if n < 0 {
		// distance from end of the array (-1 is last item)
		n += l
	}
	if n < 0 {
		return 0
	}
	if n > l {
		return l
	}
	return n
}'''))
benign('n-slice-count',(R,'''		switch {
		case stride > 0:
			for i := start; i < end; i += stride {
				vals = append(vals, src[i])
			}
		case stride < 0:
			for i := start; i > end; i += stride {
				vals = append(vals, src[i])
			}
		case stride == 0:
			// could yield an error, but in the spirit of jsonPath, we'll do nothing
		}
		return vals
''','''		if stride == 0 {
			// could yield an error, but in the spirit of jsonPath, we'll do nothing
			return vals
		}
		for i := start; stride > 0 && i < end || stride < 0 && i > end; i += stride {
			vals = append(vals, src[i])
		}
		return vals
'''))
benign('n-walkdown',(R,'''	case map[string]JSON:
		// note object members, and walk down from each member that's an array or object
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
	case []JSON:
		// elements
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
	default:
		// bool, float64, string or nil
	}
''','''	case map[string]JSON:
		for _, v := range val {
			walkStruct(values, v)
		}
	case []JSON:
		for i := range val {
			walkStruct(values, val[i])
		}
	}
'''),(R,'''	for _, v := range vals {
		if IsStructure(v) {
			walkdown(values, v)
		}
	}
}
''','''	for _, v := range vals {
		walkStruct(values, v)
	}
}

// walkStruct walks down an array or object.
func walkStruct(values chan<- JSON, v JSON) {
	if !IsStructure(v) {
		return
	}
	walkdown(values, v)
}
'''))
benign('n-eqlist',(J,'''			b, ok := b.([]JSON)
			if !ok || len(a) != len(b) {
				return false
			}
			for i, ea := range a {
				if !eqVal(ea, b[i]) {
					return false
				}
			}
			return true
		case map[string]JSON:
			b, ok := b.(map[string]JSON)
			if !ok || len(a) != len(b) {
				return false
			}
			for k, v := range a {
				w, ok := b[k]
				if !ok || !eqVal(v, w) {
					return false
				}
			}
			return true
''','''			b, ok := b.([]JSON)
			return ok && eqList(a, b)
		case map[string]JSON:
			b, ok := b.(map[string]JSON)
			return ok && eqMap(a, b)
'''),(J,'''// searchJSON searches''','''func eqList(a, b []JSON) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if !eqVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func eqMap(a, b map[string]JSON) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for k, w := range b {
		v, ok := a[k]
		same = same && ok && eqVal(v, w)
	}
	return same
}

// searchJSON searches'''))
benign('n-search',(J,'''	for _, el := range vals {
		if eqVal(el, v) {
			return f
		}
	}
	return !f
''','''	found := false
	for i := 0; i < len(vals) && !found; i++ {
		found = eqVal(vals[i], v)
	}
	return found == f
'''))
benign('n-jpath-run',(JC,'''	if flag.NArg() > 1 {
		for _, file := range flag.Args()[1:] {
			fd, err := os.Open(file)
			if err != nil {
				errorf("%s: cannot open: %s", file, err.Error())
			}
			err = reader(fd, jpath, enc)
			fd.Close()
			if err != nil {
				errorf("%s:%s", file, err.Error())
			}
		}
	} else {
		err = reader(os.Stdin, jpath, enc)
		if err != nil {
			errorf("%s", err.Error())
		}
	}
	err = stdout.Flush()
	if err != nil {
		errorf("write error: %s", err.Error())
	}
}
''','''	if err := process(flag.Args()[1:], func(fd *os.File) error { return reader(fd, jpath, enc) }); err != nil {
		errorf("%s", err.Error())
	}
	if err := stdout.Flush(); err != nil {
		errorf("write error: %s", err.Error())
	}
}

// process reads each file, or the standard input.
func process(files []string, read func(*os.File) error) error {
	if len(files) == 0 {
		return read(os.Stdin)
	}
	for _, file := range files {
		fd, err := os.Open(file)
		if err != nil {
			return fmt.Errorf("%s: cannot open: %w", file, err)
		}
		err = read(fd)
		fd.Close()
		if err != nil {
			return fmt.Errorf("%s:%w", file, err)
		}
	}
	return nil
}
'''))
benign('n-jpath-eval',(JC,'''		results, err := jpath.Eval(root)
		if err != nil {
			return fmt.Errorf("#%d: evaluation error: %w", off, err)
		}
		err = enc.Encode(results)
		if err != nil {
			return fmt.Errorf("#%d: encoding results: %w", off, err)
		}
''','''		if err := output(root, jpath, enc); err != nil {
			return fmt.Errorf("#%d: %w", off, err)
		}
'''),(JC,'''		results, err := jpath.Eval(root)
		if err != nil {
			return fmt.Errorf("%d: evaluation error: %w", lno, err)
		}
		err = enc.Encode(results)
		if err != nil {
			return fmt.Errorf("%d: encoding results: %w", lno, err)
		}
''','''		if err := output(root, jpath, enc); err != nil {
			return fmt.Errorf("%d: %w", lno, err)
		}
'''),(JC,'''func errorf(''','''// output writes the results of a path on a value.
func output(root interface{}, jpath *jsonpath.JSONPath, enc *json.Encoder) error {
	results, err := jpath.Eval(root)
	if err != nil {
		return fmt.Errorf("evaluation error: %w", err)
	}
	if err = enc.Encode(results); err != nil {
		return fmt.Errorf("encoding results: %w", err)
	}
	return nil
}

func errorf('''))
benign('n-drain',(R,'''	for _, c := range m.values {
		for range c {
		}
	}
''','''	for i := len(m.values) - 1; i >= 0; i-- {
		c := m.values[i]
		for more := true; more; {
			_, more = <-c
		}
	}
'''))
benign('n-mustcompile',('jsonpath.go','''	p, err := Compile(expr)
	if err != nil {
		panic(`jsonpath: Compile(` + quote(expr) + `): ` + err.Error())
	}
	return p
''','''	if p, err := Compile(expr); err == nil {
		return p
	} else {
		panic(fmt.Sprintf("jsonpath: Compile(%s): %v", quote(expr), err))
	}
'''),('jsonpath.go','''import (
''','''import (
	"fmt"
'''))
