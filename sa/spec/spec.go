// Package spec states, as plainly as possible, what the expression operators and functions denote.
// The checker interprets it abstractly beside the repository's code and compares the outcomes.
//
// Operands: nil, bool, int64, float64, string, []interface{}, map[string]interface{};
// the result Missing stands for "no value"; anything else that reaches an operator
// (an error, a bare name, a regular expression) is passed as it is.
package spec

import (
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

type missing struct{}

func (missing) Error() string { return "missing" }

// Missing is the absence of a value.
var Missing error = missing{}

func isMissing(v interface{}) bool {
	_, ok := v.(error)
	return ok
}

// num gives the number an arithmetic operand stands for: (int, 0, kind 1) or (0, float, kind 2); kind 0 when it is not one.
func num(v interface{}) (int64, float64, int) {
	switch v := v.(type) {
	case bool:
		if v {
			return 1, 1, 1
		}
		return 0, 0, 1
	case int64:
		return v, float64(v), 1
	case float64:
		return 0, v, 2
	}
	return 0, 0, 0
}

func Add(a, b interface{}) interface{} {
	i, x, k := num(a)
	j, y, l := num(b)
	if k == 0 || l == 0 {
		return Missing
	}
	if k == 1 && l == 1 {
		return i + j
	}
	return x + y
}

func Sub(a, b interface{}) interface{} {
	i, x, k := num(a)
	j, y, l := num(b)
	if k == 0 || l == 0 {
		return Missing
	}
	if k == 1 && l == 1 {
		return i - j
	}
	return x - y
}

func Mul(a, b interface{}) interface{} {
	i, x, k := num(a)
	j, y, l := num(b)
	if k == 0 || l == 0 {
		return Missing
	}
	if k == 1 && l == 1 {
		return i * j
	}
	return x * y
}

func Div(a, b interface{}) interface{} {
	i, x, k := num(a)
	j, y, l := num(b)
	if k == 0 || l == 0 {
		return Missing
	}
	if k == 1 && l == 1 {
		if j == 0 {
			return Missing
		}
		return i / j
	}
	if y == 0 {
		return Missing
	}
	return x / y
}

func Mod(a, b interface{}) interface{} {
	i, x, k := num(a)
	j, y, l := num(b)
	if k == 0 || l == 0 {
		return Missing
	}
	if k == 1 && l == 1 {
		if j == 0 {
			return Missing
		}
		return i % j
	}
	if y == 0 {
		return Missing
	}
	return math.Mod(x, y)
}

// Neg is only specified for numbers and booleans.
func Neg(a interface{}) interface{} {
	i, x, k := num(a)
	if k == 1 {
		return -i
	}
	return -x
}

func prim(v interface{}) bool {
	switch v.(type) {
	case bool, int64, float64, string:
		return true
	}
	return false
}

// order compares by o: "<", "<=", ">=", ">".
func order(a, b interface{}, o int) interface{} {
	if isMissing(a) || isMissing(b) {
		return Missing
	}
	if !prim(a) || !prim(b) {
		return false
	}
	s, ok1 := a.(string)
	t, ok2 := b.(string)
	if ok1 != ok2 {
		return false
	}
	if ok1 {
		switch o {
		case 0:
			return s < t
		case 1:
			return s <= t
		case 2:
			return s >= t
		}
		return s > t
	}
	i, x, k := num(a)
	j, y, l := num(b)
	if k == 1 && l == 1 {
		switch o {
		case 0:
			return i < j
		case 1:
			return i <= j
		case 2:
			return i >= j
		}
		return i > j
	}
	switch o {
	case 0:
		return x < y
	case 1:
		return x <= y
	case 2:
		return x >= y
	}
	return x > y
}

func LT(a, b interface{}) interface{} { return order(a, b, 0) }
func LE(a, b interface{}) interface{} { return order(a, b, 1) }
func GE(a, b interface{}) interface{} { return order(a, b, 2) }
func GT(a, b interface{}) interface{} { return order(a, b, 3) }

// Truthy tells how a value counts in a boolean context.
func Truthy(v interface{}) bool {
	switch v := v.(type) {
	case nil:
		return false
	case error:
		return false
	case bool:
		return v
	case int64:
		return v != 0
	case float64:
		return v == v && v != 0
	case string:
		return v != ""
	}
	return true
}

func Or(a, b interface{}) interface{} {
	if Truthy(a) {
		return a
	}
	return b
}

func And(a, b interface{}) interface{} {
	if Truthy(a) {
		return b
	}
	return a
}

func Not(a interface{}) interface{} { return !Truthy(a) }

// numEq compares two numbers, strings or booleans converted to numbers.
func numEq(a, b interface{}) bool {
	s, ok1 := a.(string)
	t, ok2 := b.(string)
	i, x, k := num(a)
	j, y, l := num(b)
	if ok1 {
		i, x, k = strNum(s)
	}
	if ok2 {
		j, y, l = strNum(t)
	}
	if k == 0 || l == 0 {
		return false
	}
	if k == 1 && l == 1 && isInt(a) && isInt(b) {
		return i == j
	}
	return x == y
}

func isInt(v interface{}) bool {
	_, ok := v.(int64)
	return ok
}

// strNum converts a string to a number; the empty string is zero.
func strNum(s string) (int64, float64, int) {
	if s == "" {
		return 0, 0, 2
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return 0, 0, 0
	}
	return 0, f, 2
}

// EQ is the loose equality.
func EQ(a, b interface{}) interface{} { return eq(a, b) }

func NE(a, b interface{}) interface{} { return !eq(a, b) }

func eq(a, b interface{}) bool {
	if isMissing(a) || a == nil {
		return isMissing(b) || b == nil
	}
	if isMissing(b) || b == nil {
		return false
	}
	switch x := a.(type) {
	case []interface{}:
		switch y := b.(type) {
		case []interface{}:
			if len(x) != len(y) {
				return false
			}
			for i := 0; i < len(x); i++ {
				if !eq(x[i], y[i]) {
					return false
				}
			}
			return true
		case map[string]interface{}:
			return false
		}
		return arrayEq(x, b)
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !eq(v, w) {
				return false
			}
		}
		return true
	}
	switch y := b.(type) {
	case []interface{}:
		return arrayEq(y, a)
	case map[string]interface{}:
		return false
	}
	if s, ok := a.(string); ok {
		if t, ok := b.(string); ok {
			return s == t
		}
	}
	if p, ok := a.(bool); ok {
		if q, ok := b.(bool); ok {
			return p == q
		}
	}
	return numEq(a, b)
}

// arrayEq compares an array with a string, number or boolean.
func arrayEq(a []interface{}, b interface{}) bool {
	if len(a) == 0 {
		if s, ok := b.(string); ok {
			return s == ""
		}
		_, y, _ := num(b)
		return y == 0
	}
	if len(a) != 1 {
		return false
	}
	return eq(a[0], b) // other types are left open by the caller
}

// ---- functions ----

func Abs(a interface{}) interface{} {
	switch v := a.(type) {
	case int64:
		if v >= 0 {
			return v
		}
		if -v < 0 {
			return Missing // not representable
		}
		return -v
	case float64:
		if v < 0 {
			return -v
		}
		return v
	}
	return Missing
}

func Ceil(a interface{}) interface{} {
	switch v := a.(type) {
	case int64:
		return v
	case float64:
		return math.Ceil(v)
	}
	return Missing
}

func Floor(a interface{}) interface{} {
	switch v := a.(type) {
	case int64:
		return v
	case float64:
		return math.Floor(v)
	}
	return Missing
}

func Length(a interface{}) interface{} {
	switch v := a.(type) {
	case string:
		return int64(utf8.RuneCountInString(v))
	case []interface{}:
		return int64(len(v))
	case map[string]interface{}:
		return int64(len(v))
	}
	return nil
}

func StartsWith(a, b interface{}) interface{} {
	s, ok1 := a.(string)
	t, ok2 := b.(string)
	if !ok1 || !ok2 {
		return Missing
	}
	return strings.HasPrefix(s, t)
}

func EndsWith(a, b interface{}) interface{} {
	s, ok1 := a.(string)
	t, ok2 := b.(string)
	if !ok1 || !ok2 {
		return Missing
	}
	return strings.HasSuffix(s, t)
}

// Contains is for a string; an array's search is compared element by element.
func Contains(a, b interface{}) interface{} {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		if !ok {
			return Missing
		}
		return strings.Contains(x, y)
	case []interface{}:
		for i := 0; i < len(x); i++ {
			if eq(x[i], b) {
				return true
			}
		}
		return false
	}
	return Missing
}

func ToNumber(a interface{}) interface{} {
	switch v := a.(type) {
	case int64:
		return v
	case float64:
		return v
	case string:
		f, err := strconv.ParseFloat(v, 64)
		if err != nil {
			return Missing
		}
		return f
	}
	return Missing
}

// In tells whether an element of an array equals a value.
func In(a, b interface{}) interface{} {
	for _, v := range b.([]interface{}) {
		if eq(v, a) {
			return true
		}
	}
	return false
}

func NotIn(a, b interface{}) interface{} { return !In(a, b).(bool) }

// Keep is the decision of a filter.
func Keep(v interface{}) interface{} { return Truthy(v) }
