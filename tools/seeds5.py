PG='mach/program.go'; CD='mach/coder.go'
seed('b-c11-edge','C11',[(PG,'return i >= -indexTop && i <= indexTop-1','return i >= -indexTop && i <= indexTop')],H+'''func TestVerifDemo(t *testing.T) { p, err := Compile("$[?(@.a == 4194304)].b"); if err != nil { t.Fatal(err) }; r, err := p.Eval(vdoc(`[{"a":4194304,"b":1}]`)); if err != nil || len(r) != 1 { t.Error(r, err) } }''',
 'the integer 4194304 (2^22) in an expression','2^22 is packed into the 23-bit signed field and comes back as -2^22')
seed('b-c11-unsigned-fit','C11',[(PG,'return i >= -indexTop && i <= indexTop-1','return i >= -indexTop && i <= indexMask')],H+'''func TestVerifDemo(t *testing.T) { p, err := Compile("$[?(@.a == 6000000)].b"); if err != nil { t.Fatal(err) }; r, err := p.Eval(vdoc(`[{"a":6000000,"b":1}]`)); if err != nil || len(r) != 1 { t.Error(r, err) } }''',
 'an integer from 2^22 to 2^23-1','it fits the field only if read without a sign, and is read with one')
seed('b-c11-text-key','C11',[(CD,'vals map[paths.Val]uint32','vals map[string]uint32'),(CD,'make(map[paths.Val]uint32)','make(map[string]uint32)'),(CD,'b.vals[val]\n','b.vals[val.String()]\n'),(CD,'b.vals[val] = o','b.vals[val.String()] = o')],
 H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(@.a =~ /ab/ && @.s == 'ab')].c", `[{"a":"cab","s":"ab","c":7}]`, "[7]") }''',
 'two constants of different kinds with the same text in one expression','the second is taken to be the first')
seed('b-c11-val-overflow','C11',[(CD,'''	if o >= indexTop {
		// more then 8m''','''	if o >= 1<<(indexSize+opSize) {
		// more then 8m''')],'''package mach
import ("testing";"github.com/forsyth/jsonpath/paths")
func TestVerifDemo(t *testing.T) {
	p := &Program{}
	p.vals = make([]paths.Val, 1<<23+1)
	b := &builder{vals: make(map[paths.Val]uint32), prog: p}
	if err := b.codeVal(paths.OpString, paths.StringVal("x")); err == nil {
		o := p.orders[len(p.orders)-1]
		if o.isSmallInt() || int(o.index()) != len(p.vals)-1 { t.Error("value not found again") }
	}
}''','more than 2^23 different values','the index of the value is truncated without an error','mach')
