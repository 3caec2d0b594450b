package user

import (
	"strings"

	"verif.sim/spec"
)

// Types whose records nest as deeply as the input says. The first byte of each
// level says whether there is another one.

// DeepPtr nests through a pointer.
type DeepPtr struct {
	More uint8
	Next *DeepPtr `struct-if:"More == 1"`
}

// DeepList nests through a list.
type DeepList struct {
	N uint8 `struct:"sizeof=L"`
	L []DeepList
}

// DeepPtrs nests through a list of pointers.
type DeepPtrs struct {
	N uint8
	L []*DeepPtrs `struct-size:"N"`
}

// DeepCase nests through a case.
type DeepCase struct {
	K uint8
	S struct {
		A *DeepCase `struct-case:"1"`
		B struct{}  `struct:"default"`
	} `struct-switch:"K"`
}

// DeepTwo nests through another type, which knows where it is.
type DeepTwo struct {
	Up   *DeepArr `struct:"parent"`
	More uint8
	Next *DeepArr `struct-if:"More == 1"`
}

// DeepArr is the other one.
type DeepArr struct {
	A [1]DeepTwo
}

// DeepWhile nests for as long as there is input.
type DeepWhile struct {
	V uint8
	L []DeepWhile `struct-while:"!_eof"`
}

// DeepNone nests without end and without input.
type DeepNone struct {
	P *DeepNone
}

// DeepKinds are the kinds of deep records.
var DeepKinds = []string{"ptr", "list", "ptrs", "case", "two", "while", "none"}

// DeepDest is where a deep record is decoded to.
func DeepDest(kind string) interface{} {
	switch kind {
	case "ptr":
		return &DeepPtr{}
	case "list":
		return &DeepList{}
	case "ptrs":
		return &DeepPtrs{}
	case "case":
		return &DeepCase{}
	case "two":
		return &DeepTwo{}
	case "while":
		return &DeepWhile{}
	}
	return &DeepNone{}
}

// DeepInput is a record of n levels.
func DeepInput(kind string, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n-1; i++ {
		b[i] = 1
	}
	return b
}

// DeepValue is a record of n levels, or one that contains itself if n is -1.
func DeepValue(kind string, n int) interface{} {
	round := n < 0
	if round {
		n = 3
	}
	switch kind {
	case "ptr":
		last := &DeepPtr{}
		v := last
		for i := 1; i < n; i++ {
			v = &DeepPtr{1, v}
		}
		if round {
			last.More, last.Next = 1, v
		}
		return v
	case "list":
		v := &DeepList{}
		for i := 1; i < n; i++ {
			v = &DeepList{1, []DeepList{*v}}
		}
		if round {
			v.L[0].N, v.L[0].L = 1, v.L
		}
		return v
	case "ptrs":
		last := &DeepPtrs{}
		v := last
		for i := 1; i < n; i++ {
			v = &DeepPtrs{1, []*DeepPtrs{v}}
		}
		if round {
			last.N, last.L = 1, []*DeepPtrs{v}
		}
		return v
	case "case":
		last := &DeepCase{}
		v := last
		for i := 1; i < n; i++ {
			o := &DeepCase{K: 1}
			o.S.A = v
			v = o
		}
		if round {
			last.K, last.S.A = 1, v
		}
		return v
	case "two":
		last := &DeepTwo{}
		v := last
		for i := 1; i < n; i++ {
			a := &DeepArr{}
			a.A[0] = *v
			if i == 1 {
				last = &a.A[0]
			}
			v = &DeepTwo{nil, 1, a}
		}
		if round {
			last.More, last.Next = 1, v.Next
		}
		return v
	case "while":
		v := &DeepWhile{}
		for i := 1; i < n; i++ {
			v = &DeepWhile{1, []DeepWhile{*v}}
		}
		if round {
			v.L[0].L = v.L
		}
		return v
	}
	v := &DeepNone{}
	v.P = v
	return v
}

// DeepTexts are the kinds of deeply nested expressions.
var DeepTexts = []string{"paren", "un", "neg", "bin", "group", "tern", "idx", "dot", "idxn", "call", "calln"}

// DeepText is an expression of n levels, and what it yields, if it is not an
// error.
func DeepText(kind string, n int) (string, interface{}) {
	rep := func(s string) string { return strings.Repeat(s, n) }
	switch kind {
	case "paren":
		return rep("(") + "7" + rep(")"), 7
	case "un":
		return rep("!") + "true", n%2 == 0
	case "neg":
		return rep("- ") + "7", nil
	case "bin":
		return "1" + rep(" + 1"), n + 1
	case "group":
		return "1" + rep(",1"), nil
	case "tern":
		return rep("true ? 1 : ") + "1", nil
	case "idx":
		return "x" + rep("[0]"), nil
	case "dot":
		return "x" + rep(".a"), nil
	case "idxn":
		return rep("x[") + "0" + rep("]"), nil
	case "call":
		return "x" + rep("()"), nil
	}
	return rep("x(") + "0" + rep(")"), nil
}

// Types that refer to themselves without a structure in between.
type (
	// RingList is a list of such lists.
	RingList []RingList
	// RingPtr points to such a pointer.
	RingPtr *RingPtr
	// RingMap maps to such maps.
	RingMap map[string]RingMap
	// RingFunc yields such a function.
	RingFunc func(int) RingFunc
	// RingPair is a structure after all.
	RingPair struct {
		A *RingPair
		B []RingPair
		C map[string]*RingPair
		N int
	}
	// RingKids has its like in a map.
	RingKids struct {
		A map[string]RingKids
		B [2]map[int]RingKids
		N int
	}
	// RingOps has functions about its like.
	RingOps struct {
		A func(RingOps) RingOps
		B []func() RingOps
		N int
	}
)

// RingText is an expression about a value x that contains itself, or whose type
// does.
func RingText(v uint64) (string, interface{}) {
	r := spec.NewRng(v)
	var x interface{}
	switch r.N(8) {
	case 4:
		x = RingKids{A: map[string]RingKids{"a": {N: 2}}, N: 1}
	case 5:
		o := RingOps{N: 1}
		o.A = func(o RingOps) RingOps { o.N++; return o }
		x = o
	case 0:
		l := RingList{nil}
		l[0] = l
		x = l
	case 1:
		var p RingPtr
		p = &p
		x = p
	case 2:
		m := RingMap{}
		m["a"] = m
		x = m
	case 3:
		var f RingFunc
		f = func(int) RingFunc { return f }
		x = f
	default:
		p := &RingPair{N: 1}
		p.A, p.B, p.C = p, []RingPair{{A: p}}, map[string]*RingPair{"a": p}
		x = p
		if r.P(1, 3) {
			x = *p
		} else if r.P(1, 3) {
			x = &p
		}
	}
	part := func() string {
		return r.Pick("x", "x", "x", "x.A", "x.B", "x.C", "x.A.A", "x.B[0]", "x[0]", "x[\"a\"]", "x(1)", "x.A(x)", "x.A[\"a\"].N", "x.A[\"b\"].A", "x.B[1][2]", "*x", "&x", "x.A.N", "1", "nil", "true", "\"a\"", "1.5")
	}
	text := part()
	for i := 1 + r.N(2); i > 0; i-- {
		switch r.N(9) {
		case 0:
			text = r.Pick("!", "-", "^", "*", "&", "+") + "(" + text + ")"
		case 1:
			text = "(" + text + ") ? " + part() + " : " + part()
		case 2:
			text = "(" + part() + ") ? " + text + " : " + part()
		case 3:
			text = "(" + text + ")[" + part() + "]"
		case 4:
			text = "x(" + text + ")"
		case 5:
			text = "(" + text + ")." + r.Pick("A", "B", "C", "N", "Q")
		case 6:
			text = r.Pick("int", "uint8", "float64", "bool", "uintptr") + "(" + text + ")"
		default:
			text = "(" + text + ") " + r.Pick("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||") + " (" + part() + ")"
		}
	}
	return text, x
}

// Wide has a part as wide as it says.
type Wide struct {
	N uint64
	I int64
	V uint32 `struct-bits:"N"`
	W int64  `struct-bits:"I"`
	X []byte `struct-size:"N"`
}

// Widths are what Wide can say, and mostly cannot keep.
func Widths(v uint64) (uint64, int64) {
	r := spec.NewRng(v)
	n, i := uint64(r.N(33)), int64(r.N(65))
	switch r.N(4) {
	case 0:
		n = 1<<uint(r.N(64)) + uint64(r.N(3))
	case 1:
		i = 1<<uint(r.N(63)) + int64(r.N(3))
	case 2:
		i = -i
	}
	return n, i
}
