package user

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/go-restruct/restruct/expr"
	"verif.sim/spec"
)

// Rec refers to itself.
type Rec struct {
	N     int
	Next  *Rec
	Items []Rec
}

// EnvB is part of EnvA.
type EnvB struct {
	X uint8
	Y string
	Z *EnvC
}

// EnvC refers back.
type EnvC struct {
	W    int64
	Back *EnvB
	Tab  [2]EnvD
}

// EnvD is a leaf.
type EnvD struct {
	P uint16
	Q bool
}

// EnvA is what expressions are evaluated against.
type EnvA struct {
	A uint8
	B int16
	C string
	D []int32
	F func(int, int) int
	G *Rec
	H EnvB
	I [3]uint16
	J float64
	K bool
	L uint64
	M []EnvB
	N int
	O func(string) string
	V func(...int) int
	T *EnvC
	W func(*EnvC) *EnvD
	E map[string]EnvD
	P EnvNum
	Q EnvNum // nothing but zeros
	R EnvNam
}

// The types of these have names.
type (
	NamKind uint8
	NamInt  int
	NamStr  string
	NamBool bool
	NamFlt  float64
	NamList []NamKind
	NamFunc func(NamKind) NamKind
)

// EnvNam has values whose types have names, and some whose types have not.
type EnvNam struct {
	K NamKind
	I NamInt
	S NamStr
	B NamBool
	X NamFlt
	L NamList
	F NamFunc
	G func(NamKind, int) NamInt
	U uint8
	J int
	T string
}

// EnvNum has numbers of every kind.
type EnvNum struct {
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	P   uintptr
	F32 float32
	F64 float64
}

var numKinds = []string{"I", "I8", "I16", "I32", "I64", "U", "U8", "U16", "U32", "U64", "P"}

var errFunc = errors.New("function failed")

func fAdd(a, b int) int { hook("call", "F"); return a + b }
func fDiv(a, b int) int { hook("call", "F"); return a / b }
func fStr(s string) string {
	hook("call", "O")
	if s == "" {
		panic(errFunc)
	}
	return s + "!"
}
func fSum(n ...int) int {
	hook("call", "V")
	s := 0
	for _, x := range n {
		s += x
	}
	return s
}
func fNam(k NamKind) NamKind { hook("call", "R.F"); return k + 1 }
func fNam2(k NamKind, n int) NamInt {
	hook("call", "R.G")
	return NamInt(k) + NamInt(n)
}
func fTab(c *EnvC) *EnvD { hook("call", "W"); return &c.Tab[1] }

// NewEnv makes an environment from a seed.
func NewEnv(seed uint64) *EnvA {
	r := spec.NewRng(seed)
	b := func() EnvB {
		e := EnvB{X: uint8(r.N(5)), Y: r.Pick("", "a", "bc")}
		if r.P(2, 3) {
			e.Z = &EnvC{W: int64(r.N(9)) - 4, Back: &EnvB{X: 1, Y: "back"}}
			e.Z.Tab[1] = EnvD{uint16(r.N(3)), r.P(1, 2)}
		}
		return e
	}
	e := &EnvA{A: uint8(r.N(6)), B: int16(r.N(7) - 3), C: r.Pick("", "a", "abc"), J: float64(r.N(4)) / 2, K: r.P(1, 2), L: r.U64() >> uint(r.N(64)), N: r.N(4)}
	for i := 0; i < r.N(4); i++ {
		e.D = append(e.D, int32(r.N(10)))
	}
	e.F = fAdd
	if r.P(1, 2) {
		e.F = fDiv
	}
	if r.P(3, 4) {
		e.G = &Rec{N: 1, Next: &Rec{N: 2}, Items: []Rec{{N: 7}}}
	}
	e.H = b()
	e.I = [3]uint16{uint16(r.N(3)), 2, 3}
	for i := 0; i < r.N(3); i++ {
		e.M = append(e.M, b())
	}
	if r.P(3, 4) {
		e.O = fStr
	}
	e.V = fSum
	e.T = &EnvC{W: 5}
	e.W = fTab
	e.E = map[string]EnvD{"k": {1, true}}
	u := func() uint64 { return 1 + r.U64()>>uint(r.N(64))/2*2 }
	e.P = EnvNum{int(u()), int8(u()), int16(u()), int32(u()), int64(u()), uint(u()), uint8(u()), uint16(u()), uint32(u()), u(), uintptr(u()), float32(r.N(9)) / 2, float64(r.N(9)) / 4}
	e.R = EnvNam{NamKind(r.N(4)), NamInt(r.N(5)), NamStr(r.Pick("", "a", "name")), NamBool(r.P(1, 2)), NamFlt(r.N(3)) / 2, NamList{1, 2, 3}, fNam, fNam2, uint8(r.N(4)), r.N(5), r.Pick("", "a", "text")}
	return e
}

// NewPackage makes a package of functions.
func NewPackage() expr.Package {
	sub := expr.NewPackage(map[string]expr.Value{
		"Add": expr.ValueOf(fAdd),
		"Nam": expr.ValueOf(fNam),
		"One": expr.ValueOf(NamKind(1)),
	})
	return expr.NewPackage(map[string]expr.Value{
		"Add":  expr.ValueOf(fAdd),
		"Div":  expr.ValueOf(fDiv),
		"Str":  expr.ValueOf(fStr),
		"Sum":  expr.ValueOf(fSum),
		"Tab":  expr.ValueOf(fTab),
		"Ten":  expr.ValueOf(10),
		"Sub":  expr.ValueOf(sub),
		"List": expr.ValueOf([]int{1, 2, 3}),
	})
}

// Hooked is a resolver whose every use is a callback.
type Hooked struct{ R expr.Resolver }

// Resolve implements expr.Resolver.
func (h Hooked) Resolve(ident string) expr.Value {
	hook("resolve", ident)
	return h.R.Resolve(ident)
}

// lazy makes the values when they are asked for.
type lazy struct {
	env *EnvA
	pkg expr.Package
}

// Resolve implements expr.Resolver.
func (l lazy) Resolve(ident string) expr.Value {
	switch ident {
	case "pkg":
		return expr.ValueOf(l.pkg)
	case "env":
		return expr.ValueOf(l.env)
	case "one":
		return expr.ValueOf(1)
	}
	if v := reflect.ValueOf(l.env).Elem().FieldByName(ident); v.IsValid() {
		return expr.ValueOf(v.Interface())
	}
	return nil
}

// holder has a package among its fields.
type holder struct {
	*EnvA
	Pkg  expr.Package
	Deep struct{ Pkg expr.Package }
}

// The kinds of resolvers.
const ResKinds = 7

var (
	hookedRes = []int{2, 3, 5}    // every use of them is a callback
	fullRes   = []int{1, 2, 4, 5} // they know everything
)

// HookedRes picks a kind of resolver whose uses are callbacks.
func HookedRes(r *spec.Rng) int { return hookedRes[r.N(len(hookedRes))] + ResKinds*r.N(2) }

// FullRes picks a kind of resolver that knows everything.
func FullRes(r *spec.Rng) int { return fullRes[r.N(len(fullRes))] + ResKinds*r.N(2) }

// hidden is what names mean to a resolver that is not asked for them.
var hidden = expr.ValueOf(uint16(4711))

// NewResolver makes a resolver of some kind for an environment.
func NewResolver(kind int, env *EnvA) expr.Resolver {
	st := expr.NewStructResolver(reflect.ValueOf(env).Elem())
	pk := func() expr.Resolver {
		return expr.NewMapResolver(map[string]expr.Value{"pkg": expr.ValueOf(NewPackage()), "one": expr.ValueOf(1), "env": expr.ValueOf(env)})
	}
	switch kind % ResKinds {
	case 0:
		return st
	case 1:
		m := expr.NewMetaResolver()
		m.AddResolver(st)
		// What is known above hides what is known below.
		low := map[string]expr.Value{"pkg": expr.ValueOf(NewPackage()), "one": expr.ValueOf(1), "env": expr.ValueOf(env)}
		for i, t := 0, reflect.TypeOf(*env); i < t.NumField(); i++ {
			low[t.Field(i).Name] = hidden
		}
		m.AddResolver(expr.NewMapResolver(low))
		return m
	case 2:
		m := expr.NewMetaResolver()
		m.AddResolver(pk())
		m.AddResolver(Hooked{st})
		return m
	case 3:
		return Hooked{pk()}
	case 4:
		return lazy{env, NewPackage()}
	case 5:
		return Hooked{lazy{env, NewPackage()}}
	}
	h := holder{EnvA: env, Pkg: NewPackage()}
	h.Deep.Pkg = h.Pkg
	return expr.NewStructResolver(reflect.ValueOf(h))
}

// Show renders a value without addresses.
func Show(v interface{}) string {
	var b strings.Builder
	show(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func show(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if depth > 6 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			fmt.Fprintf(b, "%s(nil)", v.Type())
			return
		}
		b.WriteString("&")
		show(b, v.Elem(), depth+1)
	case reflect.Struct:
		fmt.Fprintf(b, "%s{", v.Type())
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			show(b, v.Field(i), depth+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "%s[", v.Type())
		for i := 0; i < v.Len() && i < 200; i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			show(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.Map:
		fmt.Fprintf(b, "%s/%d", v.Type(), v.Len())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(b, "%s/%v", v.Type(), v.IsNil())
	case reflect.String:
		fmt.Fprintf(b, "%s:%q", v.Type(), v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "%s:%v", v.Type(), v.Bool())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%s:%v", v.Type(), v.Float())
	default:
		if v.CanInt() {
			fmt.Fprintf(b, "%s:%d", v.Type(), v.Int())
		} else if v.CanUint() {
			fmt.Fprintf(b, "%s:%d", v.Type(), v.Uint())
		} else {
			fmt.Fprintf(b, "%s", v.Type())
		}
	}
}

// Good expressions evaluate for most environments, bad ones fail for all.
var (
	goodInt  = []string{"A", "N", "B", "I[1]", "I[A % 3]", "D[0]", "H.X", "L", "P.I8", "P.U16", "P.U64 % 3", "P.I64 / 2", "P.U32 * 3", "Q.I16", "M[0].X", "G.N", "G.Next.N", "G.Items[0].N", "H.Z.W", "H.Z.Tab[1].P", "T.W", "F(N, 1)", "F(3, N)", "V(1, 2, N)", "W(T).P", "pkg.Add(1, N)", "pkg.Ten", "pkg.Div(6, N)", "pkg.Sum(N, N)", "pkg.List[N]", "one", "env.N", "env.G.Next.N", "env.H.Z.Tab[0].P", "env.M[1].X", "C[0]", "pkg.Tab(env.T).P", "R.K", "R.I", "R.I + 1", "R.K + R.U", "R.U * R.K", "R.I - R.J", "R.J + R.I", "R.L[0]", "R.L[1] + R.K", "R.F(R.K)", "R.F(R.L[2])", "R.G(R.K, R.J)", "-R.I", "^R.K", "R.K << R.K", "R.J >> R.K", "R.U << R.K", "R.S[0]", "D[R.I]", "R.L[R.J]", "pkg.Sub.Add(N, 1)", "pkg.Sub.One", "pkg.Sub.Nam(pkg.Sub.One)", "pkg.Sub.One + R.K", "Pkg.Ten", "Pkg.Add(N, 2)", "Deep.Pkg.Sum(N)", "Pkg.Sub.One", "Deep.Pkg.Sub.Add(A, 1)"}
	goodStr  = []string{"C", "H.Y", "M[0].Y", "H.Z.Back.Y", "pkg.Str(C)", "O(C)", `"lit"`, "env.C", "R.S", "R.T", "R.S + R.T", `R.S + "x"`, "C + R.S"}
	goodBool = []string{"K", "true", "false", "H.Z.Tab[1].Q", "W(T).Q", "env.K", "R.B", "R.B && K", "!R.B", "K || R.B", "R.B == K", "R.K == R.U", "R.K == 2", "R.K != R.L[0]", "R.I < R.J", "R.J >= R.I", "R.I > 2", "R.S == R.T", `R.S == "a"`, "R.T != R.S", "R.X < 1", "R.X == J", "R.B ? K : R.B"}
	goodAny  = []string{"G", "H", "H.Z", "D", "I", "M", "F", "T", "W", "E", "env", "pkg", "nil", "*G", "*T", "&A", "J", "J + 1", "-J", "1.5", "'x'", "R", "R.L", "R.F", "R.X", "R.X + J", "-R.X", "pkg.Sub", "Pkg", "Deep", "Deep.Pkg", "Pkg.Sub", "R.B ? R.K : R.U", "E[\"k\"]"}
	badAny   = []string{"Nope", "A.B", "K + 1", "C * 2", "F(1)", "F(\"x\", 1)", "N()", "pkg.Nope", "!A", "-C", "^K", "D[\"x\"]", "D[99]", "I[7]", "A / 0", "A % (N - N)", "H.Nope", "*A", "K ? 1 : Nope", "A ? 1 : 2", "G == 1", "pkg.S", "pkg.Tan", "pkg.Addd", "pkg.sum", "T + T", "nil + 1", "nil == nil", "1 << -1", "H + 1", "G.Next.Next.N", "M + 1", "&F", "E + 1", "env * 2", "R.F(R.U)", "R.F(1)", "R.K + R.I", "R.S + R.K", "R.B + R.B", "R.K + 1.5", "R.L[R.K]", "R.F + 1", "R.L == R.L", "R.X % R.X", "!R.K", "-R.S", "R.K ? 1 : 2", "R.F(R.S)", "R.S < R.T", "R.B < K", "pkg.Sub + 1", "pkg.Sub.Nope", "pkg == pkg", "pkg.Sub == pkg", "R.K << R.I", "R.J << -1", "R == R", "H == H", "G == G", "Pkg == nil", "R.F == nil", "R.L == nil"}
)

// ExprText generates the text of an expression.
func ExprText(r *spec.Rng) string { return exprAny(r, r.N(3)) }

func pick(r *spec.Rng, l []string) string { return l[r.N(len(l))] }

// divided generates a division by zero, or one of numbers of two kinds.
func divided(r *spec.Rng) string {
	k := pick(r, numKinds)
	op := r.Pick("/", "%")
	switch r.N(6) {
	case 0:
		return "P." + k + " " + op + " 0"
	case 1:
		return fmt.Sprint(r.N(9)) + " " + op + " Q." + k
	case 2:
		return "P." + k + " " + op + " (P." + k + " - P." + k + ")"
	case 3:
		j := pick(r, numKinds)
		if j != k {
			return "P." + k + " " + r.Pick("+", "-", "*", "/", "%", "&", "|", "^", "==", "<", ">=", "!=") + " P." + j
		}
	case 4:
		return "P." + r.Pick("F32", "F64") + " " + r.Pick("%", "&", "|", "^", "<<", ">>") + " P." + k
	}
	return "P." + k + " " + op + " Q." + k
}

func exprAny(r *spec.Rng, d int) string {
	switch k := r.N(10); {
	case k < 4:
		return exprInt(r, d)
	case k < 6:
		return exprBool(r, d)
	case k == 6:
		return exprStr(r, d)
	case k == 7:
		return pick(r, goodAny)
	case k == 8:
		if r.P(1, 6) {
			return divided(r)
		}
		return pick(r, badAny)
	}
	// Anything with anything.
	if d == 0 {
		return pick(r, goodAny)
	}
	op := r.Pick("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||")
	return "(" + exprAny(r, d-1) + ") " + op + " (" + exprAny(r, d-1) + ")"
}

// alwaysBad fail for every environment that NewResolver makes.
var alwaysBad = []string{"Nope", "A.B", "K + 1", "C * 2", "F(1)", `F("x", 1)`, "N()", "pkg.Nope", "!A", "-C", "^K", `D["x"]`, "D[99]", "I[7]", "A / 0", "A % (N - N)", "H.Nope", "1(2)", "A ? 1 : 2", "G == 1", "G.Next.Next.N", "M + 1", "E + 1", "env * 2", "nope(1)", "10 / 0", "10 % (1 - 1)", "1 + true", `"a" - "b"`, `"abc"[7]`, `"abc"[3]`, "I[3]", "I[-1]", "env.Nope", "pkg.Add(1)", "pkg.Add(1, 2, 3)", `pkg.Add("x", 1)`, "pkg.Div(N, 0)", "pkg.Div(1, N - N)", "true ? Nope : 1", "false ? 1 : (1 / 0)", "T.Back.X", "T.Back.Z.W", "*A", "*1", "K()", "J % 1", "one.X", `pkg.Str("")`, "pkg.List[3]", "pkg.List[N + 3]", "pkg.S", "pkg.Tan(1)", "pkg.Stray", "pkg.D(1, 2)", "pkg.ten", "Q.Nope", "P + 1", "P.I9", "C[-1]", "D[-1]", "R.K + R.I", "R.S + R.K", "R.B + R.B", "R.F + 1", "!R.K", "-R.S", "R.K ? 1 : 2", "R.F(R.S)", "R.Nope", "R.K / 0", "R.I / (R.I - R.I)", "R.J % (R.I - R.I)", "R.L[7]", `R.L["x"]`, "pkg.Sub.Nope", "pkg.Sub + 1", "pkg.Sub.Add(1)", "R.K.X", "R.S * 2", "R.F()"}

// BadText generates an expression whose value needs one that fails.
func BadText(r *spec.Rng, d int) string {
	if d == 0 {
		if r.P(1, 4) {
			return divided(r)
		}
		return pick(r, alwaysBad)
	}
	bad := BadText(r, d-1)
	switch r.N(9) {
	case 0:
		return "(" + bad + ") " + r.Pick("+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "&", "|", "^") + " (" + exprInt(r, d-1) + ")"
	case 1:
		return "(" + exprInt(r, d-1) + ") " + r.Pick("+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "&", "|", "^") + " (" + bad + ")"
	case 2:
		return r.Pick("-", "!", "^", "+") + "(" + bad + ")"
	case 3:
		return "(" + bad + ") ? " + exprInt(r, 0) + " : " + exprInt(r, 0)
	case 4:
		if r.P(1, 2) {
			return "true ? (" + bad + ") : 1"
		}
		return "false ? 1 : (" + bad + ")"
	case 5:
		return r.Pick("I", "D", "M", "pkg.List") + "[" + bad + "]"
	case 6:
		return r.Pick("pkg.Add(1, ", "pkg.Div(7, ", "F(2, ") + bad + ")"
	case 7:
		return "(" + bad + ") && true"
	}
	return "true && (" + bad + ")"
}

func exprInt(r *spec.Rng, d int) string {
	if d == 0 || r.P(1, 4) {
		if r.P(1, 3) {
			return fmt.Sprint(r.N(12))
		}
		return pick(r, goodInt)
	}
	x := exprInt(r, d-1)
	switch r.N(5) {
	case 0:
		return "(" + x + ") " + r.Pick("+", "-", "*", "/", "%", "&", "|", "^") + " " + fmt.Sprint(r.N(5))
	case 1:
		return "(" + x + ") " + r.Pick("+", "-", "*", "/", "&", "<<", ">>") + " (" + exprInt(r, d-1) + ")"
	case 2:
		return r.Pick("-", "^", "+") + "(" + x + ")"
	case 3:
		return "(" + exprBool(r, d-1) + ") ? (" + x + ") : (" + exprInt(r, d-1) + ")"
	}
	return "(" + x + ")"
}

func exprStr(r *spec.Rng, d int) string {
	if d == 0 || r.P(1, 2) {
		return pick(r, goodStr)
	}
	return exprStr(r, d-1) + " + " + exprStr(r, d-1)
}

func exprBool(r *spec.Rng, d int) string {
	if d == 0 || r.P(1, 4) {
		return pick(r, goodBool)
	}
	switch r.N(4) {
	case 0:
		return "!(" + exprBool(r, d-1) + ")"
	case 1:
		return "(" + exprBool(r, d-1) + ") " + r.Pick("&&", "||", "==", "!=") + " (" + exprBool(r, d-1) + ")"
	case 2:
		return "(" + exprStr(r, d-1) + ") " + r.Pick("==", "!=") + " (" + exprStr(r, d-1) + ")"
	}
	return "(" + exprInt(r, d-1) + ") " + r.Pick("==", "!=", "<", "<=", ">", ">=") + " " + fmt.Sprint(r.N(5))
}

// The Mix types can be represented in expressions only in part, and refer to
// each other.
type (
	MixLeaf struct {
		V uint8
		U *MixUp
	}
	// MixUp refers back.
	MixUp struct {
		N    int16
		Leaf *MixLeaf
		List []MixLeaf
	}
	// MixBad cannot be represented.
	MixBad struct {
		First *MixUp
		C     chan int
		Last  *MixLeaf
	}
	// MixOuter contains one that cannot.
	MixOuter struct {
		Ok   []MixUp
		In   struct{ Bad *MixBad }
		Also *MixLeaf
	}
	// Mixed is what expressions see.
	Mixed struct {
		Leaf  MixLeaf
		Up    MixUp
		Bad   MixBad
		Outer MixOuter
		Ups   []MixUp
		LeafP *MixLeaf
		UpP   *MixUp
		BadP  *MixBad
		Any   interface{}
		Fn    func(*MixUp) MixLeaf
		FnBad func(MixLeaf) interface{}
		Map   map[string]MixUp
		BadM  map[string]*MixBad
	}
)

// NewMixed makes one.
func NewMixed(seed uint64) Mixed {
	n := int16(seed % 5)
	l := MixLeaf{V: uint8(n), U: &MixUp{N: n + 1, List: []MixLeaf{{V: 9}}}}
	u := MixUp{N: n, Leaf: &MixLeaf{V: 3}, List: []MixLeaf{l, {V: 4}}}
	b := MixBad{First: &u, Last: &l}
	return Mixed{Leaf: l, Up: u, Bad: b, Outer: MixOuter{Ok: []MixUp{u}, Also: &l}, Ups: []MixUp{u, u}, LeafP: &l, UpP: &u, BadP: &b, Any: u,
		Fn:    func(u *MixUp) MixLeaf { hook("call", "Fn"); return *u.Leaf },
		FnBad: func(l MixLeaf) interface{} { return l }}
}

// MixedTexts are expressions about it.
var MixedTexts = []string{"Leaf.V", "Leaf", "Leaf.U.N", "Leaf.U.List[0].V", "Up.N", "Up.Leaf.V", "Up.List[1].V", "Up", "Bad", "Bad.First.N", "Bad.Last.V",
	"Outer", "Outer.Ok[0].N", "Outer.Also.V", "Outer.In", "Ups[1].N", "Ups", "LeafP.V", "LeafP.U", "UpP.N", "UpP", "BadP", "BadP.First", "Any", "Fn(UpP).V", "Fn(LeafP.U)", "FnBad(Leaf)", "FnBad", "Map", "BadM", "Fn", "UpP == nil", "LeafP.U.Leaf == nil"}
