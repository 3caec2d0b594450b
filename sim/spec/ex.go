package spec

import (
	"errors"
	"fmt"
	"math/bits"
	"reflect"
	"strconv"
)

// Ex is an expression.
type Ex struct {
	Op   string `json:"op"` // id, dot, int, str, bool, eof, call, un, or a binary operator, or ?:
	Name string `json:"n,omitempty"`
	I    int64  `json:"i,omitempty"`
	A    *Ex    `json:"a,omitempty"`
	B    *Ex    `json:"b,omitempty"`
	C    *Ex    `json:"c,omitempty"`
}

// String renders the expression as text.
func (e *Ex) String() string {
	switch e.Op {
	case "id":
		return e.Name
	case "dot":
		return e.A.String() + "." + e.Name
	case "int":
		switch e.Name {
		case "x":
			return fmt.Sprintf("0x%x", e.I)
		case "X":
			return fmt.Sprintf("0X%02X", e.I)
		case "0":
			return fmt.Sprintf("0%o", e.I)
		case "b":
			return fmt.Sprintf("0b%b", e.I)
		case "c":
			return fmt.Sprintf("'\\x%02x'", e.I)
		case "o":
			return fmt.Sprintf("'\\%03o'", e.I)
		}
		return strconv.FormatInt(e.I, 10)
	case "flt":
		return strconv.FormatFloat(float64(e.I)/4, 'f', 2, 64)
	case "str":
		switch e.I {
		case 1:
			return "$'" + e.Name + "'"
		case 2:
			b := ""
			for _, c := range []byte(e.Name) {
				b += fmt.Sprintf("\\x%02x", c)
			}
			return `"` + b + `"`
		case 3:
			b := ""
			for _, c := range []byte(e.Name) {
				b += fmt.Sprintf("\\%03o", c)
			}
			return `"` + b + `"`
		}
		return strconv.Quote(e.Name)
	case "bool":
		return strconv.FormatBool(e.I != 0)
	case "eof":
		return "_eof"
	case "raw":
		return e.Name
	case "idx":
		return e.A.paren() + "[" + e.B.String() + "]"
	case "call":
		return "bits." + e.Name + "(" + e.A.String() + ")"
	case "un":
		return e.Name + e.A.paren()
	case "?:":
		return e.A.paren() + " ? " + e.B.paren() + " : " + e.C.paren()
	}
	return e.A.paren() + " " + e.Op + " " + e.B.paren()
}

func (e *Ex) paren() string {
	switch e.Op {
	case "id", "dot", "idx", "str", "bool", "eof", "call", "flt":
		return e.String()
	case "int":
		if e.I >= 0 {
			return e.String()
		}
	}
	return "(" + e.String() + ")"
}

// respell writes literals in other ways.
func (e *Ex) respell(r *Rng) {
	if e == nil {
		return
	}
	if e.Op == "int" && e.I >= 0 && e.I < 128 && r.P(1, 6) {
		e.Name = r.Pick("x", "X", "0", "b", "c", "o", "")
	}
	if e.Op == "str" && r.P(1, 3) {
		e.I = int64(r.N(4))
	}
	e.A.respell(r)
	e.B.respell(r)
	e.C.respell(r)
}

// Idents calls f for every name of a field the expression mentions.
func (e *Ex) Idents(f func(string)) {
	if e == nil {
		return
	}
	if e.Op == "id" {
		f(e.Name)
	}
	e.A.Idents(f)
	e.B.Idents(f)
	e.C.Idents(f)
}

// Val is the value of an expression.
type Val struct {
	K string // bool, string, untyped, struct, ptr or the name of an integer type
	U uint64
	S string
	F float64
	V reflect.Value
}

var errExpr = errors.New("model: expression failed")

// ErrExpr tells that an expression failed.
var ErrExpr = errExpr

// RawFailing are expressions that fail for every record.
var RawFailing = []string{
	"Missing", "10 / 0", "10 % (1 - 1)", "bits.Nope(1)", "bits.Len8(1, 2)", "bits.Len8(\"x\")", "1 + true", "!1", "-\"x\"",
	"true ? Missing : 1", "1(2)", "\"abc\" - \"b\"", "Missing.X", "\"abc\"[7]", "1 ? 2 : 3", "*1", "&1", "(10 / 0) == 1", "true && (1 / 0 == 1)",
	"_eof + 1", "1.5 % 2", "\"a\" < 1", "(1 / 0) > 0 ? true : false", "missing(1)", "bits.Len8()",
	"bits.Length(1)", "bits.Onescount(1)", "bits.Rotate(1)", "bits.T", "bits.len8(1)", "Missing.Missing", "\"a\" ? 1 : 2",
}

var widths = map[string]int{
	"int8": 8, "int16": 16, "int32": 32, "int64": 64, "int": 64,
	"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "uint": 64,
}

func signedKind(k string) bool { return k[0] == 'i' }

func norm(k string, u uint64) uint64 {
	w := widths[k]
	if w == 64 || w == 0 {
		return u
	}
	u &= 1<<uint(w) - 1
	if signedKind(k) && u>>(uint(w)-1) != 0 {
		u |= ^uint64(0) << uint(w)
	}
	return u
}

func valOf(v reflect.Value) (Val, error) {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return Val{K: "bool", U: 1}, nil
		}
		return Val{K: "bool"}, nil
	case reflect.String:
		return Val{K: "string", S: v.String()}, nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Val{K: v.Kind().String(), U: uint64(v.Int())}, nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Val{K: v.Kind().String(), U: v.Uint()}, nil
	case reflect.Float32, reflect.Float64:
		return Val{K: v.Kind().String(), F: v.Float()}, nil
	case reflect.Struct, reflect.Ptr:
		return Val{K: "struct", V: v}, nil
	case reflect.Slice, reflect.Array:
		return Val{K: "list", V: v}, nil
	}
	return Val{}, fmt.Errorf("model: no value of kind %s", v.Kind())
}

// Int returns the value as an int, the way a length is taken from it.
func (v Val) Int() (int, error) {
	if v.K == "untyped" || widths[v.K] != 0 {
		return int(v.U), nil
	}
	return 0, errExpr
}

func b2v(b bool) Val {
	if b {
		return Val{K: "bool", U: 1}
	}
	return Val{K: "bool"}
}

// Eval computes the expression.
func (e *Ex) Eval(env func(string) (reflect.Value, bool), eof bool) (Val, error) {
	switch e.Op {
	case "id":
		v, ok := env(e.Name)
		if !ok {
			return Val{}, errExpr
		}
		return valOf(v)
	case "dot":
		a, err := e.A.Eval(env, eof)
		if err != nil {
			return Val{}, err
		}
		v := a.V
		if v.IsValid() && v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if !v.IsValid() || v.Kind() != reflect.Struct || !v.FieldByName(e.Name).IsValid() {
			return Val{}, errExpr
		}
		return valOf(v.FieldByName(e.Name))
	case "int":
		return Val{K: "untyped", U: uint64(e.I)}, nil
	case "flt":
		return Val{K: "flt", F: float64(e.I) / 4}, nil
	case "str":
		return Val{K: "string", S: e.Name}, nil
	case "bool":
		return b2v(e.I != 0), nil
	case "eof":
		return b2v(eof), nil
	case "raw":
		return Val{}, errExpr
	case "call":
		a, err := e.A.Eval(env, eof)
		if err != nil {
			return Val{}, err
		}
		switch {
		case e.Name == "Len8" && a.K == "uint8":
			return Val{K: "int", U: uint64(bits.Len8(uint8(a.U)))}, nil
		case e.Name == "OnesCount8" && a.K == "uint8":
			return Val{K: "int", U: uint64(bits.OnesCount8(uint8(a.U)))}, nil
		case e.Name == "Len16" && a.K == "uint16":
			return Val{K: "int", U: uint64(bits.Len16(uint16(a.U)))}, nil
		case e.Name == "OnesCount16" && a.K == "uint16":
			return Val{K: "int", U: uint64(bits.OnesCount16(uint16(a.U)))}, nil
		}
		return Val{}, errExpr
	case "un":
		a, err := e.A.Eval(env, eof)
		if err != nil {
			return Val{}, err
		}
		switch e.Name {
		case "!":
			if a.K == "bool" {
				return Val{K: "bool", U: 1 - a.U}, nil
			}
		case "-":
			if widths[a.K] != 0 {
				return Val{K: a.K, U: norm(a.K, -a.U)}, nil
			}
		case "^":
			if widths[a.K] != 0 {
				return Val{K: a.K, U: norm(a.K, ^a.U)}, nil
			}
		}
		return Val{}, errExpr
	case "?:":
		a, err := e.A.Eval(env, eof)
		if err != nil {
			return Val{}, err
		}
		if a.K != "bool" {
			return Val{}, errExpr
		}
		if a.U != 0 {
			return e.B.Eval(env, eof)
		}
		return e.C.Eval(env, eof)
	}
	a, err := e.A.Eval(env, eof)
	if err != nil {
		return Val{}, err
	}
	b, err := e.B.Eval(env, eof)
	if err != nil {
		return Val{}, err
	}
	switch e.Op {
	case "idx":
		i, err := b.Int()
		if err == nil && a.K == "string" && i >= 0 && i < len(a.S) {
			return Val{K: "uint8", U: uint64(a.S[i])}, nil
		}
		if err != nil || a.K != "list" || i < 0 || i >= a.V.Len() {
			return Val{}, errExpr
		}
		return valOf(a.V.Index(i))
	case "&&", "||":
		if a.K != "bool" || b.K != "bool" {
			return Val{}, errExpr
		}
		if e.Op == "&&" {
			return b2v(a.U != 0 && b.U != 0), nil
		}
		return b2v(a.U != 0 || b.U != 0), nil
	case "<<", ">>":
		if a.K == "untyped" {
			a.K = "int"
		}
		if widths[a.K] == 0 || b.K != "untyped" && (widths[b.K] == 0 || signedKind(b.K)) {
			return Val{}, errExpr
		}
		if e.Op == "<<" {
			return Val{K: a.K, U: norm(a.K, a.U<<b.U)}, nil
		}
		if signedKind(a.K) {
			return Val{K: a.K, U: uint64(int64(a.U) >> b.U)}, nil
		}
		return Val{K: a.K, U: a.U >> b.U}, nil
	}
	if isFloat(a.K) || isFloat(b.K) {
		return floats(e.Op, a, b)
	}
	k := a.K
	switch {
	case a.K == "untyped" && b.K == "untyped":
		k = "int"
	case a.K == "untyped":
		k = b.K
	case b.K == "untyped":
	case a.K != b.K:
		return Val{}, errExpr
	}
	if k == "string" || k == "bool" {
		if a.K != b.K {
			return Val{}, errExpr
		}
		switch e.Op {
		case "==":
			return b2v(a.S == b.S && a.U == b.U), nil
		case "!=":
			return b2v(a.S != b.S || a.U != b.U), nil
		case "+":
			if k == "string" {
				return Val{K: k, S: a.S + b.S}, nil
			}
		}
		return Val{}, errExpr
	}
	if widths[k] == 0 {
		return Val{}, errExpr
	}
	x, y := norm(k, a.U), norm(k, b.U)
	less := x < y
	if signedKind(k) {
		less = int64(x) < int64(y)
	}
	switch e.Op {
	case "==":
		return b2v(x == y), nil
	case "!=":
		return b2v(x != y), nil
	case "<":
		return b2v(less), nil
	case "<=":
		return b2v(less || x == y), nil
	case ">":
		return b2v(!less && x != y), nil
	case ">=":
		return b2v(!less), nil
	case "+":
		return Val{K: k, U: norm(k, x+y)}, nil
	case "-":
		return Val{K: k, U: norm(k, x-y)}, nil
	case "*":
		return Val{K: k, U: norm(k, x*y)}, nil
	case "&":
		return Val{K: k, U: norm(k, x&y)}, nil
	case "|":
		return Val{K: k, U: norm(k, x|y)}, nil
	case "^":
		return Val{K: k, U: norm(k, x^y)}, nil
	case "/", "%":
		if y == 0 {
			return Val{}, errExpr
		}
		switch {
		case signedKind(k) && int64(y) == -1:
			if e.Op == "/" {
				return Val{K: k, U: norm(k, -x)}, nil
			}
			return Val{K: k}, nil
		case signedKind(k) && e.Op == "/":
			return Val{K: k, U: norm(k, uint64(int64(x)/int64(y)))}, nil
		case signedKind(k):
			return Val{K: k, U: norm(k, uint64(int64(x)%int64(y)))}, nil
		case e.Op == "/":
			return Val{K: k, U: x / y}, nil
		}
		return Val{K: k, U: x % y}, nil
	}
	return Val{}, errExpr
}

func isFloat(k string) bool { return k == "float32" || k == "float64" || k == "flt" }

// floats computes with floating-point numbers. Only comparisons are known.
func floats(op string, a, b Val) (Val, error) {
	for _, v := range []*Val{&a, &b} {
		if v.K == "untyped" {
			v.K, v.F = "flt", float64(int64(v.U))
		}
	}
	if a.K == "flt" {
		a.K = b.K
	}
	if b.K == "flt" {
		b.K = a.K
	}
	if a.K != b.K || !isFloat(a.K) {
		return Val{}, errExpr
	}
	switch x, y := a.F, b.F; op {
	case "==":
		return b2v(x == y), nil
	case "!=":
		return b2v(x != y), nil
	case "<":
		return b2v(x < y), nil
	case "<=":
		return b2v(x <= y), nil
	case ">":
		return b2v(x > y), nil
	case ">=":
		return b2v(x >= y), nil
	}
	return Val{}, errExpr
}
