package spec

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

// Raw renders everything a value consists of, encoded or not: what lies in
// lists behind their last element, which pointers and lists are nil, what
// unexported fields hold. Left out are references to parents, and, unless
// asked for, counts.
func Raw(v reflect.Value, counts bool) string {
	w := &rawer{counts: counts, seen: map[uintptr]bool{}}
	w.value(v)
	return w.b.String()
}

type rawer struct {
	b      strings.Builder
	counts bool
	seen   map[uintptr]bool
}

// filled returns which fields of a struct type packing may fill in.
func filled(t reflect.Type, counts bool) map[string]bool {
	m := map[string]bool{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		for _, s := range strings.Split(f.Tag.Get("struct"), ",") {
			switch {
			case s == "parent" || s == "root":
				m[f.Name] = true
			case strings.HasPrefix(s, "sizeof=") && !counts:
				m[f.Name] = true
			case strings.HasPrefix(s, "sizefrom=") && !counts:
				m[s[len("sizefrom="):]] = true
			}
		}
	}
	return m
}

func (w *rawer) value(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		w.b.WriteString("nothing")
	case reflect.Bool:
		fmt.Fprint(&w.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(&w.b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(&w.b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(&w.b, "f%x", math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprintf(&w.b, "c%x,%x", math.Float64bits(real(v.Complex())), math.Float64bits(imag(v.Complex())))
	case reflect.String:
		fmt.Fprintf(&w.b, "%q", v.String())
	case reflect.Ptr:
		switch {
		case v.IsNil():
			w.b.WriteString("nil")
		case w.seen[v.Pointer()]:
			w.b.WriteString("&^")
		default:
			w.seen[v.Pointer()] = true
			w.b.WriteString("&")
			w.value(v.Elem())
		}
	case reflect.Interface:
		if v.IsNil() {
			w.b.WriteString("nil")
			return
		}
		w.b.WriteString(v.Elem().Type().String())
		w.value(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			w.b.WriteString("nil")
			return
		}
		fmt.Fprintf(&w.b, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			w.value(v.Index(i))
			w.b.WriteByte(' ')
		}
		if v.Cap() > v.Len() {
			w.b.WriteByte('|')
			u := v.Slice(0, v.Cap())
			for i := v.Len(); i < u.Len(); i++ {
				w.value(u.Index(i))
				w.b.WriteByte(' ')
			}
		}
		w.b.WriteByte(']')
	case reflect.Array:
		w.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			w.value(v.Index(i))
			w.b.WriteByte(' ')
		}
		w.b.WriteByte(']')
	case reflect.Struct:
		m := filled(v.Type(), w.counts)
		w.b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			if m[n] {
				continue
			}
			w.b.WriteString(n + ":")
			w.value(v.Field(i))
			w.b.WriteByte(' ')
		}
		w.b.WriteByte('}')
	case reflect.Map:
		fmt.Fprintf(&w.b, "map of %d", v.Len())
	default:
		fmt.Fprintf(&w.b, "%s %v", v.Kind(), v.IsNil())
	}
}
