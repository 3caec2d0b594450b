package user

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"sync"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"
)

// A crowd is a large number of types and expressions that a process meets one
// after the other: whatever is remembered about types has to make room.

// CrowdMax is how many there are.
const CrowdMax = 1500

var crowd [CrowdMax]reflect.Type
var crowdMu sync.Mutex

// crowdType makes the i-th type. Any two of them are laid out differently, or
// differ in the names of their fields.
func crowdType(i int) reflect.Type {
	crowdMu.Lock()
	defer crowdMu.Unlock()
	if crowd[i] == nil {
		sub := reflect.StructOf([]reflect.StructField{
			{Name: "X", Type: reflect.TypeOf(uint16(0)), Tag: reflect.StructTag([]string{`struct:"big"`, `struct:"little"`}[i/4%2])},
			{Name: fmt.Sprint("Y", i), Type: reflect.TypeOf(uint8(0))},
		})
		fs := []reflect.StructField{
			{Name: "N", Type: reflect.TypeOf(uint8(0)), Tag: `struct:"sizeof=L"`},
			{Name: "A", Type: reflect.ArrayOf(1+i%7, reflect.TypeOf(uint8(0)))},
			{Name: fmt.Sprint("B", i%50), Type: reflect.TypeOf(uint32(0)), Tag: reflect.StructTag([]string{`struct:"uint8"`, `struct:"uint16,big"`, `struct:"uint32,little"`}[i%3])},
			{Name: "S", Type: sub},
			{Name: "L", Type: reflect.SliceOf(sub)},
		}
		crowd[i] = reflect.StructOf(fs)
	}
	return crowd[i]
}

// crowdValue makes a value of it, and its encoding.
func crowdValue(i int) (reflect.Value, []byte) {
	v := reflect.New(crowdType(i))
	e := v.Elem()
	n := i % 3
	var b []byte
	e.Field(0).SetUint(uint64(n))
	b = append(b, byte(n))
	for k := 0; k < e.Field(1).Len(); k++ {
		e.Field(1).Index(k).SetUint(uint64(i+k) & 0xff)
		b = append(b, byte(i+k))
	}
	e.Field(2).SetUint(uint64(i % 251))
	switch x := byte(i % 251); i % 3 {
	case 0:
		b = append(b, x)
	case 1:
		b = append(b, 0, x)
	default:
		b = append(b, x, 0, 0, 0)
	}
	sub := func(s reflect.Value, x uint16) {
		s.Field(0).SetUint(uint64(x))
		s.Field(1).SetUint(uint64(i+1) & 0xff)
		if i/4%2 == 0 {
			b = append(b, byte(x>>8), byte(x), byte(i+1))
		} else {
			b = append(b, byte(x), byte(x>>8), byte(i+1))
		}
	}
	sub(e.Field(3), uint16(i*7))
	e.Field(4).Set(reflect.MakeSlice(e.Field(4).Type(), n, n))
	for k := 0; k < n; k++ {
		sub(e.Field(4).Index(k), uint16(i*5+k))
	}
	return v, b
}

// crowdRef evaluates something about a pointer to, a list of or a map of a type
// that no other is about.
func crowdRef(i int) string {
	v, _ := crowdValue(i)
	n := i%7 + 1
	var x reflect.Value
	var text string
	switch i / 3 % 4 {
	case 0:
		x, text = v, "*x"
	case 1:
		x = reflect.MakeSlice(reflect.SliceOf(v.Type().Elem()), 2, 2)
		x.Index(1).Set(v.Elem())
		text = "x[1]"
	case 2:
		x = reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), v.Type()))
		x.SetMapIndex(reflect.ValueOf("k"), v)
		text = `*x["k"]`
	default:
		x = reflect.New(v.Type())
		x.Elem().Set(v)
		text = "**x"
	}
	env := expr.NewMapResolver(map[string]expr.Value{"x": expr.ValueOf(x.Interface())})
	got, err := expr.Eval(env, text)
	if err != nil {
		return err.Error()
	}
	if reflect.TypeOf(got) != v.Type().Elem() || !reflect.DeepEqual(got, v.Elem().Interface()) {
		return fmt.Sprintf("%s yields a %T instead of a %s", text, got, v.Type().Elem())
	}
	text = "(" + text + ").A"
	if got, err = expr.Eval(env, text); err != nil || reflect.ValueOf(got).Len() != n {
		return fmt.Sprintf("%s yields %v (%v)", text, got, err)
	}
	et := expr.TypeOf(x.Interface())
	for {
		switch t := et.(type) {
		case *expr.PtrType:
			et = t.Elem()
			continue
		case *expr.SliceType:
			et = t.Elem()
			continue
		case *expr.StructType:
			if f, ok := t.FieldByName("A"); ok {
				if a, ok := f.Type.(*expr.ArrayType); ok && a.Len() == n {
					return ""
				}
			}
			return fmt.Sprintf("the type %s has no field A of %d elements", x.Type(), n)
		}
		return ""
	}
}

// crowdOne does something with the i-th type, and tells what is wrong.
func crowdOne(i int, exprs bool) string {
	if exprs {
		if i%3 == 0 {
			return crowdRef(i)
		}
		v, _ := crowdValue(i)
		want := (2*i + i + 1 + i) & 0xff
		text := fmt.Sprintf("A[0] * 2 + S.Y%d + %d", i, i&0xff)
		got, err := expr.Eval(expr.NewStructResolver(v.Elem()), text)
		if err != nil {
			return err.Error()
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("%s yields %v instead of %d", text, got, want)
		}
		return ""
	}
	v, b := crowdValue(i)
	if i%2 == 0 {
		if n, err := restruct.SizeOf(v.Interface()); err != nil || n != len(b) {
			return fmt.Sprintf("size %d instead of %d (%v)", n, len(b), err)
		}
	}
	if i%5 != 0 {
		got, err := restruct.Pack(binary.BigEndian, v.Interface())
		if i%3 == 2 {
			got = append([]byte{}, got...)
		}
		if err != nil || !bytes.Equal(got, b) {
			return fmt.Sprintf("packed as %x instead of %x (%v)", got, b, err)
		}
	}
	d := reflect.New(crowdType(i))
	if err := restruct.Unpack(b, binary.BigEndian, d.Interface()); err != nil {
		return err.Error()
	}
	if a, b := fmt.Sprint(d.Elem()), fmt.Sprint(v.Elem()); a != b {
		return fmt.Sprintf("unpacked as %s instead of %s", a, b)
	}
	return ""
}

// Crowd goes through n of them, from first on, and comes back to some.
func Crowd(first uint64, n int, exprs bool) string {
	at := func(k int) int { return int((first%CrowdMax + uint64(k)) % CrowdMax) }
	for k := 0; k < n; k++ {
		if s := crowdOne(at(k), exprs); s != "" {
			return fmt.Sprintf("crowd wrong: number %d, type %d: %s", k, at(k), s)
		}
	}
	for _, k := range []int{0, n / 2, n - 1, int(first % uint64(n))} {
		if s := crowdOne(at(k), exprs); s != "" {
			return fmt.Sprintf("crowd wrong: number %d of %d again, type %d: %s", k, n, at(k), s)
		}
	}
	return "crowd right"
}
