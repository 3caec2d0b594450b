// Command modeltest compares the reference model with the library on random
// layouts: a development aid.
package main

import (
	"bytes"
	"encoding/binary"
	"flag"
	"fmt"
	"os"
	"reflect"

	"github.com/go-restruct/restruct"
	"verif.sim/spec"
	"verif.sim/user"
)

func main() {
	from := flag.Int("from", 1, "")
	n := flag.Int("n", 2000, "")
	max := flag.Int("max", 5, "")
	expr := flag.Bool("expr", true, "")
	signed := flag.Bool("signed", false, "")
	v := flag.Bool("v", false, "")
	flag.Parse()
	restruct.EnableExprBeta()
	bad := 0
	stats := map[string]int{}
	for s := *from; s < *from+*n && bad < *max; s++ {
		r := spec.NewRng(uint64(s))
		o := spec.Opt{Expr: *expr && r.P(2, 3), Bits: r.P(2, 3), Signed: *signed, Ptr: true, Parent: r.P(1, 3), While: r.P(1, 4), Depth: r.N(3), Fields: 7, MaxLen: 5, Void: r.P(1, 3), Short: false}
		if r.P(1, 2) {
			o.Custom = user.All
		}
		if o.Expr {
			o.Static = []string{"Pkt", "Chain", "Deep1", "Up1", "Knit", "Anon", "Anon", "png.File"}
		} else {
			o.Static = []string{"Deep1"}
			if o.Custom != nil {
				o.Custom = user.Plain
			}
		}
		t := spec.Gen(r, o)
		little := r.P(1, 2)
		var bo binary.ByteOrder = binary.BigEndian
		if little {
			bo = binary.LittleEndian
		}
		val := spec.Value(t, r, 5)
		if *v {
			fmt.Println(s, t.Go())
		}
		fail := func(what string, a ...interface{}) {
			bad++
			fmt.Println("seed", s, what, fmt.Sprintln(a...), "\n  ", t.Go(), "\n  ", spec.Dump(t, val), "little", little)
		}
		enc, spans, err := spec.Encode(t, val, little)
		if err != nil {
			stats["encode model error"]++
			continue
		}
		_ = spans
		ov := reflect.New(t.Go())
		ov.Elem().Set(spec.ValueOver(t, spec.NewRng(uint64(s)), 5))
		oenc, _, oerr := spec.Encode(t, ov.Elem(), little)
		if oerr == nil || oerr == spec.ErrValue {
			text := spec.Dump(t, ov.Elem())
			sz, serr := restruct.SizeOf(ov.Interface())
			if msz, merr := spec.Sized(t, ov.Elem()); (serr == nil) != (merr == nil) || serr == nil && sz != msz {
				fail("over size", fmt.Sprintf("%v %v %v %d %d %d\n  %s", serr, merr, oerr, sz, msz, len(oenc), text))
				continue
			}
			ob, err := restruct.Pack(bo, ov.Interface())
			if oerr == nil && (err != nil || !bytes.Equal(ob, oenc)) || oerr != nil && err == nil {
				fail("over", fmt.Sprintf("%v %v\n  %x lib\n  %x model\n  %s", err, oerr, ob, oenc, text))
				continue
			}
			stats[fmt.Sprint("over ", oerr == nil)]++
		}
		pv := reflect.New(t.Go())
		pv.Elem().Set(val)
		before := spec.Dump(t, pv.Elem())
		b, err := restruct.Pack(bo, pv.Interface())
		if err != nil {
			fail("pack err", err)
			continue
		}
		if !bytes.Equal(b, enc) {
			fail("pack differs", fmt.Sprintf("\n  %x lib\n  %x model", b, enc))
			continue
		}
		if after := spec.Dump(t, pv.Elem()); after != before {
			fail("pack altered", after)
			continue
		}
		if w := spec.OddRefs(t, pv.Elem()); w != "" {
			fail("packed", w)
			continue
		}
		sz, err := restruct.SizeOf(pv.Interface())
		if err != nil || sz != len(enc) {
			fail("size", sz, err, len(enc))
			continue
		}
		un := func(in []byte, what string) bool {
			mv := reflect.New(t.Go())
			d := &spec.Decoder{}
			_, merr := d.Run(t, in, little, mv.Elem())
			lv := reflect.New(t.Go())
			lerr := restruct.Unpack(in, bo, lv.Interface())
			if (merr != nil) != (lerr != nil) {
				if merr != nil {
					// library accepts what the model does not
				}
				fail(what+" error differs", "model", merr, "lib", lerr, fmt.Sprintf("%x", in))
				return false
			}
			if merr != nil {
				stats[what+" err"]++
				return true
			}
			stats[what+" ok"]++
			m, l := spec.Dump(t, mv.Elem()), spec.Dump(t, lv.Elem())
			if m != l {
				bd := &spec.Decoder{BuggyExtend: true}
				bv := reflect.New(t.Go())
				bd.Run(t, in, little, bv.Elem())
				if bd.Differs && spec.Dump(t, bv.Elem()) == l {
					stats["known"]++
					return true
				}
				fail(what+" value differs", fmt.Sprintf("%x\n  model %s\n  lib   %s", in, m, l))
				return false
			}
			if w := spec.Odd(t, lv.Elem()); w != "" {
				fail(what, w, fmt.Sprintf("%x", in))
				return false
			}
			if what == "unpack" && m != before {
				fail("model roundtrip", m)
				return false
			}
			return true
		}
		if !un(enc, "unpack") {
			continue
		}
		ok := true
		for i := 0; i < len(enc) && ok; i++ {
			ok = un(enc[:i:i], "prefix")
		}
		for i := 0; i < 20 && ok && len(enc) > 0; i++ {
			d := append([]byte{}, enc...)
			for j := 0; j <= r.N(3); j++ {
				d[r.N(len(d))] ^= byte(1 << uint(r.N(8)))
			}
			ok = un(d, "damage")
		}
	}
	fmt.Println(stats, "bad", bad)
	if bad > 0 {
		os.Exit(1)
	}
}
