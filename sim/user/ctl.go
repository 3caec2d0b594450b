// Package user is the simulated user of the library: codecs, byte orders,
// resolvers and functions whose every invocation goes through a fault
// controller.
package user

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"

	"verif.sim/simrt"
)

// SimError is an injected error. It is told apart by identity.
type SimError struct{ N int }

func (e *SimError) Error() string { return fmt.Sprintf("injected error %d", e.N) }

// SliceError is an injected error that cannot be compared with ==.
type SliceError []int

func (e SliceError) Error() string { return fmt.Sprintf("injected slice error %v", []int(e)) }

// NilError is an injected error that is a nil pointer.
type NilError struct{}

func (e *NilError) Error() string { return "injected error without anything in it" }

// EmptyError is an injected error whose value is zero and whose text is empty.
type EmptyError struct{}

func (e EmptyError) Error() string { return "" }

// TextlessError is an injected error that cannot be put into words.
type TextlessError struct{ text *string }

func (e *TextlessError) Error() string { return *e.text }

// TempError is an injected error of the kind networks report.
type TempError struct{ N int }

func (e *TempError) Error() string   { return fmt.Sprintf("injected temporary error %d", e.N) }
func (e *TempError) Temporary() bool { return true }
func (e *TempError) Timeout() bool   { return true }

// AnyError is an injected error that claims to be any other.
type AnyError struct{ N int }

func (e *AnyError) Error() string     { return fmt.Sprintf("injected error %d like any other", e.N) }
func (e *AnyError) Is(err error) bool { return true }
func (e *AnyError) Unwrap() error     { return Known[e.N%len(Known)] }

// Known are errors that codecs return and libraries know.
var Known = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortBuffer, io.ErrShortWrite, io.ErrNoProgress, io.ErrClosedPipe, strconv.ErrRange, &strconv.NumError{Func: "ParseInt", Num: "x", Err: strconv.ErrSyntax}, errors.ErrUnsupported, os.ErrNotExist}

// PanicValue is an injected panic value that is no error.
type PanicValue struct{ N int }

// Fault says what to do wrong at which callback.
type Fault struct {
	At   int    `json:"at"`             // ordinal of the callback
	Mode string `json:"mode"`           // see modes below
	Kind string `json:"kind,omitempty"` // only count callbacks of this kind
}

// Modes of faults. err*: returns an error. rem*: hands back a wrong remainder.
// size*: lies about the size. panic*: panics.
var (
	ErrModes   = []string{"err", "err-rest", "err-late", "err-slice", "err-known", "err-known", "err-wrapped", "err-typednil", "err-empty", "err-textless", "err-temp", "err-any"}
	RemModes   = []string{"rem-nil", "rem-long", "rem-foreign", "rem-same", "rem-short", "rem-empty"}
	SizeModes  = []string{"size-neg", "size-zero", "size-short", "size-long"}
	PanicModes = []string{"panic-err", "panic-known", "panic-str", "panic-custom", "panic-nil", "panic-runtime", "panic-nilptr", "panic-stringer", "panic-typednil", "panic-textless", "panic-empty", "panic-temp",
		"panic-assert", "panic-div", "panic-nilmap", "panic-bounds", "panic-unhash", "panic-cycle", "panic-ptr", "panic-func", "panic-struct", "panic-mixed", "panic-list"}
)

// Event is one callback.
type Event struct {
	Kind string
	Type string
}

// Raised is an error that a codec returned.
type Raised struct {
	Err error
	At  int // how many callbacks there had been
}

// raise records an error that a codec returns.
func raise(rest []byte, err error) ([]byte, error) {
	if c := ctl(); c != nil && err != nil {
		c.Raised = append(c.Raised, Raised{err, len(c.Events)})
	}
	return rest, err
}

// Ctl controls the callbacks of one task.
type Ctl struct {
	Faults []Fault
	Armed  bool
	Events []Event
	Fired  []int // indexes of events at which a fault was injected
	Errs   []error
	Raised []Raised // errors that codecs returned, injected or not
	counts map[string]int
	n      int

	// OnCall is called by Probe codecs, byte orders, and the functions and
	// resolvers of expressions: what they do in the middle of an operation.
	OnCall func(kind string)
}

// Reset starts counting callbacks again.
func (c *Ctl) Reset(faults []Fault) {
	*c = Ctl{Faults: faults, Armed: len(faults) > 0, counts: map[string]int{}, OnCall: c.OnCall}
}

func ctl() *Ctl {
	if t := simrt.Current(); t != nil {
		c, _ := t.Local.(*Ctl)
		return c
	}
	return nil
}

type stringer struct{}

func (stringer) String() string { panic("stringer panics too") }

// hook counts the callback and returns the mode of the fault to inject.
func hook(kind, typ string) string {
	simrt.H(-2)
	c := ctl()
	if c == nil {
		return ""
	}
	if c.counts == nil {
		c.counts = map[string]int{}
	}
	i := len(c.Events)
	if i < 20000 {
		c.Events = append(c.Events, Event{kind, typ})
	}
	c.n++
	c.counts[kind]++
	if kind == "call" || kind == "resolve" || kind == "order" {
		probe(kind)
	}
	for _, f := range c.Faults {
		if f.Kind == "" && f.At != c.n || f.Kind != "" && (f.Kind != kind || f.At != c.counts[kind]) {
			continue
		}
		m := f.Mode
		ok := false
		switch {
		case m[0] == 'p':
			ok = true
		case m[0] == 'e' || m[0] == 'r':
			ok = kind == "pack" || kind == "unpack"
		case m[0] == 's':
			ok = kind == "size" || kind == "bitsize"
		}
		if !ok {
			continue
		}
		c.Fired = append(c.Fired, i)
		switch m {
		case "panic-err":
			err := &SimError{1000 + len(c.Errs)}
			c.Errs = append(c.Errs, err)
			panic(err)
		case "panic-known":
			err := Known[(c.n+len(typ))%len(Known)]
			c.Errs = append(c.Errs, err)
			panic(err)
		case "panic-typednil":
			err := (*TextlessError)(nil)
			c.Errs = append(c.Errs, err)
			panic(err)
		case "panic-textless":
			err := &TextlessError{}
			c.Errs = append(c.Errs, err)
			panic(err)
		case "panic-empty":
			err := EmptyError{}
			c.Errs = append(c.Errs, err)
			panic(err)
		case "panic-temp":
			err := &TempError{len(c.Errs)}
			c.Errs = append(c.Errs, err)
			panic(err)
		case "panic-str":
			panic("injected panic")
		case "panic-custom":
			panic(PanicValue{7})
		case "panic-nil":
			panic(nil)
		case "panic-runtime":
			var a []int
			_ = a[len(c.Events)]
		case "panic-nilptr":
			var p *PanicValue
			_ = p.N
		case "panic-stringer":
			panic(stringer{})
		case "panic-assert":
			var x interface{} = c
			_ = x.(fmt.Stringer)
		case "panic-div":
			_ = 1 / (c.n - c.n)
		case "panic-nilmap":
			var m map[string]int
			m[typ] = 1
		case "panic-bounds":
			_ = foreign[c.n+60 : len(typ)]
		case "panic-unhash":
			m := map[interface{}]int{}
			m[foreign] = 1
		case "panic-cycle":
			m := map[string]interface{}{}
			m["self"] = []interface{}{m}
			panic(m)
		case "panic-ptr":
			panic(&struct{ At *Ctl }{c})
		case "panic-func":
			panic(fnHook)
		case "panic-mixed":
			panic(struct {
				At *Ctl
				N  int
			}{c, c.n})
		case "panic-list":
			panic([]*int{&c.n})
		case "panic-struct":
			panic(struct{ A, B interface{} }{c, &c.n})
		}
		return m
	}
	return ""
}

// Callback is the controller's hook for callbacks made elsewhere.
func Callback(kind, typ string) string { return hook(kind, typ) }

func failure() error {
	c := ctl()
	err := &SimError{len(c.Errs)}
	c.Errs = append(c.Errs, err)
	return err
}

var foreign = make([]byte, 64)

// wrong returns a wrong remainder, or an error.
func wrong(mode string, buf, rest []byte) ([]byte, error) {
	return raise(wrong1(mode, buf, rest))
}

func wrong1(mode string, buf, rest []byte) ([]byte, error) {
	switch mode {
	case "err":
		return nil, failure()
	case "err-rest":
		return buf, failure()
	case "err-late":
		return rest, failure()
	case "err-temp":
		c := ctl()
		err := &TempError{len(c.Errs)}
		c.Errs = append(c.Errs, err)
		return rest, err
	case "err-any":
		c := ctl()
		err := &AnyError{len(c.Errs)}
		c.Errs = append(c.Errs, err)
		return rest, err
	case "err-slice":
		c := ctl()
		err := SliceError{len(c.Errs)}
		c.Errs = append(c.Errs, err)
		return rest, err
	case "err-known":
		c := ctl()
		err := Known[c.n%len(Known)]
		c.Errs = append(c.Errs, err)
		return rest, err
	case "err-wrapped":
		c := ctl()
		err := fmt.Errorf("codec: %w", Known[c.n%len(Known)])
		c.Errs = append(c.Errs, err)
		return rest, err
	case "err-typednil":
		c := ctl()
		var err *NilError
		c.Errs = append(c.Errs, err)
		return rest, err
	case "err-textless":
		c := ctl()
		err := &TextlessError{}
		if c.n%2 == 0 {
			err = nil
		}
		c.Errs = append(c.Errs, err)
		return rest, err
	case "err-empty":
		c := ctl()
		c.Errs = append(c.Errs, EmptyError{})
		return rest, EmptyError{}
	case "rem-nil":
		return nil, nil
	case "rem-long":
		return append(append([]byte{}, buf...), 1, 2, 3, 4, 5, 6, 7, 8), nil
	case "rem-foreign":
		return append([]byte{}, foreign[:16]...), nil
	case "rem-same":
		return buf, nil
	case "rem-short":
		if len(rest) > 0 {
			return rest[1:], nil
		}
		return nil, nil
	case "rem-empty":
		return rest[len(rest):], nil
	}
	return rest, nil
}

func size(kind, typ string, n int) int {
	switch hook(kind, typ) {
	case "size-neg":
		return -3
	case "size-zero":
		return 0
	case "size-short":
		return n - 1
	case "size-long":
		return n + 3
	}
	return n
}
