package worlds

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"unicode/utf8"

	"github.com/go-restruct/restruct/expr"
	"verif.sim/simrt"
	"verif.sim/spec"
	"verif.sim/user"
)

// The text world: expressions are parsed from readers that fail or end
// anywhere.

func init() {
	worldOf["C12"] = world{genC12, runC12}
}

// TextPlan is a text and what goes wrong while it is read.
type TextPlan struct {
	Texts  []string    `json:"texts"`
	Faults []TextFault `json:"faults,omitempty"` // these only, instead of everything everywhere
	Envs   []uint64    `json:"envs"`
	Bound  int64       `json:"bound,omitempty"`
	Long   *LongText   `json:"long,omitempty"`
}

// LongText is one piece of text repeated, and how it is delivered.
type LongText struct {
	Kind   int    `json:"kind"`
	N      int    `json:"n"`
	Reader string `json:"reader"`
	Mode   string `json:"mode,omitempty"`
}

// longKinds are what comes before, again and again, and after.
var longKinds = [][3]string{
	{"", "a", ""}, {"0.", "1", ""}, {"", "9", ""}, {"0", "0", "1"}, {"\"", "s", "\""}, {"\"", "\\n", "\""}, {"\"", "\u00e4", "\""},
	{"\"", "s", ""}, {"'", "a", "'"}, {"", " ", "1"}, {"1", " ", ""}, {"1", "\t \t", "+ 1"}, {"1", "+1", ""}, {"1", "+1", "+"},
	{"f(1", ",1", ")"}, {"f(1", ",1", ""}, {"a", "[0]", ""}, {"a", ".b", ""}, {"a", ".b", "."}, {"true", "&&true", ""},
	{"a", "?1:a", "?1:2"}, {"0x", "f", ""}, {"1 ", "x ", ""}, {"", "\u00e4", ""}, {"$'", "s", "'"}, {"$", "a", ""}, {"1", "<<1", "*2"},
}

func (l *LongText) text() string {
	k := longKinds[l.Kind%len(longKinds)]
	return k[0] + strings.Repeat(k[1], l.N) + k[2]
}

// TextFault is what a reader does.
type TextFault struct {
	Text   int    `json:"text"`
	Reader string `json:"reader"`
	Mode   string `json:"mode,omitempty"`
	At     int    `json:"at"`
}

var (
	errReader   = errors.New("injected read error")
	readErrors  = []error{errReader, fmt.Errorf("reader: %w", io.EOF), io.ErrUnexpectedEOF, &os.PathError{Op: "read", Path: "x", Err: io.EOF}, endError{}, errors.New("EOF"), io.ErrNoProgress, io.ErrClosedPipe, (*user.TextlessError)(nil), errors.Join(io.EOF, errReader)}
	readerKinds = []string{"strings", "buffer", "bytes", "bufio", "bufio1", "bufio-late", "lenient", "strict"}
	runeModes   = []string{"eof", "err", "err-once", "err-rune", "eof-once", "panic-err", "panic-str", "unread"}
	byteModes   = []string{"byte-eof", "byte-err", "byte-unexpected"}
)

// endError takes itself for the end.
type endError struct{}

func (endError) Error() string        { return "the end, not" }
func (endError) Is(target error) bool { return target == io.EOF }
func (endError) Unwrap() error        { return io.EOF }

func genC12(r *spec.Rng, prop string, thorough bool) *Plan {
	p := &Plan{World: "text", MapSeed: r.U64(), Text: &TextPlan{Envs: []uint64{r.U64() % 1000, r.U64() % 1000}}}
	n := 1 + r.N(2)
	for i := 0; i < n; i++ {
		t := ""
		switch k := r.N(12); {
		case k < 3:
			t = user.ExprText(r)
		case k == 3:
			t = user.BadText(r, r.N(2))
		case k < 11:
			t = user.LexText(r, r.N(4))
		default:
			l := 200 + r.N(800)
			if thorough {
				l += r.N(4000)
			}
			t = user.LongText(r, l)
		}
		p.Text.Texts = append(p.Text.Texts, t)
	}
	if r.P(1, 30) {
		l := &LongText{Kind: r.N(len(longKinds)), N: 8000 + r.N(12000), Reader: r.Pick("ParseString", "strict", "lenient", "bufio", "strings")}
		if thorough {
			l.N *= 4
		}
		if r.P(1, 2) {
			l.Mode = r.Pick("err", "panic-err", "eof")
			l.Reader = r.Pick("strict", "lenient")
		}
		p.Variant, p.Text.Long, p.Text.Texts = "long", l, []string{"1"}
		return p
	}
	p.Variant = r.Pick("", "", "tasks")
	if p.Variant == "tasks" {
		p.Policy = policy(r, 2, 200+int64(r.N(3000)))
	}
	return p
}

// runes is a reader as strict as the interface allows.
type runes struct {
	rs     []rune
	at     int
	last   bool // the last call was a successful read
	mode   string
	fail   int
	reads  int
	unread int
	fired  bool
	once   bool
	misuse bool
	// lenient readers unread the last rune read, whatever came after it,
	// as the interface allows too.
	lenient bool
}

func (r *runes) ReadRune() (rune, int, error) {
	simrt.H(-4)
	r.reads++
	r.last = false
	if r.at == r.fail && !r.once {
		switch r.mode {
		case "err":
			r.fired = true
			return 0, 0, readErrors[(r.at+len(r.rs))%len(readErrors)]
		case "err-once":
			r.fired, r.once = true, true
			return 0, 0, readErrors[(r.at+len(r.rs)+3)%len(readErrors)]
		case "err-rune":
			// The rune is there, and the error with it.
			r.fired, r.once = true, true
			if r.at < len(r.rs) {
				r.at++
				return r.rs[r.at-1], utf8.RuneLen(r.rs[r.at-1]), readErrors[r.at%len(readErrors)]
			}
			return 0, 0, errReader
		case "eof":
			r.fired = true
			return 0, 0, io.EOF
		case "eof-once":
			r.fired, r.once = true, true
			return 0, 0, io.EOF
		case "panic-err":
			r.fired = true
			panic(readErrors[(r.at+len(r.rs)+6)%len(readErrors)])
		case "panic-str":
			r.fired = true
			panic("injected panic")
		}
	}
	if r.at >= len(r.rs) {
		return 0, 0, io.EOF
	}
	c := r.rs[r.at]
	r.at++
	r.last = true
	return c, utf8.RuneLen(c), nil
}

func (r *runes) UnreadRune() error {
	simrt.H(-4)
	r.unread++
	if r.mode == "unread" && r.unread == r.fail+1 {
		r.fired = true
		return errReader
	}
	if !r.last && r.lenient {
		if r.at > 0 && r.fired {
			r.at--
		}
		return nil
	}
	if !r.last {
		r.misuse = true
		return errors.New("UnreadRune: the last call was not a successful ReadRune")
	}
	r.last = false
	r.at--
	return nil
}

// slow delivers bytes in pieces, and an error behind them.
type slow struct {
	b     []byte
	piece int
	late  bool // the error comes with the last bytes
	err   error
	reads int
}

func (s *slow) Read(p []byte) (int, error) {
	simrt.H(-4)
	s.reads++
	n := len(s.b)
	if s.piece > 0 && n > s.piece {
		n = s.piece
	}
	n = copy(p, s.b[:n])
	s.b = s.b[n:]
	if len(s.b) == 0 && (n == 0 || s.late) {
		return n, s.err
	}
	return n, nil
}

type parsed struct {
	prog  *expr.Program
	ok    bool
	fail  string
	steps int64
	reads int
	fired bool
	done  bool
}

// parse runs one parse in the current task.
func parse(text string, f TextFault) (o *parsed) {
	o = &parsed{}
	t := simrt.Current()
	start := t.Steps()
	var rd io.RuneScanner
	var own *runes
	var sl *slow
	switch {
	case strings.HasPrefix(f.Mode, "byte-") || f.Reader[:3] == "buf" && f.Reader != "buffer":
		sl = &slow{b: []byte(text), err: io.EOF, piece: 7}
		switch f.Reader {
		case "bufio1":
			sl.piece = 1
		case "bufio-late":
			sl.late = true
		}
		switch f.Mode {
		case "byte-eof":
			sl.b = sl.b[:f.At]
			o.fired = true
		case "byte-err", "byte-unexpected":
			sl.b = sl.b[:f.At]
			sl.err = readErrors[f.At%len(readErrors)]
			if f.Mode == "byte-unexpected" {
				sl.err = io.ErrUnexpectedEOF
			}
			o.fired = true
		}
		rd = bufio.NewReaderSize(sl, 16)
	case f.Reader == "strict" || f.Reader == "lenient":
		own = &runes{rs: []rune(text), mode: f.Mode, fail: f.At, lenient: f.Reader == "lenient"}
		rd = own
	case f.Reader == "strings":
		rd = strings.NewReader(text)
	case f.Reader == "bytes":
		rd = bytes.NewReader([]byte(text))
	default:
		rd = bytes.NewBufferString(text)
	}
	defer func() {
		if r := recover(); r != nil {
			o.fail = panicText(r)
			o.prog = nil
			o.done = true
		}
		o.steps = t.Steps() - start
		if own != nil {
			o.reads, o.fired = own.reads+own.unread, own.fired
		}
		if sl != nil {
			o.reads = sl.reads
		}
		o.ok = o.prog != nil
	}()
	if f.Reader == "ParseString" {
		o.prog = expr.ParseString(text)
	} else {
		o.prog = expr.Parse(rd)
	}
	o.done = true
	return o
}

// meaning renders what the program does.
func (c *ctx) meaning(o *parsed, envs []uint64) string {
	if !o.ok {
		return "fails"
	}
	var b strings.Builder
	for i, e := range envs {
		v, err := expr.EvalProgram(user.NewResolver(i%4, c.env(e)), o.prog)
		if err != nil {
			b.WriteString(errText(err) + "; ")
		} else {
			b.WriteString(user.Show(v) + "; ")
		}
	}
	return b.String()
}

const (
	stepsPerRune = 1500
	stepsPerText = 20000
	readsPerRune = 200
)

const (
	bytesPerRune = 500
	bytesPerText = 1 << 20
)

// runLong parses a long text and looks at what that took.
func runLong(l *LongText, p *Plan, rep *Report) {
	if l.N < 0 || l.N > 1<<20 || l.Reader == "" {
		skip()
	}
	fresh(true)
	text := l.text()
	n := len([]rune(text))
	f := TextFault{Reader: l.Reader, Mode: l.Mode, At: n}
	if l.Mode != "" {
		f.At = n - n/16
		rep.fault("reader " + l.Mode)
	}
	rep.Nontrivial = true
	var o *parsed
	var mem int64
	s := singleIn(p.MapSeed, 10*budget, rep, func(t *simrt.Task, ctl *user.Ctl) {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		o = parse(text, f)
		runtime.ReadMemStats(&b)
		mem = int64(b.TotalAlloc - a.TotalAlloc)
	})
	rep.Ops++
	if o == nil || !o.done {
		rep.fail("endless", "parsing %d runes (%+v) did not stop (deadlock %v, overrun %v)", n, *l, s.Deadlock, s.Overrun)
		return
	}
	rep.mix(fmt.Sprint(o.ok, o.steps, o.reads))
	if f.Mode != "" && f.Mode != "eof" && o.fired && o.ok {
		rep.fail("program", "%d runes (%+v) with a failing reader are a program", n, *l)
		return
	}
	rep.max("steps per rune", o.steps/int64(n))
	rep.max("bytes per rune", mem/int64(n))
	switch {
	case o.steps > stepsPerText+stepsPerRune*int64(n):
		rep.fail("steps", "parsing %d runes (%+v) took %d steps", n, *l, o.steps)
	case o.reads > readsPerRune*(n+10):
		rep.fail("reads", "parsing %d runes (%+v) called the reader %d times", n, *l, o.reads)
	case mem > bytesPerText+bytesPerRune*int64(n):
		rep.fail("memory", "parsing %d runes (%+v) took more than %d bytes of memory per rune", n, *l, bytesPerRune)
	}
}

func runC12(p *Plan, rep *Report) {
	tp := p.Text
	if tp == nil || len(tp.Texts) == 0 {
		skip()
	}
	if tp.Long != nil {
		runLong(tp.Long, p, rep)
		return
	}
	c := newCtx(p)
	fresh(true)
	memo := map[string]string{}
	run := func(text string, f TextFault) (o *parsed, means string) {
		o = &parsed{fail: "did not complete"}
		s := single(p.MapSeed, rep, func(t *simrt.Task, ctl *user.Ctl) {
			o = parse(text, f)
			t.SetLimits(1<<40, 1<<40)
			means = c.meaning(o, tp.Envs)
		})
		rep.Ops++
		if !o.done {
			rep.fail("endless", "parsing %q through %+v did not stop (deadlock %v, overrun %v)", text, f, s.Deadlock, s.Overrun)
		}
		return o, means
	}
	plain := func(text string) string {
		m, ok := memo[text]
		if !ok {
			_, m = run(text, TextFault{Reader: "ParseString"})
			memo[text] = m
		}
		return m
	}
	one := func(f TextFault) bool {
		if f.Text >= len(tp.Texts) {
			skip()
		}
		text := tp.Texts[f.Text]
		rs := []rune(text)
		n := len(rs)
		before := text // what is read up to the fault
		if strings.HasPrefix(f.Mode, "byte-") {
			if f.At > len(text) {
				skip()
			}
			before = text[:f.At]
		} else if f.Mode != "" && f.Mode != "unread" {
			if f.At > n {
				skip()
			}
			before = string(rs[:f.At])
		}
		o, means := run(text, f)
		if rep.Violation != "" {
			return false
		}
		rep.mix(means)
		if limit := stepsPerText + stepsPerRune*int64(n); o.steps > limit {
			rep.fail("steps", "parsing %d runes took %d steps: %q through %+v", n, o.steps, text, f)
			return false
		}
		rep.max("steps per rune", o.steps/int64(n+10))
		if n > 0 {
			rep.max("reads per rune", int64(o.reads/(n+10)))
		}
		if o.reads > readsPerRune*(n+10) {
			rep.fail("reads", "parsing %d runes called the reader %d times: %q through %+v", n, o.reads, text, f)
			return false
		}
		if f.Mode != "" && o.fired {
			rep.fault("reader " + f.Mode)
			rep.Nontrivial = true
		}
		want := []string{}
		switch {
		case f.Mode == "" || !o.fired:
			want = []string{plain(text)}
		case f.Mode == "eof" || f.Mode == "byte-eof":
			want = []string{plain(before)}
		case f.Mode == "eof-once":
			// Where a text ends twice is not said.
			want = []string{"fails", plain(before), plain(text)}
		case f.Mode == "unread":
			want = []string{"fails", plain(text)}
		default:
			want = []string{"fails"}
		}
		if rep.Violation != "" {
			return false
		}
		for _, w := range want {
			if means == w {
				return true
			}
		}
		rep.fail("program", "%q through %+v: what was read is %q\n got  %s (%s)\n want %s", text, f, before, means, o.fail, strings.Join(want, "\n or   "))
		return false
	}
	cut := func(text string) bool {
		why := user.Cut(text)
		if why == "" {
			return true
		}
		rep.fault("text ends in " + why)
		if m := plain(text); m != "fails" && rep.Violation == "" {
			rep.fail("cut", "%q ends in %s but is accepted: %s", text, why, m)
		}
		return rep.Violation == ""
	}
	if len(tp.Faults) > 0 {
		for _, f := range tp.Faults {
			if f.Mode == "cut" {
				if f.Text >= len(tp.Texts) {
					skip()
				}
				rs := []rune(tp.Texts[f.Text])
				if f.At > len(rs) {
					skip()
				}
				if !cut(string(rs[:f.At])) {
					return
				}
			} else if !one(f) {
				return
			}
		}
		return
	}
	pin := func(f TextFault) {
		rep.Pin = p.Clone()
		rep.Pin.Text.Faults = []TextFault{f}
	}
	rng := spec.NewRng(p.Seed ^ 0xc12)
	for ti, text := range tp.Texts {
		n := len([]rune(text))
		limit := 120
		for _, k := range readerKinds {
			f := TextFault{Text: ti, Reader: k}
			if !one(f) {
				pin(f)
				return
			}
		}
		for at := 0; at <= n; at++ {
			if n > limit && !rng.P(limit, n) {
				continue
			}
			f := TextFault{Text: ti, Mode: "cut", At: at}
			if !cut(string([]rune(text)[:at])) {
				pin(f)
				return
			}
			for _, m := range runeModes {
				f := TextFault{Text: ti, Reader: rng.Pick("strict", "lenient"), Mode: m, At: at}
				if !one(f) {
					pin(f)
					return
				}
			}
		}
		for at := 0; at <= len(text); at++ {
			if len(text) > limit && !rng.P(limit, len(text)) {
				continue
			}
			f := TextFault{Text: ti, Reader: readerKinds[3+rng.N(3)], Mode: byteModes[rng.N(3)], At: at}
			if !one(f) {
				pin(f)
				return
			}
		}
	}
	if p.Variant == "tasks" {
		together(p, rep, c, plain)
	}
}

// together parses all texts at the same time.
func together(p *Plan, rep *Report, c *ctx, plain func(string) string) {
	tp := p.Text
	var want []string
	texts := append([]string{}, tp.Texts...)
	texts = append(texts, texts[0])
	for _, t := range texts {
		want = append(want, plain(t))
	}
	got := make([]*parsed, len(texts))
	means := make([]string, len(texts))
	s := simrt.New(p.Policy, p.MapSeed, budget)
	for i := range texts {
		i := i
		s.Add(&user.Ctl{}, func() {
			got[i] = parse(texts[i], TextFault{Reader: "strict"})
			means[i] = c.meaning(got[i], tp.Envs)
		})
	}
	s.Run()
	rep.Steps += s.Steps()
	rep.Runs++
	rep.Switches += s.Switches
	rep.Hot += s.HotSwitch
	rep.Hash = spec.Mix(rep.Hash ^ s.Hash())
	rep.Trace = s.Trace()
	for i := range texts {
		if means[i] != want[i] {
			rep.fail("together", "%q parsed while others are parsed too\n got  %s\n want %s", texts[i], means[i], want[i])
			return
		}
	}
}
