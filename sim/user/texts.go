package user

import (
	"fmt"
	"strings"

	"verif.sim/spec"
)

var literals = []string{
	`""`, `"a"`, `"a b"`, `"\n\t\\"`, `"\""`, `"\x41\x7f"`, `"\101\000"`, `"\u00e9"`, `"\U0001F600"`, `"é世界😀"`, `"(["`, `")]"`, `"'"`, `"a ? b"`, `"+"`,
	`$'x'`, `$'\''`, `$'a"b'`, `$'é\u4e16'`, `$'(\\'`, `$''`, `$'\x41 + '`,
	`'x'`, `'\n'`, `'\''`, `'\\'`, `'é'`, `'世'`, `'\x41'`, `'\u00e9'`, `'('`, `'"'`, `'\101'`, `'\U0001F600'`,
	"0x1F", "0xff", "017", "1.5", ".5", "12.", "1e3", "18446744073709551615", "0", "-7", "0b101", "3.25e2", "0xABCDEF",
}

// LexText generates the text of an expression with every sort of token in it.
// It need not evaluate.
func LexText(r *spec.Rng, depth int) string {
	ws := func() string { return r.Pick("", " ", "", "\t", "  ", " \t ") }
	atom := func() string {
		switch r.N(6) {
		case 0, 1, 2:
			return literals[r.N(len(literals))]
		case 3:
			return pick(r, goodInt)
		case 4:
			return pick(r, goodAny)
		}
		return r.Pick("é", "_x", "true", "false", "nil", "env.G.Next.N", "a1", "pkg.Add(1,2)", "ΑΒ", "nope")
	}
	if depth == 0 {
		return ws() + atom() + ws()
	}
	sub := func() string { return LexText(r, depth-1) }
	switch r.N(9) {
	case 0, 1, 2:
		return sub() + r.Pick("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||") + " " + sub()
	case 3:
		return ws() + "(" + sub() + ")" + ws()
	case 4:
		return ws() + r.Pick("-", "!", "^", "+", "*", "&") + "(" + sub() + ")"
	case 5:
		return sub() + "?" + sub() + ":" + sub()
	case 6:
		return ws() + r.Pick("I", "D", "M", "pkg.List", "E", "C") + "[" + sub() + "]" + r.Pick("", ".X", " .X")
	case 7:
		return ws() + r.Pick("pkg.Add", "F", "V", "pkg.Sum", "pkg.Str") + "(" + sub() + r.Pick("", ","+sub()) + ")"
	}
	return ws() + strings.Repeat("(", 1+r.N(4)) + sub()
}

// LongText generates a long text.
func LongText(r *spec.Rng, n int) string {
	switch r.N(6) {
	case 0:
		return `"` + strings.Repeat(r.Pick("a", "é", `\x41`, `\n`), n) + `"`
	case 1:
		return strings.Repeat("(", n/4) + "N" + strings.Repeat(")", n/4)
	case 2:
		return strings.Repeat("1 + ", n/4) + "1"
	case 3:
		return strings.Repeat("x", n)
	case 4:
		return strings.Repeat(" ", n) + "N"
	}
	var b strings.Builder
	for i := 0; i < n/8; i++ {
		fmt.Fprintf(&b, "K ? %d : ", i)
	}
	return b.String() + "0"
}

// Cut tells whether a text ends inside a literal, inside brackets or before an
// operand, and what it is that it ends in.
func Cut(text string) string {
	rs := []rune(text)
	type open struct {
		r rune
		q int // unanswered question marks outside of it
	}
	var stack []open
	questions := 0
	last := "start" // what the last token was: start, operand, operator
	i := 0
	digits := func(r rune) bool { return r >= '0' && r <= '9' }
	letter := func(r rune) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' }
	quoted := func(q rune) string {
		for i < len(rs) && rs[i] != q {
			if rs[i] != '\\' {
				i++
				continue
			}
			i++
			if i == len(rs) {
				return "escape"
			}
			n := 0
			switch c := rs[i]; {
			case c == 'x':
				n = 2
			case c == 'u':
				n = 4
			case c == 'U':
				n = 8
			case c >= '0' && c <= '7':
				n = 2
			}
			i++
			for ; n > 0 && i < len(rs) && rs[i] != q; n-- {
				i++
			}
			if n > 0 && i == len(rs) {
				return "escape"
			}
		}
		if i == len(rs) {
			return "quote"
		}
		i++
		return ""
	}
	for i < len(rs) {
		r := rs[i]
		switch {
		case r == ' ' || r == '\t':
			i++
		case r == '"' || r == '\'':
			i++
			if r == '\'' && i < len(rs) && rs[i] == '\'' {
				return "" // no rune at all: not said
			}
			if s := quoted(r); s != "" {
				return s
			}
			last = "operand"
		case r == '$':
			if i+1 == len(rs) {
				return "quote"
			}
			if rs[i+1] != '\'' {
				return ""
			}
			i += 2
			if s := quoted('\''); s != "" {
				return s
			}
			last = "operand"
		case digits(r):
			start := i
			for i < len(rs) && (digits(rs[i]) || letter(rs[i]) || rs[i] == '.') {
				i++
			}
			if s := strings.ToLower(string(rs[start:i])); s == "0x" && i == len(rs) {
				return "number"
			}
			last = "operand"
		case letter(r) || r > 127:
			for i < len(rs) && (letter(rs[i]) || digits(rs[i]) || rs[i] > 127) {
				i++
			}
			last = "operand"
		case r == '.' && i+1 < len(rs) && digits(rs[i+1]):
			i++ // part of a number
		case r == '(' || r == '[':
			stack = append(stack, open{r, questions})
			questions = 0
			last = "operator"
			i++
		case r == ')' || r == ']':
			if len(stack) == 0 || questions > 0 {
				return "" // wrong in another way
			}
			questions = stack[len(stack)-1].q
			stack = stack[:len(stack)-1]
			last = "operand"
			i++
		case r == '?':
			questions++
			last = "operator"
			i++
		case r == ':':
			if questions > 0 {
				questions--
			}
			last = "operator"
			i++
		case strings.ContainsRune("+-*/%&|^<>=!,.", r):
			last = "operator"
			i++
		default:
			return ""
		}
	}
	switch {
	case len(stack) > 0:
		return "brackets"
	case last == "start":
		return "nothing"
	case last == "operator":
		return "operator"
	case questions > 0:
		return "choice"
	}
	return ""
}
