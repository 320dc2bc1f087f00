package log

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"flychain/common"
	"flychain/log"
)

const errorKey = "LOG15_ERROR"

// ---------------------------------------------------------------- values

type strT struct{ s string }

func (s strT) String() string { return s.s }

type ptrStr struct{ s string }

func (s *ptrStr) String() string { return s.s }

type ptrErr struct{ s string }

func (s *ptrErr) Error() string { return s.s }

type termT struct{ s, t string }

func (s termT) String() string         { return s.s }
func (s termT) TerminalString() string { return s.t }

type both struct{ e, s string }

func (b both) Error() string  { return b.e }
func (b both) String() string { return b.s }

type plain struct {
	A int
	B string
	C *int
}
type named string

// Methods of the value, not of the pointer.
type valStr string

func (s valStr) String() string { return "<" + string(s) + ">" }

type valErr []string

func (e valErr) Error() string { return strings.Join(e, "+") }

type arrStr [2]byte

func (a arrStr) String() string { return string(a[:]) }

type namedI int

var pieces = []string{"a", "Z", "0", " ", "  ", "=", "\"", "\\", "\n", "\r", "\t", "\x00", "\x1b[31m", "\x1b[1G\x1b[K", "é", "世", "\u2028", "\xff", "\xc3", "\x7f", "~", "!", "#", "'", "`", "k=v", "\\n", "\"q\"", ",", "{", "}", "<nil>", "nil", "\ufffd", "\U0001F600", ";", "%s", "%!d", "<", ">", "&", "\\u003c", "\\\\u003e", "\\x1b", "\\", "\\\"", "&lt;", "${x}", "\\t", "%22", "/", "</script>"}

func genString(r *rand.Rand) string {
	if r.Intn(1500) == 0 { // long and unremarkable but for one place
		n := 1 << uint(8+r.Intn(8))
		at := r.Intn(n)
		if r.Intn(3) == 0 {
			at = n
		}
		return strings.Repeat("y", at) + pieces[r.Intn(len(pieces))] + strings.Repeat("y", n-at)
	}
	if r.Intn(800) == 0 { // long
		return strings.Repeat(pieces[r.Intn(len(pieces))]+strings.Repeat("x", r.Intn(40)), r.Intn(3000))
	}
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		n := r.Intn(12)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		return string(b)
	case 2:
		n := r.Intn(10)
		b := make([]byte, n)
		r.Read(b)
		return string(b)
	case 3:
		return strings.Repeat(pieces[r.Intn(len(pieces))], r.Intn(50))
	}
	var sb strings.Builder
	for i := 0; i < 1+r.Intn(6); i++ {
		sb.WriteString(pieces[r.Intn(len(pieces))])
	}
	return sb.String()
}

func genBits(r *rand.Rand, bits int) uint64 {
	v := r.Uint64() >> uint(64-bits)
	if bits > 1 {
		v >>= uint(r.Intn(bits))
	}
	switch r.Intn(6) {
	case 0:
		return 1<<uint(bits-1) - uint64(r.Intn(2))
	case 1:
		return math.MaxUint64
	case 2: // around powers of ten
		p := uint64(1)
		for i := 0; i < r.Intn(20); i++ {
			p *= 10
		}
		return p + uint64(r.Intn(3)) - 1
	}
	return v
}

// genVal returns a value, its kind and the text it must carry in line formats
// (before escaping) for plain and terminal output.
func genVal(r *rand.Rand) (v interface{}, kind string, text, term string) {
	same := func(v interface{}, kind, text string) (interface{}, string, string, string) {
		return v, kind, text, text
	}
	switch r.Intn(34) {
	case 0:
		return same(nil, "nil", "nil")
	case 1:
		b := r.Intn(2) == 0
		return same(b, "bool", strconv.FormatBool(b))
	case 2:
		f := r.NormFloat64() * math.Pow(10, float64(r.Intn(20)-6))
		switch r.Intn(10) {
		case 0:
			f = math.NaN()
		case 1:
			f = math.Inf(1 - 2*r.Intn(2))
		case 2:
			f = 0
		}
		return same(f, "float64", strconv.FormatFloat(f, 'f', 3, 64))
	case 3:
		f := float32(r.NormFloat64() * math.Pow(10, float64(r.Intn(12)-6)))
		return same(f, "float32", strconv.FormatFloat(float64(f), 'f', 3, 64))
	case 4:
		x := int(genBits(r, 64))
		return same(x, "int", commas(strconv.FormatInt(int64(x), 10)))
	case 5:
		x := int8(genBits(r, 8))
		return same(x, "int8", fmt.Sprint(x))
	case 6:
		x := int16(genBits(r, 16))
		return same(x, "int16", fmt.Sprint(x))
	case 7:
		x := int32(genBits(r, 32))
		return same(x, "int32", commas(fmt.Sprint(x)))
	case 8:
		x := int64(genBits(r, 64))
		return same(x, "int64", commas(fmt.Sprint(x)))
	case 9:
		x := uint8(genBits(r, 8))
		return same(x, "uint8", fmt.Sprint(x))
	case 10:
		x := uint16(genBits(r, 16))
		return same(x, "uint16", fmt.Sprint(x))
	case 11:
		x := uint32(genBits(r, 32))
		return same(x, "uint32", commas(fmt.Sprint(x)))
	case 12:
		x := genBits(r, 64)
		return same(x, "uint64", commas(fmt.Sprint(x)))
	case 13:
		x := uint(genBits(r, 64))
		return same(x, "uint", commas(fmt.Sprint(x)))
	case 14, 15:
		x := genBig(r)
		return same(x, "big", commas(x.String()))
	case 16:
		return same((*big.Int)(nil), "nilbig", "<nil>")
	case 17:
		t := time.Unix(r.Int63n(4e9), r.Int63n(1e9)).In(time.FixedZone("z", (r.Intn(27)-13)*1800))
		return same(t, "time", t.Format("2006-01-02T15:04:05-0700"))
	case 18:
		s := genString(r)
		return same(errors.New(s), "error", s)
	case 19:
		s := genString(r)
		switch r.Intn(6) {
		case 0:
			v := valStr(s)
			return same(&v, "pointer to stringer", "<"+s+">")
		case 1:
			v := valErr{s, "e"}
			return same(&v, "pointer to error", s+"+e")
		case 2:
			return same(valStr(s), "stringer", "<"+s+">")
		case 3:
			return same(valErr{"a", s}, "error", "a+"+s)
		case 4:
			d := time.Duration(r.Int63n(1e15))
			return same(d, "stringer", d.String())
		}
		return same(strT{s}, "stringer", s)
	case 20:
		s := genString(r)
		return same(&ptrStr{s}, "ptrstringer", s)
	case 21:
		return same([]interface{}{(*ptrStr)(nil), (*strT)(nil), (*valStr)(nil), (*time.Duration)(nil), (*arrStr)(nil), (*termT)(nil), (*common.Hash)(nil), (*time.Time)(nil)}[r.Intn(8)], "nilstringer", "nil")
	case 22:
		return same([]interface{}{(*ptrErr)(nil), (*both)(nil), (*valErr)(nil)}[r.Intn(3)], "nilerror", "nil")
	case 23:
		s, t := genString(r), genString(r)
		return termT{s, t}, "terminal", s, t
	case 24:
		s := genString(r)
		return same(both{s, genString(r)}, "error+stringer", s)
	case 25:
		x := plain{r.Intn(100), genString(r), nil}
		return same(x, "struct", fmt.Sprintf("%+v", x))
	case 26:
		x := []string{genString(r), genString(r)}
		return same(x, "slice", fmt.Sprintf("%+v", x))
	case 27:
		x := map[string]int{genString(r): r.Intn(5)}
		return same(x, "map", fmt.Sprintf("%+v", x))
	case 28:
		x := []byte(genString(r))
		return same(x, "bytes", fmt.Sprintf("%+v", x))
	case 29:
		x := named(genString(r))
		return same(x, "named", string(x))
	case 30:
		x := namedI(r.Intn(1e6))
		return same(x, "namedint", fmt.Sprint(int(x)))
	default:
		s := genString(r)
		return same(s, "string", s)
	}
}

func genBig(r *rand.Rand) *big.Int {
	x := new(big.Int)
	switch r.Intn(4) {
	case 0:
		x.SetUint64(genBits(r, 64))
	case 1:
		b := make([]byte, r.Intn(40))
		r.Read(b)
		x.SetBytes(b)
	case 2:
		x.Exp(big.NewInt(10), big.NewInt(int64(r.Intn(60))), nil)
		x.Add(x, big.NewInt(int64(r.Intn(3)-1)))
	case 3:
		x.Lsh(big.NewInt(1), uint(r.Intn(140)))
		x.Sub(x, big.NewInt(int64(r.Intn(2))))
	}
	if r.Intn(2) == 0 {
		x.Neg(x)
	}
	return x
}

// commas groups a decimal number's digits in threes when it has six or more.
func commas(s string) string {
	neg := strings.HasPrefix(s, "-")
	d := strings.TrimPrefix(s, "-")
	if len(d) >= 6 {
		var parts []string
		for len(d) > 3 {
			parts = append([]string{d[len(d)-3:]}, parts...)
			d = d[:len(d)-3]
		}
		d = strings.Join(append([]string{d}, parts...), ",")
	}
	if neg {
		return "-" + d
	}
	return d
}

type pair struct{ k, v string }

// parseLine parses key=value pairs separated by runs of spaces; keys and
// values are bare or Go-quoted.
func parseLine(s string) ([]pair, error) {
	var out []pair
	tok := func(stop string) (string, error) {
		if strings.HasPrefix(s, `"`) {
			q, err := strconv.QuotedPrefix(s)
			if err != nil {
				return "", fmt.Errorf("bad quoting at %.40q", s)
			}
			s = s[len(q):]
			return strconv.Unquote(q)
		}
		i := strings.IndexAny(s, stop)
		if i < 0 {
			i = len(s)
		}
		t := s[:i]
		if strings.ContainsAny(t, "\"\n\r\x00\x1b") {
			return "", fmt.Errorf("raw special character in bare token %q", t)
		}
		s = s[i:]
		return t, nil
	}
	s = strings.TrimLeft(s, " ")
	for s != "" {
		k, err := tok("= ")
		if err != nil {
			return nil, err
		}
		if !strings.HasPrefix(s, "=") {
			return nil, fmt.Errorf("no '=' after key %q", k)
		}
		s = s[1:]
		v, err := tok(" ")
		if err != nil {
			return nil, err
		}
		out = append(out, pair{k, v})
		if s != "" && s[0] != ' ' {
			return nil, fmt.Errorf("garbage after value %q: %.40q", v, s)
		}
		s = strings.TrimLeft(s, " ")
	}
	return out, nil
}

func names(r *log.Record) {
	r.KeyNames = log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}
}

func mkRecord(r *rand.Rand, lvl log.Lvl, msg string, ctx []interface{}) *log.Record {
	rec := &log.Record{Time: time.Unix(r.Int63n(4e9), r.Int63n(1e9)).UTC(), Lvl: lvl, Msg: msg, Ctx: ctx}
	names(rec)
	return rec
}

var lvlNames = map[log.Lvl]string{log.LvlCrit: "crit", log.LvlError: "eror", log.LvlWarn: "warn", log.LvlInfo: "info", log.LvlDebug: "dbug", log.LvlTrace: "trce"}
var lvlAligned = map[log.Lvl]string{log.LvlCrit: "CRIT ", log.LvlError: "ERROR", log.LvlWarn: "WARN ", log.LvlInfo: "INFO ", log.LvlDebug: "DEBUG", log.LvlTrace: "TRACE"}

// validUTF8 replaces each invalid byte, as JSON encoding does.
func validUTF8(s string) string {
	var sb strings.Builder
	for _, c := range s {
		sb.WriteRune(c)
	}
	return sb.String()
}
