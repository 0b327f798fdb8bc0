package types

import (
	"unicode"

	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// word chooses a vocabulary word in a symbolic mixture of letter cases.
func mixedCase(name, w string) string {
	b := []byte(w)
	c := sym.Uint32(name)
	for i := range b {
		lower, upper := b[i], b[i]
		if b[i] >= 'A' && b[i] <= 'Z' {
			lower = b[i] + 32
		} else if b[i] >= 'a' && b[i] <= 'z' {
			upper = b[i] - 32
		}
		b[i] = byte(sym.IteInt64(c&(1<<uint(i)) != 0, int64(upper), int64(lower)))
	}
	return string(b)
}

// Keywords: every keyword is recognised in any letter case when unquoted and
// prints as itself; quoted it is an ordinary, different name.
func Keywords() {
	per := sym.Param("per", 8)
	g := sym.Choose("group", (len(keywords)+per-1)/per)
	i := g*per + sym.Choose("word", per)
	if i >= len(keywords) {
		sym.Stop()
	}
	w := keywords[i]
	s := w.name
	if sym.Param("mixed", 1) == 1 && len(s) <= sym.Param("maxlen", 5) {
		s = mixedCase("case", s)
	} else if sym.Choose("case", 2) == 1 {
		s = lower(s)
	}
	id := types.ID(s, false)
	sym.Reach("keyword")
	sym.Assert(id == w.id, "keyword recognised in any letter case")
	sym.Assert(id.String() == w.name, "keyword prints as itself")
	sym.Assert(id.IsReserved() == w.reserved, "exactly the reserved keywords are reserved")
	q := types.ID(s, true)
	sym.Assert(q != id, "quoted keyword is an ordinary name")
	sym.Assert(sym.StrEq(q.String(), s), "quoted name prints as written")
	checkGob(id)
	checkGob(q)
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

// Known: every known name is its identifier, quoted or not.
func Known() {
	w := known[sym.Choose("word", len(known))]
	sym.Reach("known")
	id := types.ID(w.name, true)
	sym.Assert(id == w.id, "known name")
	sym.Assert(id.String() == w.name, "known name prints as itself")
	sym.Assert(!id.IsReserved(), "known names are not reserved")
	checkGob(id)
	if kw := types.ID(w.name, false); w.name != "primary" {
		sym.Assert(kw == w.id, "known name unquoted")
	}
	for _, o := range known {
		sym.Assert((o.id == w.id) == (o.name == w.name), "known names are distinct")
	}
}

func checkGob(id types.Identifier) {
	b, err := id.GobEncode()
	sym.Assert(err == nil, "encodes")
	var d types.Identifier
	err = d.GobDecode(b)
	sym.Assert(err == nil, "decodes")
	sym.Assert(d == id, "decodes to the same identifier")
}

// ref is the reference meaning of a short ASCII name: which keyword it is, if
// any, and otherwise its stored text.
func ref(s string, quoted bool) (kw int, text string) {
	if quoted {
		return -1, s
	}
	for i, w := range keywords {
		if len(w.name) == len(s) {
			eq := true
			for j := 0; j < len(s); j++ {
				eq = sym.And(eq, sym.Or(s[j] == w.name[j], sym.And(w.name[j] >= 'A', s[j] == w.name[j]+32)))
			}
			if eq {
				return i, w.name
			}
		}
	}
	b := []byte(s)
	for i := range b {
		up := sym.And(b[i] >= 'A', b[i] <= 'Z')
		b[i] = byte(sym.IteInt64(up, int64(b[i])+32, int64(b[i])))
	}
	return -1, string(b)
}

// Pair: two names are the same identifier exactly when they are the same name.
func Pair() {
	n := sym.Param("len", 2)
	a := sym.String("a", sym.Choose("alen", n+1))
	b := sym.String("b", sym.Choose("blen", n+1))
	for i := 0; i < len(a); i++ {
		sym.Assume(a[i] < 0x80)
	}
	for i := 0; i < len(b); i++ {
		sym.Assume(b[i] < 0x80)
	}
	qa, qb := sym.Choose("aquoted", 2) == 1, sym.Choose("bquoted", 2) == 1
	ia := types.ID(a, qa)
	ib := types.ID(b, qb)
	sym.Reach("pair")
	ka, ta := ref(a, qa)
	kb, tb := ref(b, qb)
	sym.Assert(sym.Iff(ia == ib, sym.And(ka == kb, sym.StrEq(ta, tb))), "identifiers equal exactly when the names are")
	sym.Assert(sym.StrEq(ia.String(), ta), "prints as its name")
	sym.Assert(sym.StrEq(ib.String(), tb), "prints as its name")
	sym.Assert(types.ID(a, qa) == ia, "naming again gives the same identifier")
	if ka < 0 {
		sym.Assert(!ia.IsReserved(), "an ordinary name is not reserved")
	}
	checkGob(ia)
	checkGob(ib)
}

// Length: names around the length limit, with multi-byte characters at the
// cut; two names equal up to the limit are the same.
func Length() {
	runes := []string{"a", "\u00e9", "\u20ac", "\U0001F600", "\u023a"}
	base := types.MaxIdentifier - 4 + sym.Choose("base", 5)
	b := make([]byte, base)
	for i := range b {
		b[i] = 'x'
	}
	s := string(b)
	n := sym.Param("tail", 3)
	for i := 0; i < n; i++ {
		s += runes[sym.Choose("rune"+string(rune('0'+i)), len(runes))]
	}
	q := sym.Choose("quoted", 2) == 1
	id := types.ID(s, q)
	sym.Reach("long")
	t := id.String()
	sym.Assert(len(t) <= types.MaxIdentifier, "no longer than the limit")
	sym.Assert(validUTF8([]byte(t)), "shortened name is valid text")
	if q {
		sym.Assert(len(t) <= len(s) && s[:len(t)] == t, "shortened name is a prefix")
	}
	if len(t) < len(s) && q {
		sym.Assert(len(t) > types.MaxIdentifier-4, "shortened only as far as needed")
	}
	sym.Assert(types.ID(t, true) == id, "shortened name is the same identifier")
	checkGob(id)
}

// LongPair: names at the limit with symbolic ends are the same exactly when
// they agree up to the limit.
func LongPair() {
	base := types.MaxIdentifier - 2 + sym.Choose("base", 3)
	p := make([]byte, base)
	for i := range p {
		p[i] = 'y'
	}
	a := string(p) + sym.String("a", sym.Choose("alen", 4))
	b := string(p) + sym.String("b", sym.Choose("blen", 4))
	for i := base; i < len(a); i++ {
		sym.Assume(a[i] < 0x80)
	}
	for i := base; i < len(b); i++ {
		sym.Assume(b[i] < 0x80)
	}
	ia, ib := types.ID(a, true), types.ID(b, true)
	ca, cb := a, b
	if len(ca) > types.MaxIdentifier {
		ca = ca[:types.MaxIdentifier]
	}
	if len(cb) > types.MaxIdentifier {
		cb = cb[:types.MaxIdentifier]
	}
	sym.Reach("pair")
	sym.Assert(sym.Iff(ia == ib, sym.StrEq(ca, cb)), "long names are equal exactly when they agree up to the limit")
	sym.Assert(sym.StrEq(ia.String(), ca), "long name prints as its first 128 bytes")
}

// GobAny: decoding arbitrary bytes never crashes and refuses unknown forms.
func GobAny() {
	b := sym.Bytes("b", sym.Choose("len", sym.Param("len", 2)+1))
	for i := 1; i < len(b); i++ {
		sym.Assume(b[i] < 0x80)
	}
	var id types.Identifier
	err := id.GobDecode(b)
	sym.Reach("decoded")
	sym.Assert(sym.Iff(err == nil, len(b) > 0 && b[0] <= 1), "accepts exactly the two forms")
	if err == nil && b[0] == 0 {
		sym.Assert(sym.StrEq(id.String(), string(b[1:])), "quoted form is the name")
	}
}

// Fold: the letter case of other than ASCII letters does not matter in an
// unquoted name, and does in a quoted one.
func Fold() {
	r := rune(sym.Uint32("r"))
	limit := rune(sym.Param("limit", 0x800))
	sym.Assume(r >= rune(sym.Param("from", 0x80)))
	sym.Assume(r < limit)
	sym.Assume(sym.Or(unicode.IsUpper(r), unicode.IsLower(r)))
	l := unicode.ToLower(r) // decides r
	s, t := "q"+string(r)+"q", "q"+string(l)+"q"
	id := types.ID(s, false)
	sym.Reach("folded")
	sym.Assert(id == types.ID(t, true), "an unquoted name is the name in lower case")
	sym.Assert(id == types.ID(t, false), "and so in any letter case")
	sym.Assert(id.String() == t, "prints as its name")
	sym.Assert((types.ID(s, true) == id) == (s == t), "a quoted name is as written")
	sym.Assert(types.ID(s, true).String() == s, "prints as its name")
}
