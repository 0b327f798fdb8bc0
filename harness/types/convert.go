package types

import (
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/lib"
	"github.com/leftmike/maho/zzverif/sym"
)

// trimmed returns the bounds of s without leading and trailing space, tab and
// newline.
func trimmed(s string) string {
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\t' || s[0] == '\n') {
		s = s[1:]
	}
	for len(s) > 0 && (s[len(s)-1] == ' ' || s[len(s)-1] == '\t' || s[len(s)-1] == '\n') {
		s = s[:len(s)-1]
	}
	return s
}

// decimal is the reference reading of a short decimal integer.
func decimal(s string) (int64, bool) {
	s = trimmed(s)
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	ok := true
	var n int64
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, sym.And(s[i] >= '0', s[i] <= '9'))
		n = n*10 + int64(s[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, ok
}

func boolean(s string) (val, ok bool) {
	s = trimmed(s)
	for _, t := range []string{"t", "true", "y", "yes", "on", "1"} {
		if s == t {
			return true, true
		}
	}
	for _, t := range []string{"f", "false", "n", "no", "off", "0"} {
		if s == t {
			return false, true
		}
	}
	return false, false
}

var intSizes = []uint32{2, 4, 8}

func fitsInt(i int64, size uint32) bool {
	switch size {
	case 2:
		return sym.And(i >= -32768, i <= 32767)
	case 4:
		return sym.And(i >= -2147483648, i <= 2147483647)
	}
	return true
}

func validUTF8(b []byte) bool {
	for i := 0; i < len(b); {
		c := b[i]
		n := 0
		var lo, hi byte = 0x80, 0xBF
		switch {
		case c < 0x80:
		case c >= 0xC2 && c <= 0xDF:
			n = 1
		case c >= 0xE0 && c <= 0xEF:
			n = 2
			if c == 0xE0 {
				lo = 0xA0
			}
			if c == 0xED {
				hi = 0x9F
			}
		case c >= 0xF0 && c <= 0xF4:
			n = 3
			if c == 0xF0 {
				lo = 0x90
			}
			if c == 0xF4 {
				hi = 0x8F
			}
		default:
			return false
		}
		if i+n >= len(b) {
			return false
		}
		for j := 1; j <= n; j++ {
			if b[i+j] < lo || b[i+j] > hi {
				return false
			}
			lo, hi = 0x80, 0xBF
		}
		i += n + 1
	}
	return true
}

// colType chooses a column type of a kind.
func colType(name string, kind int) types.ColumnType {
	ct := types.ColumnType{NotNull: sym.Choose(name+".notnull", 2) == 1}
	switch kind {
	case lib.Bool:
		ct.Type = types.BoolType
	case lib.Int:
		ct.Type = types.Int64Type
		ct.Size = intSizes[sym.Choose(name+".size", 3)]
	case lib.Float:
		ct.Type = types.Float64Type
	case lib.String, lib.Bytes:
		ct.Type = types.StringType
		if kind == lib.Bytes {
			ct.Type = types.BytesType
		}
		ct.Size = sym.Uint32(name + ".size")
		ct.Fixed = sym.Choose(name+".fixed", 2) == 1
	}
	return ct
}

// convert checks one conversion against the reference and returns it.
func checkConvert(ct types.ColumnType, tk int, v types.Value, r types.Value, err error, label string) {
	vk := lib.Kind(v)
	if v == nil {
		sym.Assert((err != nil) == ct.NotNull, label+": NULL only where allowed")
		sym.Assert(r == nil, label+": NULL stays NULL")
		return
	}
	if err == nil {
		sym.Assert(lib.Kind(r) == tk, label+": converted value has the column's type")
		switch tk {
		case lib.Int:
			sym.Assert(fitsInt(int64(r.(types.Int64Value)), ct.Size), label+": integer fits the column")
		case lib.String:
			sym.Assert(uint32(len(r.(types.StringValue))) <= ct.Size, label+": string fits the column")
		case lib.Bytes:
			sym.Assert(uint32(len(r.(types.BytesValue))) <= ct.Size, label+": bytes fit the column")
		}
	}
	switch {
	case vk == lib.Int && tk == lib.Int:
		i := int64(v.(types.Int64Value))
		sym.Assert(sym.Iff(err == nil, fitsInt(i, ct.Size)), label+": integer accepted when it fits")
		if err == nil {
			sym.Assert(int64(r.(types.Int64Value)) == i, label+": integer unchanged")
		}
	case vk == lib.Float && tk == lib.Int:
		f := float64(v.(types.Float64Value))
		t := int64(f)
		inr := sym.And(sym.And(f >= -9223372036854775808.0, f < 9223372036854775808.0), fitsInt(t, ct.Size))
		sym.Assert(sym.Iff(err == nil, inr), label+": float accepted when its integer part fits")
		if err == nil {
			sym.Assert(int64(r.(types.Int64Value)) == t, label+": float truncated")
		}
	case vk == lib.String && tk == lib.Int:
		n, ok := decimal(string(v.(types.StringValue)))
		sym.Assert(sym.Iff(err == nil, sym.And(ok, fitsInt(n, ct.Size))), label+": decimal text accepted")
		if err == nil {
			sym.Assert(int64(r.(types.Int64Value)) == n, label+": decimal text read")
		}
	case vk == lib.Int && tk == lib.Float:
		sym.Assert(err == nil, label+": integer accepted")
		sym.Assert(float64(r.(types.Float64Value)) == float64(int64(v.(types.Int64Value))), label+": integer as float")
	case vk == lib.Float && tk == lib.Float:
		sym.Assert(err == nil && lib.Same(v, r), label+": float unchanged")
	case vk == lib.String && tk == lib.Bool:
		b, ok := boolean(string(v.(types.StringValue)))
		sym.Assert((err == nil) == ok, label+": boolean text accepted")
		if err == nil {
			sym.Assert(bool(r.(types.BoolValue)) == b, label+": boolean text read")
		}
	case vk == lib.Bool && tk == lib.Bool:
		sym.Assert(err == nil && lib.Same(v, r), label+": boolean unchanged")
	case vk == lib.String && tk == lib.String, vk == lib.String && tk == lib.Bytes:
		s := string(v.(types.StringValue))
		sym.Assert(sym.Iff(err == nil, uint32(len(s)) <= ct.Size), label+": text accepted when it fits")
		if err == nil && tk == lib.String {
			sym.Assert(sym.StrEq(string(r.(types.StringValue)), s), label+": text unchanged")
		} else if err == nil {
			sym.Assert(sym.BytesEq([]byte(r.(types.BytesValue)), []byte(s)), label+": bytes are the text's")
		}
	case vk == lib.Bytes && tk == lib.Bytes:
		b := []byte(v.(types.BytesValue))
		sym.Assert(sym.Iff(err == nil, uint32(len(b)) <= ct.Size), label+": bytes accepted when they fit")
		if err == nil {
			sym.Assert(sym.BytesEq([]byte(r.(types.BytesValue)), b), label+": bytes unchanged")
		}
	case vk == lib.Bytes && tk == lib.String:
		b := []byte(v.(types.BytesValue))
		valid := validUTF8(b)
		sym.Assert(sym.Iff(err == nil, sym.And(valid, uint32(len(b)) <= ct.Size)), label+": valid text accepted")
		if err == nil {
			sym.Assert(sym.StrEq(string(r.(types.StringValue)), string(b)), label+": text is the bytes")
		}
	case vk == lib.Int && tk == lib.String:
		// size needed: the decimal text; checked by reading it back
		if err == nil {
			n, ok := decimal(string(r.(types.StringValue)))
			sym.Assert(sym.And(ok, n == int64(v.(types.Int64Value))), label+": integer as decimal text")
		}
	case vk == lib.Float && tk == lib.String, vk == lib.String && tk == lib.Float:
		// strconv's float formatting and parsing: only type and size are checked
	default:
		sym.Assert(err != nil, label+": impossible conversion refused")
	}
}

// Convert: every value into every column type.
func Convert() {
	maxLen := sym.Param("len", 3)
	tk := 1 + sym.Choose("type", lib.NKinds-1)
	vk := sym.Choose("value", lib.NKinds)
	ct := colType("col", tk)
	var v types.Value
	switch {
	case vk == lib.Int && tk == lib.String:
		n := sym.Int64("v")
		sym.Assume(sym.And(n > -1000, n < 1000))
		v = types.Int64Value(n)
	case vk == lib.Float && tk == lib.String:
		v = types.Float64Value([]float64{0, 0.5, -12.25, 1e30}[sym.Choose("float", 4)])
	case vk == lib.String && tk == lib.Float:
		v = types.StringValue([]string{"", "1", "-12.5", "x", " 3e2\n", "1e999"}[sym.Choose("text", 6)])
	default:
		v = lib.Value("v", vk, maxLen)
	}
	r, err := types.ConvertValue(ct, v)
	sym.Reach("converted")
	checkConvert(ct, tk, v, r, err, "convert")
}

// LongDecimal: decimal text around the 64 bit limits.
func LongDecimal() {
	pre := []string{"92233720368547758", "-92233720368547758", "+92233720368547758", "18446744073709551", "00092233720368547758"}[sym.Choose("prefix", 5)]
	tail := sym.String("tail", 2)
	sym.Assume(sym.And(sym.And(tail[0] >= '0', tail[0] <= '9'), sym.And(tail[1] >= '0', tail[1] <= '9')))
	ct := types.ColumnType{Type: types.Int64Type, Size: 8}
	r, err := types.ConvertValue(ct, types.StringValue(pre+tail))
	d := int64(tail[0]-'0')*10 + int64(tail[1]-'0')
	sym.Reach("converted")
	if pre[0] == '-' {
		sym.Assert(sym.Iff(err == nil, d <= 8), "below the smallest integer is refused")
		if err == nil {
			sym.Assert(int64(r.(types.Int64Value)) == -9223372036854775800-d, "value")
		}
	} else if pre[0] == '1' {
		// nineteen digits starting with 1 always fit
		sym.Assert(err == nil, "fits")
		sym.Assert(int64(r.(types.Int64Value)) == 1844674407370955100+d, "value")
	} else {
		sym.Assert(sym.Iff(err == nil, d <= 7), "above the largest integer is refused")
		if err == nil {
			sym.Assert(int64(r.(types.Int64Value)) == 9223372036854775800+d, "value")
		}
	}
}

// ConvertRow: rows of any length up to cols+1.
func ConvertRow() {
	cols := sym.Param("cols", 2)
	nt := 1 + sym.Choose("types", cols)
	n := sym.Choose("values", nt+2)
	var cts []types.ColumnType
	var row types.Row
	kinds := []int{lib.Int, lib.String, lib.Bool}
	tks := make([]int, nt)
	for i := 0; i < nt; i++ {
		nm := "t" + string(rune('0'+i))
		tks[i] = kinds[sym.Choose(nm, len(kinds))]
		ct := types.ColumnType{NotNull: sym.Choose(nm+".notnull", 2) == 1}
		switch tks[i] {
		case lib.Int:
			ct.Type, ct.Size = types.Int64Type, 2
		case lib.String:
			ct.Type, ct.Size = types.StringType, 1
		default:
			ct.Type = types.BoolType
		}
		cts = append(cts, ct)
	}
	vks := []int{lib.Null, lib.Int, lib.Bool, lib.String}
	for i := 0; i < n; i++ {
		nm := "v" + string(rune('0'+i))
		k := vks[sym.Choose(nm+".kind", len(vks))]
		if i < nt && k == lib.Int && tks[i] == lib.String {
			sym.Stop()
		}
		row = append(row, lib.Value(nm, k, 2))
	}
	in := lib.CopyRow(row)
	r, err := types.ConvertRow(cts, row)
	sym.Reach("converted")
	sym.Assert(lib.SameRow(in, row), "the given row is not changed")
	if n > nt {
		sym.Assert(err != nil, "too long rows are refused")
		return
	}
	anyErr := false
	for i := 0; i < n; i++ {
		v, e := types.ConvertValue(cts[i], row[i])
		if e != nil {
			anyErr = true
			break
		}
		if err == nil {
			sym.Assert(len(r) == nt && lib.Same(r[i], v), "each value is converted for its column")
		}
	}
	sym.Assert((err != nil) == anyErr, "rows are refused exactly when a value is")
	if err == nil {
		sym.Assert(len(r) == nt, "a value for every column")
		for i := n; i < nt; i++ {
			sym.Assert(r[i] == nil, "missing trailing values are NULL")
		}
	}
}
