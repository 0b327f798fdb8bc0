package types

import (
	"math"
	"strconv"

	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// FloatText: decimal text of numbers into floats, and floats into text.
func FloatText() {
	ct := types.ColumnType{Type: types.Float64Type, NotNull: sym.Bool("notnull")}
	switch sym.Choose("what", 3) {
	case 0: // any digits
		n, k := sym.Choose("n", 3)+1, 0
		point := n
		if n <= 2 {
			point = sym.Choose("point", n+1)
		}
		text, val, scale := "", int64(0), int64(1)
		for ; k < n; k++ {
			if k == point {
				text += "."
			}
			nm := "d" + string(rune('0'+k))
			var d byte
			if point == n {
				d = sym.Byte(nm)
				sym.Assume(sym.And(d >= '0', d <= '9'))
			} else {
				d = '0' + byte(sym.Choose(nm, 10))
			}
			text += string([]byte{d})
			val = val*10 + int64(d-'0')
			if k >= point {
				scale *= 10
			}
		}
		sign := sym.Choose("sign", 3)
		text = []string{"", "-", "+"}[sign] + text
		if sym.Bool("space") {
			text = " \t" + text + "\n "
		}
		want := float64(val)
		if point < n {
			want /= float64(scale)
		}
		if sign == 1 {
			want = -want
		}
		v, err := types.ConvertValue(ct, types.StringValue(text))
		sym.Reach("read")
		f, ok := v.(types.Float64Value)
		sym.Assert(err == nil && ok && float64(f) == want, "the number that is written")
	case 1: // other forms
		forms := []struct {
			text string
			want float64
			ok   bool
		}{
			{"1e5", 1e5, true}, {"-1E-3", -1e-3, true}, {"12345678901234567890", 12345678901234567890, true}, {".5", .5, true}, {"5.", 5, true},
			{"1.7976931348623157e308", math.MaxFloat64, true}, {"5e-324", 5e-324, true}, {"0.1", 0.1, true}, {"9007199254740993", 9007199254740992, true},
			{"123456.789012345678", 123456.789012345678, true}, {"16777217", 16777217, true}, {"3.4028236e38", 3.4028236e38, true}, {"1e39", 1e39, true}, {"\n\t 2.25 \t", 2.25, true},
			{"", 0, false}, {" ", 0, false}, {"1 2", 0, false}, {"--1", 0, false}, {"1e999", 0, false}, {"-1e999", 0, false}, {"x1", 0, false}, {"1x", 0, false}, {"1.2.3", 0, false}, {"1e", 0, false}, {"+", 0, false}, {".", 0, false}, {"1,5", 0, false},
		}
		form := forms[sym.Choose("form", len(forms))]
		v, err := types.ConvertValue(ct, types.StringValue(form.text))
		sym.Reach("form")
		sym.Assert((err == nil) == form.ok, "text which is no number is refused")
		if err == nil {
			f, ok := v.(types.Float64Value)
			sym.Assert(ok && float64(f) == form.want, "the number that is written")
		}
	default: // a float with any one bit changed, as text
		bases := []float64{0, 1, 0.1, 1.0 / 3, 123456789.123456789, 1e21, 5e-324, 1e-7, math.MaxFloat64, -12.25, 1 << 53, 16777217, math.Pi}
		u := math.Float64bits(bases[sym.Choose("base", len(bases))])
		if bit := sym.Choose("bit", 65); bit < 64 {
			u ^= 1 << uint(bit)
		}
		f := math.Float64frombits(u)
		v, err := types.ConvertValue(types.ColumnType{Type: types.StringType, Size: 2000}, types.Float64Value(f))
		sym.Reach("written")
		s, ok := v.(types.StringValue)
		sym.Assert(err == nil && ok, "every float has a text")
		g, err := strconv.ParseFloat(string(s), 64)
		sym.Assert(err == nil && (g == f || f != f && g != g), "which denotes it")
		sym.Assert(f != 0 || math.Signbit(f) == math.Signbit(g), "with its sign")
	}
}
