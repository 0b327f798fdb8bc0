package encode

import (
	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

var _ types.Row

// prefixed returns a symbolic prefix that must survive an append.
func prefixed() []byte { return sym.Bytes("prefix", sym.Choose("prefixlen", 3)) }

func tail(buf []byte, n int) []byte {
	sym.Assert(len(buf) >= n, "append keeps what was there")
	return buf[n:]
}

// Varint: encode then decode any uint64, with arbitrary bytes around.
func Varint() {
	pre := prefixed()
	n := len(pre)
	keep := append([]byte(nil), pre...)
	u := sym.Uint64("u")
	buf := encode.EncodeVarint(pre, u)
	enc := tail(buf, n)
	sym.Assert(sym.BytesEq(buf[:n], keep), "prefix kept")
	sym.Assert(len(enc) >= 1 && len(enc) <= 10, "length")
	rest := sym.Bytes("rest", sym.Choose("restlen", 3))
	in := append(append([]byte(nil), enc...), rest...)
	out, v, ok := encode.DecodeVarint(in)
	sym.Observe("v", int64(v))
	sym.Assert(ok, "decodes")
	sym.Assert(v == u, "round trip")
	sym.Assert(sym.BytesEq(out, rest), "rest")
	sym.Reach("varint")
	// every proper prefix of the encoding is rejected
	cut := sym.Choose("cut", len(enc))
	_, _, ok = encode.DecodeVarint(enc[:cut])
	sym.Assert(!ok, "truncated input rejected")
}

// VarintInjective: different integers, different encodings.
func VarintInjective() {
	a, b := sym.Uint64("a"), sym.Uint64("b")
	ea, eb := encode.EncodeVarint(nil, a), encode.EncodeVarint(nil, b)
	sym.Reach("pair")
	sym.Assert(sym.Iff(sym.BytesEq(ea, eb), a == b), "injective")
	if len(ea) < len(eb) {
		sym.Assert(!sym.BytesEq(ea, eb[:len(ea)]), "prefix free")
	}
}

// Zigzag: encode then decode any int64.
func Zigzag() {
	pre := prefixed()
	n := len(pre)
	keep := append([]byte(nil), pre...)
	i := sym.Int64("i")
	buf := encode.EncodeZigzag64(pre, i)
	enc := tail(buf, n)
	sym.Assert(sym.BytesEq(buf[:n], keep), "prefix kept")
	rest := sym.Bytes("rest", sym.Choose("restlen", 3))
	in := append(append([]byte(nil), enc...), rest...)
	out, v, ok := encode.DecodeZigzag64(in)
	sym.Observe("v", v)
	sym.Assert(ok, "decodes")
	sym.Assert(v == i, "round trip")
	sym.Assert(sym.BytesEq(out, rest), "rest")
	sym.Reach("zigzag")
	if sym.And(i >= -64, i < 64) {
		sym.Assert(len(enc) == 1, "small magnitudes are short")
	}
	cut := sym.Choose("cut", len(enc))
	_, _, ok = encode.DecodeZigzag64(enc[:cut])
	sym.Assert(!ok, "truncated input rejected")
}

// DecodeAny: decoding arbitrary bytes never reads outside them; an accepted
// prefix is a continuation-bit sequence whose value is what was returned.
func DecodeAny() {
	n := sym.Choose("n", sym.Param("len", 12)+1)
	in := sym.Bytes("in", n)
	zz := sym.Choose("zigzag", 2) == 1
	var rest []byte
	var ok bool
	var u uint64
	if zz {
		var i int64
		rest, i, ok = encode.DecodeZigzag64(in)
		u = uint64(i)<<1 ^ uint64(i>>63)
	} else {
		rest, u, ok = encode.DecodeVarint(in)
	}
	// the reference: position of the first byte without continuation bit
	end := -1
	for i := 0; i < n && i < 10; i++ {
		if in[i] < 0x80 {
			end = i
			break
		}
	}
	sym.Reach("any")
	if end < 0 {
		sym.Assert(!ok, "no terminator: rejected")
		return
	}
	sym.Assert(ok, "terminated: accepted")
	sym.Assert(len(rest) == n-end-1, "consumed")
	sym.Assert(sym.BytesEq(rest, in[end+1:]), "rest")
	var want uint64
	for i := 0; i <= end; i++ {
		want |= uint64(in[i]&0x7f) << uint(7*i)
	}
	sym.Assert(u == want, "value")
}

// Fixed: fixed width encodings are the big endian bytes.
func Fixed() {
	pre := prefixed()
	n := len(pre)
	keep := append([]byte(nil), pre...)
	if sym.Choose("w", 2) == 0 {
		a, b := sym.Uint64("a"), sym.Uint64("b")
		buf := encode.EncodeUint64(pre, a)
		ea := tail(buf, n)
		sym.Assert(sym.BytesEq(buf[:n], keep), "prefix kept")
		sym.Assert(len(ea) == 8, "eight bytes")
		for i := 0; i < 8; i++ {
			sym.Assert(ea[i] == byte(a>>uint(56-8*i)), "big endian")
		}
		eb := encode.EncodeUint64(nil, b)
		sym.Assert(sym.Iff(sym.BytesLess(ea, eb), a < b), "order")
		sym.Reach("64")
	} else {
		a, b := sym.Uint32("a"), sym.Uint32("b")
		buf := encode.EncodeUint32(pre, a)
		ea := tail(buf, n)
		sym.Assert(sym.BytesEq(buf[:n], keep), "prefix kept")
		sym.Assert(len(ea) == 4, "four bytes")
		for i := 0; i < 4; i++ {
			sym.Assert(ea[i] == byte(a>>uint(24-8*i)), "big endian")
		}
		eb := encode.EncodeUint32(nil, b)
		sym.Assert(sym.Iff(sym.BytesLess(ea, eb), a < b), "order")
		sym.Reach("32")
	}
}
