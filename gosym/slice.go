package main

// Query preprocessing: independent-constraint slicing, an exact table for
// constraints over one 8-bit input, and a query cache.

type varset []uint64

func (v varset) has(i int) bool { return i>>6 < len(v) && v[i>>6]&(1<<(i&63)) != 0 }

func (v varset) meets(o varset) bool {
	n := min(len(v), len(o))
	for i := 0; i < n; i++ {
		if v[i]&o[i] != 0 {
			return true
		}
	}
	return false
}

func (v varset) covers(o varset) bool {
	for i, x := range o {
		if i >= len(v) {
			if x != 0 {
				return false
			}
			continue
		}
		if x&^v[i] != 0 {
			return false
		}
	}
	return true
}

func (v varset) union(o varset) varset {
	if v.covers(o) {
		return v
	}
	if o.covers(v) {
		return o
	}
	r := make(varset, max(len(v), len(o)))
	copy(r, v)
	for i, x := range o {
		r[i] |= x
	}
	return r
}

// varsOf returns the inputs t depends on.
func (c *TermCtx) varsOf(t *Term) varset {
	if t == nil || t.op == OConst {
		return nil
	}
	if t.vs != nil {
		return t.vs
	}
	if t.op == OVar {
		i, ok := c.varIdx[t]
		if !ok {
			i = len(c.varIdx)
			c.varIdx[t] = i
			c.varByIdx = append(c.varByIdx, t)
		}
		s := make(varset, i>>6+1)
		s[i>>6] |= 1 << (i & 63)
		t.vs = s
		return s
	}
	s := c.varsOf(t.a)
	if t.b != nil {
		s = s.union(c.varsOf(t.b))
	}
	if t.c != nil {
		s = s.union(c.varsOf(t.c))
	}
	if s == nil {
		s = varset{}
	}
	t.vs = s
	return s
}

// relevant returns the members of pc connected to extra through shared inputs.
func (in *Interp) relevant(extra *Term) ([]*Term, varset) {
	tc := in.tc
	s := tc.varsOf(extra)
	n := len(in.pc)
	if cap(in.sliceUse) < n {
		in.sliceUse = make([]bool, n*2+16)
	}
	use := in.sliceUse[:n]
	for i := range use {
		use[i] = false
	}
	for changed := true; changed; {
		changed = false
		for i, t := range in.pc {
			if use[i] {
				continue
			}
			v := tc.varsOf(t)
			if v.meets(s) {
				use[i] = true
				if !s.covers(v) {
					s = s.union(v)
					changed = true
				}
			}
		}
	}
	var out []*Term
	for i, t := range in.pc {
		if use[i] {
			out = append(out, t)
		}
	}
	return out, s
}

// single returns the only input of s when it is 8 bits wide.
func (c *TermCtx) single(s varset) *Term {
	var v *Term
	for i, x := range s {
		if x == 0 {
			continue
		}
		if x&(x-1) != 0 || v != nil {
			return nil
		}
		for b := 0; b < 64; b++ {
			if x == 1<<b {
				v = c.varByIdx[i*64+b]
			}
		}
	}
	if v == nil || v.w != 8 {
		return nil
	}
	return v
}

// table lists for which values of v the boolean t holds.
func (c *TermCtx) table(t, v *Term) *[4]uint64 {
	if t.tab != nil {
		return t.tab
	}
	var r [4]uint64
	c.evVar = v
	for x := 0; x < 256; x++ {
		c.evGen++
		c.evOver = uint64(x)
		if c.eval(t, nil) != 0 {
			r[x>>6] |= 1 << (x & 63)
		}
	}
	c.evVar = nil
	c.evGen++
	t.tab = &r
	return &r
}

type qres struct {
	r SatRes
	m Model
}

// check decides pc && extra. branchOnly allows the one-byte table.
func (in *Interp) check(extra *Term, wantModel, branchOnly bool) (SatRes, Model) {
	pc, vs := in.relevant(extra)
	if branchOnly {
		if v := in.tc.single(vs); v != nil {
			r := *in.tc.table(extra, v)
			for _, t := range pc {
				x := in.tc.table(t, v)
				for i := range r {
					r[i] &= x[i]
				}
			}
			in.tableQ++
			in.certify(pc, extra, r != [4]uint64{})
			for i := 0; i < 256; i++ {
				if r[i>>6]&(1<<(i&63)) != 0 {
					return Sat, Model{v.name: uint64(i)}
				}
			}
			return Unsat, nil
		}
	}
	key := make([]byte, 0, 4*(len(pc)+1))
	put := func(t *Term) {
		key = append(key, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24))
	}
	put(extra)
	for _, t := range pc {
		put(t)
	}
	ks := string(key)
	if q, ok := in.qcache[ks]; ok && (q.m != nil || !wantModel || q.r != Sat) {
		in.cacheQ++
		if q.m != nil {
			m := Model{}
			for k, v := range q.m {
				m[k] = v
			}
			return q.r, m
		}
		return q.r, nil
	}
	r, m := in.sol.Check(pc, extra, wantModel)
	if r != Unknown {
		if len(in.qcache) > 200000 {
			in.qcache = map[string]qres{}
		}
		q := qres{r: r}
		if m != nil {
			q.m = Model{}
			for k, v := range m {
				q.m[k] = v
			}
		}
		in.qcache[ks] = q
	}
	return r, m
}

// shapeOf hashes t up to the names of its inputs.
func shapeOf(t *Term) uint64 {
	if t == nil {
		return 0x9e3779b97f4a7c15
	}
	if t.shape != 0 {
		return t.shape
	}
	mix := func(h, x uint64) uint64 {
		h ^= x + 0x9e3779b97f4a7c15 + h<<6 + h>>2
		h *= 0xff51afd7ed558ccd
		return h ^ h>>32
	}
	h := mix(uint64(t.op)<<8|uint64(t.w), t.k)
	h = mix(h, shapeOf(t.a))
	h = mix(h, shapeOf(t.b))
	h = mix(h, shapeOf(t.c))
	if h == 0 {
		h = 1
	}
	t.shape = h
	return h
}

// certify has the solver confirm a decision made by table, once for every
// distinct set of constraints (up to the name of the input).
func (in *Interp) certify(pc []*Term, extra *Term, sat bool) {
	h := shapeOf(extra) * 0xc4ceb9fe1a85ec53
	for _, t := range pc {
		h = (h ^ shapeOf(t)) * 0xff51afd7ed558ccd
		h ^= h >> 29
	}
	ex := in.ex
	if ex == nil {
		return
	}
	if _, seen := ex.certified.LoadOrStore(h, true); seen {
		return
	}
	in.certQ++
	r, _ := in.sol.Check(pc, extra, false)
	if r == Unknown {
		return
	}
	if (r == Sat) != sat {
		panic("gosym: the solver disagrees with a table decision")
	}
}
