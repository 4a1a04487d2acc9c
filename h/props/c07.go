package props

import (
	"bytes"
	"fmt"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// model of tagset is list of tags with unique identifiers.
type tagModel []kit.Tag

func (m tagModel) find(id uint16) int {
	for i, t := range m {
		if t.ID == id {
			return i
		}
	}
	return -1
}

func (m tagModel) clone() tagModel { return append(tagModel{}, m...) }

func (m tagModel) put(id uint16, v []byte) tagModel {
	return append(m.clone(), kit.Tag{ID: id, Val: v})
}

func (m tagModel) set(id uint16, v []byte) (tagModel, bool) {
	if i := m.find(id); i >= 0 {
		var r = m.clone()
		r[i].Val = v
		return r, false
	}
	return m.put(id, v), true
}

func (m tagModel) del(id uint16) (tagModel, bool) {
	if i := m.find(id); i >= 0 {
		return append(m[:i:i], m[i+1:]...), true
	}
	return m, false
}

// checkTagset compares tagset with model in every view.
func checkTagset(c *mc.C, ts wpk.TagsetRaw, m tagModel, ids []uint16) {
	if want := kit.EncTags(m); !bytes.Equal(want, ts) {
		c.Fail("encoded tagset differs from the model: got %v, want %v", short(ts), short(want))
	}
	if n := ts.Num(); n != len(m) {
		c.Fail("Num is %d, want %d", n, len(m))
	}
	for _, id := range ids {
		var i = m.find(id)
		if ts.Has(id) != (i >= 0) {
			c.Fail("Has(%d) is %v, present in model: %v", id, ts.Has(id), i >= 0)
		}
		var tag, ok = ts.Get(id)
		if ok != (i >= 0) {
			c.Fail("Get(%d) found is %v, present in model: %v", id, ok, i >= 0)
		}
		if ok && !bytes.Equal(tag, m[i].Val) {
			c.Fail("Get(%d) is %v, want %v", id, short(tag), short(m[i].Val))
		}
		if !ok && len(tag) > 0 {
			c.Fail("Get(%d) of absent tag returns content", id)
		}
	}
	constIter(c, ts)
	var tsi = ts.Iterator()
	for round := 0; round < 2; round++ { // second round is after Reset
		for i := range m {
			if !tsi.Next() {
				c.Fail("iterator stops at record %d of %d", i, len(m))
			}
			if tsi.TID() != m[i].ID || !bytes.Equal(tsi.Tag(), m[i].Val) || tsi.TagLen() != len(m[i].Val) || tsi.Failed() {
				c.Fail("iterator at record %d: tid %d, tag %v, len %d", i, tsi.TID(), short(tsi.Tag()), tsi.TagLen())
			}
			if tsi.Passed() != (i == len(m)-1) {
				c.Fail("iterator passed state at record %d is wrong", i)
			}
		}
		if tsi.Next() || !tsi.Passed() || tsi.Failed() || tsi.TID() != wpk.TIDnone {
			c.Fail("iterator does not finish properly")
		}
		tsi.Reset()
	}
}

// constIter checks that content can not be changed by the iterator.
func constIter(c *mc.C, ts wpk.TagsetRaw) {
	var was = string(ts)
	for i := len(ts) % 7; i < 7; i += 7 { // one method for each length
		var tsi = ts.Iterator()
		tsi.Next()
		var err any
		func() {
			defer func() { err = recover() }()
			switch i {
			case 0:
				tsi.Put(9, wpk.TagRaw{1})
			case 1:
				tsi.Add(1, wpk.TagRaw{1})
			case 2:
				tsi.AddOk(9, wpk.TagRaw{1})
			case 3:
				tsi.Set(1, wpk.TagRaw{1})
			case 4:
				tsi.SetOk(1, wpk.TagRaw{9})
			case 5:
				tsi.Del(1)
			case 6:
				tsi.DelOk(1)
			}
		}()
		if err != wpk.ErrTsiConst || string(ts) != was {
			c.Fail("changing #%d by the iterator: panic %v, tagset %x, was %x", i, err, []byte(ts), was)
		}
	}
}

func short(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x...(%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%x", b)
}

var c07ids = []uint16{1, 0, 3, 0xffff, 2}

func c07init(c *mc.C, k int) (ts wpk.TagsetRaw, m tagModel, guard func()) {
	guard = func() {}
	var enc = func() []byte { return kit.EncTags(m) }
	switch k {
	case 0:
	case 1: // exact capacity
		m = tagModel{{ID: 1, Val: []byte{7}}, {ID: 3, Val: []byte("name")}, {ID: 2, Val: []byte{1, 2}}}
		var b = enc()
		ts = b[:len(b):len(b)]
	case 2: // plenty of spare capacity
		m = tagModel{{ID: 1, Val: []byte{7}}, {ID: 3, Val: []byte("name")}, {ID: 2, Val: []byte{1, 2}}}
		var b = make([]byte, 0, 256)
		ts = append(b, enc()...)
	case 3: // ends by zero identifier
		m = tagModel{{ID: 3, Val: []byte("ab")}, {ID: 0, Val: []byte("z")}}
		ts = wpk.CopyTagset(enc())
	case 4: // starts by zero identifier with empty values
		m = tagModel{{ID: 0, Val: nil}, {ID: 1, Val: nil}}
		ts = wpk.CopyTagset(enc())
	case 5: // few spare bytes
		m = tagModel{{ID: 1, Val: []byte{1, 2, 3}}, {ID: 2, Val: []byte{4, 5, 6, 7, 8}}}
		var b = make([]byte, 0, len(enc())+2)
		ts = append(b, enc()...)
	case 6: // copy of slice inside of solid table
		m = tagModel{{ID: 3, Val: []byte("abc")}, {ID: 1, Val: []byte{9}}}
		var solid = append(append([]byte("head"), enc()...), "tail-tail-tail-tail-tail"...)
		var keep = append([]byte{}, solid...)
		ts = wpk.CopyTagset(solid[4 : 4+len(enc())])
		guard = func() {
			if !bytes.Equal(solid, keep) {
				c.Fail("changing the copy of tagset changes memory of the original")
			}
		}
	}
	return
}

func init() {
	reg(&mc.Prop{
		ID:   "C07",
		Rule: "every sequence of tagset operations up to the depth bound from 7 initial slices, compared with an ordered-map model after each step; every byte string up to the length bound as malformed tagset; an execution is one complete sequence",
		Bounds: func(tier string) string {
			return fmt.Sprintf("op sequences of depth %d over 5 identifiers x 3 value lengths; copies %d steps deep; one operation at %d pairs of 11 identifiers and pairs of %d and 39 lengths; two operations at sets of up to %d tags; malformed strings up to %d bytes over 6 byte values", pick(tier, 4, 5), pick(tier, 3, 4), pick(tier, 33, 121), pick(tier, 13, 39), pick(tier, 2049, 16384), pick(tier, 7, 9))
		},
		Scenarios: func(tier string) (l []mc.Scenario) {
			var depth = pick(tier, 4, 5)
			for k := 0; k < 7; k++ {
				k := k
				l = append(l, mc.Scenario{Name: fmt.Sprintf("ops-init%d", k), Run: func(c *mc.C) {
					var ts, m, guard = c07init(c, k)
					checkTagset(c, ts, m, c07ids)
					c07ops(c, ts, m, depth, []int{0, 1, 3}, c07ids[:4], guard)
				}})
			}
			// values by the format limit
			l = append(l, mc.Scenario{Name: "ops-long", Run: func(c *mc.C) {
				var ts, m, guard = c07init(c, c.Choose(2)*2)
				c07ops(c, ts, m, pick(tier, 2, 3), []int{0, 255, 256, 65535}, []uint16{1, 3, 0x1234}, guard)
			}})
			// two copies of the same tagset do not influence to each other
			l = append(l, mc.Scenario{Name: "copies", Run: func(c *mc.C) {
				var orig, m, _ = c07init(c, []int{0, 1, 2, 5}[c.Choose(4)])
				var keep = append([]byte{}, orig...)
				var ts = [2]wpk.TagsetRaw{wpk.CopyTagset(orig), wpk.CopyTagset(orig)}
				var ms = [2]tagModel{m.clone(), m.clone()}
				var sz = []int{0, 1, 5}
				for i := 0; i < pick(tier, 3, 4); i++ {
					var j = c.Choose(2)
					ts[j], ms[j] = c07step(c, ts[j], ms[j], i, sz, []uint16{1, 2, 9})
					if !bytes.Equal(orig, keep) {
						c.Fail("changing the copy changes the original")
					}
					for n := range ts {
						checkTagset(c, ts[n], ms[n], []uint16{1, 2, 9})
					}
				}
			}})
			l = append(l, c07wide(tier), c07many(tier))
			// malformed content
			l = append(l, mc.Scenario{Name: "malformed", Run: func(c *mc.C) {
				c07malformed(c, pick(tier, 7, 9))
			}})
			return
		},
	})
}

func c07step(c *mc.C, ts wpk.TagsetRaw, m tagModel, step int, lens []int, ids []uint16) (wpk.TagsetRaw, tagModel) {
	var id = ids[c.Choose(len(ids))]
	var op = c.Choose(4)
	var v []byte
	if op < 3 {
		var n = lens[c.Choose(len(lens))]
		v = bytes.Repeat([]byte{byte(0x10*(step+1) + 1)}, n)
		if n > 1 {
			v[n-1] = byte(id) + 0x80
		}
	}
	var okm, ok bool
	var m2 tagModel
	var chain wpk.TagsetRaw
	var probe = wpk.CopyTagset(ts) // for non-Ok form of the method
	switch op {
	case 0: // put
		if m.find(id) >= 0 {
			c.Stop() // identifiers should be unique
		}
		m2, okm, ok = m.put(id, v), true, true
		chain = probe.Put(id, v)
		ts = ts.Put(id, v)
	case 1: // add
		if m2, okm = m, m.find(id) < 0; okm {
			m2 = m.put(id, v)
		}
		chain = probe.Add(id, v)
		ts, ok = ts.AddOk(id, v)
	case 2: // set
		m2, okm = m.set(id, v)
		chain = probe.Set(id, v)
		ts, ok = ts.SetOk(id, v)
	case 3:
		m2, okm = m.del(id)
		chain = probe.Del(id)
		ts, ok = ts.DelOk(id)
	}
	c.Step()
	c.Logf("%s id=%d len=%d -> %v", []string{"put", "add", "set", "del"}[op], id, len(v), ok)
	if ok != okm {
		c.Fail("operation %s id=%d len=%d reports %v, want %v", []string{"put", "add", "set", "del"}[op], id, len(v), ok, okm)
	}
	if !bytes.Equal(chain, ts) {
		c.Fail("chain form of operation gives other result: %s, want %s", short(chain), short(ts))
	}
	return ts, m2
}

func c07ops(c *mc.C, ts wpk.TagsetRaw, m tagModel, depth int, lens []int, ids []uint16, guard func()) {
	for i := 0; i < depth; i++ {
		ts, m = c07step(c, ts, m, i%2, lens, ids)
		checkTagset(c, ts, m, c07ids)
		guard()
		c.Prune(depth-i-1, string(ts), fmt.Sprint(cap(ts), i%2))
	}
	c.Outcome(string(ts))
}

func c07malformed(c *mc.C, maxlen int) {
	var alpha = []byte{0, 1, 2, 5, 0xff, 3}
	var n = c.Choose(maxlen + 1)
	var b = make([]byte, n)
	for i := range b {
		if i&1 == 1 && n > 6 {
			b[i] = alpha[c.Choose(2)] // high bytes
		} else {
			b[i] = alpha[c.Choose(len(alpha))]
		}
	}
	c.Logf("content %x", b)
	c.Step()
	// independent parse
	var recs []kit.Tag
	var rest = b
	var bad bool
	for len(rest) > 0 {
		if len(rest) < 4 {
			bad = true
			break
		}
		var l = int(rest[2]) | int(rest[3])<<8
		if len(rest) < 4+l {
			bad = true
			break
		}
		recs = append(recs, kit.Tag{ID: uint16(rest[0]) | uint16(rest[1])<<8, Val: rest[4 : 4+l]})
		rest = rest[4+l:]
	}
	var ts = wpk.TagsetRaw(append([]byte{}, b...))
	var tsi = ts.Iterator()
	for i, r := range recs {
		if !tsi.Next() {
			c.Fail("iterator stops at valid record %d", i)
		}
		if tsi.TID() != r.ID || !bytes.Equal(tsi.Tag(), r.Val) {
			c.Fail("wrong record %d", i)
		}
	}
	if tsi.Next() {
		c.Fail("iterator goes out of valid records")
	}
	if tsi.Failed() != bad || tsi.Passed() == bad {
		c.Fail("iterator on %x: failed=%v passed=%v, broken=%v", b, tsi.Failed(), tsi.Passed(), bad)
	}
	if bad && (tsi.Tag() != nil || tsi.TagLen() != 0 || tsi.TID() != wpk.TIDnone) {
		c.Fail("failed iterator returns content")
	}
	for i := 0; i < 3; i++ {
		if tsi.Next() {
			c.Fail("finished iterator goes on")
		}
	}
	if ts.Num() != len(recs) {
		c.Fail("Num of %x is %d, want %d", b, ts.Num(), len(recs))
	}
	for _, id := range []uint16{0, 1, 2, 0xff, 0x1ff, 7} {
		var v, found = kit.Find(recs, id)
		if ts.Has(id) != found {
			c.Fail("Has(%d) of %x is %v", id, b, !found)
		}
		var tag, ok = ts.Get(id)
		if ok != found || !bytes.Equal(tag, v) {
			c.Fail("Get(%d) of %x is %x, %v", id, b, tag, ok)
		}
		var cp = wpk.CopyTagset(ts)
		var r1, ok1 = cp.DelOk(id)
		if ok1 != found || (!found && !bytes.Equal(r1, b)) || (found && len(r1) != len(b)-4-len(v)) {
			c.Fail("DelOk(%d) of %x is %x, %v", id, b, r1, ok1)
		}
		cp = wpk.CopyTagset(ts)
		if r2, ok2 := cp.AddOk(id, []byte{1}); found && (ok2 || !bytes.Equal(r2, b)) {
			c.Fail("AddOk(%d) of %x is %x, %v", id, b, r2, ok2)
		}
		cp = wpk.CopyTagset(ts)
		if r3, ok3 := cp.SetOk(id, []byte{1, 2, 3}); found && (ok3 || len(r3) != len(b)-len(v)+3) {
			c.Fail("SetOk(%d) of %x is %x, %v", id, b, r3, ok3)
		}
	}
	ts.Pos()
	ts.Path()
	ts.Name()
	ts.Size()
	ts.ModTime()
	ts.IsDir()
	c.Outcome(fmt.Sprint(len(recs), bad))
	c.State(string(b))
}
