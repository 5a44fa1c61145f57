// C21: the Merkle Patricia trie (common/trie) under every sequence of operations within the bounds.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/merkle"
	"github.com/icon-project/goloop/common/trie"
	"github.com/icon-project/goloop/common/trie/cache"
	"github.com/icon-project/goloop/common/trie/trie_manager"

	"vgo/mc"
)

func h32(s string) string { return string(mc.Sha3([]byte(s))) }

var long = strings.Repeat("L", 40)

type family struct {
	keys   []string
	absent []string
	values []string
}

var families = map[string]family{
	// keys which are prefixes of each other: values in branches, extensions that split in a nibble
	"prefix": {[]string{"\x12", "\x12\x34", "\x12\x35", "\x12\x34\x56", "\x52"}, []string{"", "\x12\x34\x57", "\x13", "\x12\x34\x56\x78", "\x53"},
		[]string{"a", long}},
	// keys which part at the first nibble or share long extensions
	"wide": {[]string{"\x00\x00\x00\x01", "\x00\x00\x00\x02", "\x00\x00\x10\x00", "\xf0\x00\x00\x01", "\x0f\xff\xff\xff"},
		[]string{"\x00\x00\x00\x03", "\x00\x00\x00", "\x10\x00\x00\x00", "\x00\x00\x11\x00"}, []string{"a", long}},
	// the empty key, and values at the size where a node is stored by its hash (32 and 33 bytes)
	"edge": {[]string{"", "\x00", "\x01", "\x00\x00", "\x10"}, []string{"\x02", "\x11", "\x00\x01"},
		[]string{strings.Repeat("e", 28), strings.Repeat("e", 30)}},
	// hashed keys of 32 bytes, as used by the world state
	"hash": {[]string{h32("a"), h32("b"), h32("c"), h32("a")[:31] + "\x00", h32("d")}, []string{h32("e"), h32("f"), h32("a")[:31] + "\x01"},
		[]string{"a", long}},
}
var order = []string{"prefix", "wide", "edge", "hash"}

type model map[string]string

func (m model) clone() model {
	r := model{}
	for k, v := range m {
		r[k] = v
	}
	return r
}
func (m model) text() string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%x=%d:%.4s", k, len(v), v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}
func (m model) sorted() []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

type held struct {
	s trie.Snapshot
	m model
}

type world struct {
	c     *mc.Ctx
	f     family
	d     *mc.DB
	t     trie.Mutable
	m     model
	snaps []held
	roots map[string]string
	dirty bool
	fail  bool
}

func (w *world) root(m model) string {
	k := m.text()
	if r, ok := w.roots[k]; ok {
		return r
	}
	h, _ := mc.MPTRoot(m)
	w.roots[k] = string(h)
	return string(h)
}

func ok(c *mc.Ctx, err error, what string, v ...any) bool {
	if err != nil {
		c.Fail("%s: %v", fmt.Sprintf(what, v...), err)
		return false
	}
	return true
}

func same(a []byte, s string, has bool) bool {
	if !has {
		return a == nil
	}
	return a != nil && string(a) == s
}

// gets reads every key and some absent ones.
func (w *world) gets(t interface {
	Get([]byte) ([]byte, error)
}, m model, what string) {
	for _, l := range [][]string{w.f.keys, w.f.absent} {
		for _, k := range l {
			v, err := t.Get([]byte(k))
			if !ok(w.c, err, "%s: Get(%x)", what, k) {
				continue
			}
			e, has := m[k]
			if !same(v, e, has) {
				w.c.Fail("%s: Get(%x) = %q instead of %q (%v)", what, k, v, e, has)
			}
		}
	}
}

func (w *world) iterate(t trie.Immutable, m model, prefix *string, what string) {
	var it trie.Iterator
	keys := m.sorted()
	if prefix == nil {
		it = t.Iterator()
	} else {
		it = t.Filter([]byte(*prefix))
		var l []string
		for _, k := range keys {
			if strings.HasPrefix(k, *prefix) {
				l = append(l, k)
			}
		}
		keys = l
		what = fmt.Sprintf("%s filter %x", what, *prefix)
	}
	i := 0
	for ; it.Has(); i++ {
		v, k, err := it.Get()
		if !ok(w.c, err, "%s: iterator", what) {
			return
		}
		if i >= len(keys) || string(k) != keys[i] || string(v) != m[keys[i]] {
			w.c.Fail("%s: entry %d of the iteration is %x=%q, content %s", what, i, k, v, m.text())
			return
		}
		if err := it.Next(); err != nil {
			w.c.Fail("%s: Next after entry %d: %v", what, i, err)
			return
		}
	}
	if i != len(keys) {
		w.c.Fail("%s: the iteration ends after %d of %d entries", what, i, len(keys))
	}
}

const (
	opSnap = iota
	opFlush
	opReload
	opReset
	opClear
	nStruct
)

var structs = []string{"snapshot", "flush", "reload", "reset", "clear"}

func (w *world) ops() int { return len(w.f.keys)*(len(w.f.values)+1) + nStruct }

func (w *world) name(op int) string {
	n := len(w.f.keys)
	nv := len(w.f.values)
	switch {
	case op < n*nv:
		return fmt.Sprintf("set(%d,%d)", op/nv, op%nv)
	case op < n*(nv+1):
		return fmt.Sprintf("del(%d)", op-n*nv)
	}
	return structs[op-n*(nv+1)]
}

func (w *world) apply(op int) {
	n := len(w.f.keys)
	nv := len(w.f.values)
	switch {
	case op < n*nv:
		k, v := w.f.keys[op/nv], w.f.values[op%nv]
		old, err := w.t.Set([]byte(k), []byte(v))
		if ok(w.c, err, "Set(%x)", k) {
			e, has := w.m[k]
			if !same(old, e, has) {
				w.c.Fail("Set(%x) returns %q as the old value instead of %q (%v)", k, old, e, has)
			}
		}
		w.m[k] = v
		return
	case op < n*(nv+1):
		k := w.f.keys[op-n*nv]
		old, err := w.t.Delete([]byte(k))
		if ok(w.c, err, "Delete(%x)", k) {
			e, has := w.m[k]
			if !same(old, e, has) {
				w.c.Fail("Delete(%x) returns %q as the old value instead of %q (%v)", k, old, e, has)
			}
		}
		delete(w.m, k)
		return
	}
	switch op - n*(nv+1) {
	case opSnap:
		w.snap()
	case opFlush:
		s := w.snap()
		ok(w.c, s.Flush(), "Flush")
	case opReload:
		s := w.snap()
		ok(w.c, s.Flush(), "Flush")
		w.t = trie_manager.NewMutable(w.d, s.Hash())
	case opReset:
		if len(w.snaps) > 0 {
			h := w.snaps[0]
			if !ok(w.c, w.t.Reset(h.s), "Reset") {
				return
			}
			w.m = h.m.clone()
		}
	case opClear:
		w.t.ClearCache()
		if len(w.snaps) > 0 {
			w.snaps[len(w.snaps)-1].s.ClearCache()
		}
	}
}

func (w *world) snap() trie.Snapshot {
	s := w.t.GetSnapshot()
	w.snaps = append(w.snaps, held{s, w.m.clone()})
	return s
}

// start gives a trie holding m, in one of three manners.
func (w *world) start(kind string) {
	w.d = mc.NewDB()
	w.d.NoLog = true
	w.m = model{}
	w.snaps = nil
	w.t = trie_manager.NewMutable(w.d, nil)
	if kind == "empty" {
		return
	}
	for i, k := range w.f.keys {
		v := w.f.values[(i+1)%len(w.f.values)]
		_, err := w.t.Set([]byte(k), []byte(v))
		ok(w.c, err, "Set(%x)", k)
		w.m[k] = v
	}
	switch kind {
	case "stored":
		s := w.t.GetSnapshot()
		ok(w.c, s.Flush(), "Flush")
		w.t = trie_manager.NewMutable(w.d, s.Hash())
	case "cached":
		s := w.t.GetSnapshot()
		ok(w.c, s.Flush(), "Flush")
		w.t = trie_manager.NewMutable(w.d, s.Hash())
		trie_manager.SetCacheOfMutable(w.t, cache.NewNodeCache(2, 0, ""))
	}
}

func (w *world) check() {
	s := w.t.GetSnapshot()
	w.look(s, w.m, "the trie")
	w.gets(w.t, w.m, "the trie")
	for i, h := range w.snaps {
		w.look(h.s, h.m, fmt.Sprintf("snapshot %d", i))
	}
	for i, h := range w.snaps {
		if h.s.Equal(s, true) != (h.m.text() == w.m.text()) {
			w.c.Fail("Equal(snapshot %d) is wrong: %s / %s", i, h.m.text(), w.m.text())
		}
	}
	w.c.State(w.m.text(), w.d.Len())
}

func (w *world) look(s trie.Snapshot, m model, what string) {
	h := s.Hash()
	e := w.root(m)
	if string(h) != e || (len(m) == 0) != (h == nil) {
		w.c.Fail("%s: the root is %x instead of %x, content %s", what, h, e, m.text())
	}
	if s.Empty() != (len(m) == 0) {
		w.c.Fail("%s: Empty() = %v", what, s.Empty())
	}
	w.gets(s, m, what)
	w.iterate(s, m, nil, what)
}

func sequences(c *mc.Ctx, fam, kind string, first []int, depth int) {
	w := &world{c: c, f: families[fam], roots: map[string]string{}}
	n := w.ops()
	seq := make([]int, depth)
	var rec func(i int)
	rec = func(i int) {
		if i == depth {
			var l []string
			for _, o := range seq {
				l = append(l, w.name(o))
			}
			c.Case("%s %s %s", fam, kind, strings.Join(l, " "))
			w.start(kind)
			for _, o := range seq {
				w.apply(o)
			}
			c.Trans(depth)
			w.check()
			return
		}
		for o := 0; o < n; o++ {
			if i > 0 && o >= n-nStruct+opSnap && o == seq[i-1] {
				continue
			}
			seq[i] = o
			rec(i + 1)
		}
	}
	for _, o := range first {
		seq[0] = o
		rec(1)
	}
}

// contents visits every content of a family.
func contents(f family, fn func(m model)) {
	nv := len(f.values) + 1
	total := 1
	for range f.keys {
		total *= nv
	}
	for i := 0; i < total; i++ {
		m := model{}
		for j, x := 0, i; j < len(f.keys); j, x = j+1, x/nv {
			if x%nv > 0 {
				m[f.keys[j]] = f.values[x%nv-1]
			}
		}
		fn(m)
	}
}

func build(c *mc.Ctx, d db.Database, m model) trie.Snapshot {
	t := trie_manager.NewMutable(d, nil)
	for _, k := range m.sorted() {
		_, err := t.Set([]byte(k), []byte(m[k]))
		ok(c, err, "Set")
	}
	return t.GetSnapshot()
}

// proofs: a proof of a key proves its value with nothing but the root; a changed one proves nothing else.
func proofs(c *mc.Ctx, fam string) {
	f := families[fam]
	w := &world{c: c, f: f, roots: map[string]string{}}
	contents(f, func(m model) {
		c.Case("%s proofs of %s", fam, m.text())
		d := mc.NewDB()
		s := build(c, d, m)
		if len(m) == 0 {
			if p := s.GetProof([]byte(f.keys[0])); len(p) > 0 {
				c.Fail("a proof from an empty trie")
			}
			return
		}
		root := s.Hash()
		ok(c, s.Flush(), "Flush")
		stored := trie_manager.NewImmutable(d, root)
		all := map[string][][]byte{}
		for _, k := range m.sorted() {
			p := s.GetProof([]byte(k))
			p2 := stored.GetProof([]byte(k))
			if fmt.Sprint(p) != fmt.Sprint(p2) {
				c.Fail("the proof of %x differs after the trie was stored: %x / %x", k, p, p2)
			}
			all[k] = p
		}
		try := func(k string, p [][]byte, what string, must bool) {
			c.Trans(1)
			t := trie_manager.NewImmutable(mc.NewDB(), root)
			var v []byte
			var err error
			c.Guard(func() { v, err = t.Prove([]byte(k), p) })
			e, has := m[k]
			if must {
				if err != nil || !same(v, e, has) {
					c.Fail("%s: Prove(%x) = %q, %v instead of %q", what, k, v, err, e)
				}
				return
			}
			if err == nil && (!has || !same(v, e, true)) {
				c.Fail("%s: Prove(%x) = %q instead of %q (%v)", what, k, v, e, has)
			}
		}
		for _, k := range m.sorted() {
			p := all[k]
			try(k, p, "its proof", true)
			// the trie may learn one proof after another
			for j := range p {
				for _, bit := range []byte{1, 0x80} {
					for x := range p[j] {
						q := append([][]byte{}, p...)
						q[j] = append([]byte{}, p[j]...)
						q[j][x] ^= bit
						try(k, q, "changed proof", false)
					}
				}
				q := append(append([][]byte{}, p[:j]...), p[j+1:]...)
				try(k, q, "proof without a node", false)
				try(k, p[:j], "cut proof", false)
			}
			for _, l := range [][]string{f.keys, f.absent} {
				for _, k2 := range l {
					if k2 != k {
						try(k2, p, "proof of another key", false)
					}
				}
			}
		}
		// one trie without data proves all keys in turn
		for r := range m.sorted() {
			t := trie_manager.NewImmutable(mc.NewDB(), root)
			keys := m.sorted()
			keys = append(keys[r:], keys[:r]...)
			for _, k := range keys {
				v, err := t.Prove([]byte(k), all[k])
				if err != nil || string(v) != m[k] {
					c.Fail("a trie proving its keys in turn (%x first): Prove(%x) = %q, %v", keys[0], k, v, err)
				}
			}
		}
		for i := range f.keys {
			p := f.keys[i]
			for n := 0; n <= len(p) && n <= 3; n++ {
				q := p[:n]
				w.iterate(stored, m, &q, "stored trie")
				w.iterate(s, m, &q, "trie")
			}
		}
		for _, a := range f.absent {
			w.iterate(stored, m, &a, "stored trie")
		}
		c.State(m.text())
	})
}

// crashes: whichever write of a flush is the last one that reaches the database, a root that is there is complete;
// a flush that failed can be repeated.
func crashes(c *mc.Ctx, fam string) {
	f := families[fam]
	w := &world{c: c, f: f, roots: map[string]string{}}
	var list []model
	contents(f, func(m model) { list = append(list, m) })
	full := list[len(list)-1]
	for _, m0 := range []model{{}, full} {
		for _, m := range list {
			if len(m) == 0 {
				continue
			}
			base := mc.NewDB()
			s0 := build(c, base, m0)
			ok(c, s0.Flush(), "Flush")
			writes := 0
			for fail := 0; fail <= writes; fail++ {
				c.Case("%s from %s to %s, write %d fails", fam, m0.text(), m.text(), fail)
				d := base.Copy()
				t := trie_manager.NewMutable(d, s0.Hash())
				for _, k := range m0.sorted() {
					if _, has := m[k]; !has {
						_, err := t.Delete([]byte(k))
						ok(c, err, "Delete")
					}
				}
				for _, k := range m.sorted() {
					_, err := t.Set([]byte(k), []byte(m[k]))
					ok(c, err, "Set")
				}
				s := t.GetSnapshot()
				d.FailAt = fail
				err := s.Flush()
				if fail > 0 {
					if err == nil {
						c.Fail("Flush hides that a write failed")
					}
					w.gets(s, m, "after the failed flush")
					ok(c, s.Flush(), "Flush again")
				} else {
					if !ok(c, err, "Flush") {
						continue
					}
					writes = len(d.Log)
					root := s.Hash()
					for n := 0; n <= writes; n++ {
						c.Trans(1)
						cut := d.Cut(base, n)
						bk, _ := cut.GetBucket(db.MerkleTrie)
						if has, _ := bk.Has(root); has {
							t := trie_manager.NewImmutable(cut, root)
							w.gets(t, m, fmt.Sprintf("crash after write %d", n))
						}
						w.gets(trie_manager.NewImmutable(cut, s0.Hash()), m0, fmt.Sprintf("old root, crash after write %d", n))
					}
				}
				if string(s.Hash()) != w.root(m) {
					c.Fail("root %x", s.Hash())
				}
				w.gets(trie_manager.NewImmutable(d, s.Hash()), m, "reloaded")
				w.iterate(trie_manager.NewImmutable(d, s.Hash()), m, nil, "reloaded")
			}
			c.State(m0.text(), m.text())
		}
	}
}

// syncs: building a trie from data delivered in every order, with wrong data mixed in, gives exactly the trie of the root.
func syncs(c *mc.Ctx, fam string) {
	f := families[fam]
	w := &world{c: c, f: f, roots: map[string]string{}}
	contents(f, func(m model) {
		if len(m) == 0 {
			return
		}
		src := mc.NewDB()
		s := build(c, src, m)
		ok(c, s.Flush(), "Flush")
		root := s.Hash()
		_, nodes := mc.MPTRoot(m)
		if src.Len() != len(nodes) {
			c.Note("stored-nodes-differ")
		}
		// depth first over which of the open requests is answered next
		var walk func(prefix []int)
		runs := 0
		walk = func(prefix []int) {
			if runs > 400 {
				c.Note("sync-orders-cut")
				return
			}
			runs++
			c.Case("%s sync %s order %v", fam, m.text(), prefix)
			dst := mc.NewDB()
			b := merkle.NewBuilder(dst)
			t := trie_manager.NewImmutable(b.Database(), root)
			t.Resolve(b)
			step := 0
			var widths []int
			for b.UnresolvedCount() > 0 {
				var keys [][]byte
				for it := b.Requests(); it.Next(); {
					keys = append(keys, it.Key())
				}
				if len(keys) != b.UnresolvedCount() {
					c.Fail("%d requests listed, %d unresolved", len(keys), b.UnresolvedCount())
				}
				x := 0
				if step < len(prefix) {
					x = prefix[step]
				}
				widths = append(widths, len(keys))
				v, okk := nodes[string(keys[x])]
				if !okk {
					c.Fail("a request for %x, which isn't a node of the trie", keys[x])
					return
				}
				bad := append([]byte{}, v...)
				bad[len(bad)-1] ^= 1
				if err := b.OnData(db.MerkleTrie, bad); err == nil {
					c.Fail("data nobody asked for is accepted")
				}
				if !ok(c, b.OnData(db.MerkleTrie, v), "OnData") {
					return
				}
				if err := b.OnData(db.MerkleTrie, v); err == nil {
					c.Note("data-accepted-twice")
				}
				c.Trans(1)
				step++
				if step > 100 {
					c.Fail("the sync doesn't end")
					return
				}
			}
			ok(c, b.Flush(true), "Flush of the builder")
			re := trie_manager.NewImmutable(dst, root)
			w.gets(re, m, "synced")
			w.iterate(re, m, nil, "synced")
			bk, _ := dst.GetBucket(db.MerkleTrie)
			for h, v := range nodes {
				got, _ := bk.Get([]byte(h))
				if !bytes.Equal(got, v) {
					c.Fail("node %x isn't stored by the sync", h)
				}
			}
			if dst.Len() != len(nodes) {
				c.Fail("the sync stored %d nodes instead of %d", dst.Len(), len(nodes))
			}
			for i := len(prefix); i < len(widths); i++ {
				for x := 1; x < widths[i]; x++ {
					p := append([]int{}, prefix...)
					for len(p) < i {
						p = append(p, 0)
					}
					walk(append(p, x))
				}
			}
		}
		walk(nil)
		// a target which has some of the nodes already
		var hs []string
		for h := range nodes {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		for _, h := range hs {
			c.Case("%s sync %s with node %x there", fam, m.text(), h[:4])
			dst := mc.NewDB()
			// a node that is there has everything below it
			dst2 := src.Copy()
			for _, o := range hs {
				if !reach(nodes, h, o) {
					bk, _ := dst2.GetBucket(db.MerkleTrie)
					mc.Must(bk.Delete([]byte(o)))
				}
			}
			_ = dst
			b := merkle.NewBuilder(dst2)
			t := trie_manager.NewImmutable(b.Database(), root)
			t.Resolve(b)
			for i := 0; b.UnresolvedCount() > 0 && i < 100; i++ {
				it := b.Requests()
				it.Next()
				if !ok(c, b.OnData(db.MerkleTrie, nodes[string(it.Key())]), "OnData") {
					return
				}
			}
			ok(c, b.Flush(true), "Flush of the builder")
			w.gets(trie_manager.NewImmutable(dst2, root), m, "synced over a part")
		}
		c.State(m.text())
	})
}

// reach tells whether node o is h or below h.
func reach(nodes map[string][]byte, h, o string) bool {
	if h == o {
		return true
	}
	for x, v := range nodes {
		_ = v
		if x != h && bytes.Contains(nodes[h], []byte(x)) && reach(nodes, x, o) {
			return true
		}
	}
	return false
}

// reads: an operation during which a read of the database fails says so, and can be repeated.
func reads(c *mc.Ctx, fam string) {
	f := families[fam]
	w := &world{c: c, f: f, roots: map[string]string{}}
	ops := len(f.keys)*(len(f.values)+1) + 2*(len(f.keys)+len(f.absent))
	contents(f, func(m model) {
		d := mc.NewDB()
		s := build(c, d, m)
		ok(c, s.Flush(), "Flush")
		root := s.Hash()
		for op := 0; op < ops; op++ {
			total := 0
			for fail := 0; fail <= total; fail++ {
				c.Case("%s %s operation %d, read %d fails", fam, m.text(), op, fail)
				c.Trans(1)
				t := trie_manager.NewMutable(d, root)
				im := trie_manager.NewImmutable(d, root)
				m2 := m.clone()
				do := func() error {
					o := op
					nv := len(f.values)
					if o < len(f.keys)*(nv+1) {
						k := []byte(f.keys[o/(nv+1)])
						var old []byte
						var err error
						if o%(nv+1) == nv {
							old, err = t.Delete(k)
						} else {
							old, err = t.Set(k, []byte(f.values[o%(nv+1)]))
						}
						if err == nil {
							e, has := m[string(k)]
							if !same(old, e, has) {
								c.Fail("old value %q instead of %q", old, e)
							}
							if o%(nv+1) == nv {
								delete(m2, string(k))
							} else {
								m2[string(k)] = f.values[o%(nv+1)]
							}
						}
						return err
					}
					o -= len(f.keys) * (nv + 1)
					var k string
					if o/2 < len(f.keys) {
						k = f.keys[o/2]
					} else {
						k = f.absent[o/2-len(f.keys)]
					}
					if o%2 == 0 {
						v, err := im.Get([]byte(k))
						if err == nil {
							e, has := m[k]
							if !same(v, e, has) {
								c.Fail("Get(%x) = %q", k, v)
							}
						}
						return err
					}
					n := 0
					it := im.Filter([]byte(k))
					for ; it.Has(); n++ {
						if _, _, err := it.Get(); err != nil {
							return err
						}
						if err := it.Next(); err != nil {
							return err
						}
					}
					for x := range m {
						if strings.HasPrefix(x, k) {
							n--
						}
					}
					if n != 0 && d.FailRd == 0 {
						c.Fail("iteration with prefix %x gives %d entries too much", k, n)
					}
					return nil
				}
				d.Reads, d.FailRd = 0, fail
				err := do()
				hit := fail > 0 && d.FailRd == 0
				d.FailRd = 0
				if fail == 0 {
					if !ok(c, err, "operation") {
						return
					}
					total = d.Reads
				} else if hit && err == nil && !(op >= len(f.keys)*(len(f.values)+1) && (op-len(f.keys)*(len(f.values)+1))%2 == 1) {
					c.Fail("the failing read is not reported")
				} else if err != nil {
					if !ok(c, do(), "the repeated operation") {
						return
					}
				}
				if string(t.GetSnapshot().Hash()) != w.root(m2) {
					c.Fail("root %x after it, content %s", t.GetSnapshot().Hash(), m2.text())
				}
			}
		}
		c.State(m.text())
	})
}

func main() {
	kinds := []string{"empty", "stored", "dirty", "cached"}
	mc.Main(mc.Check{
		Units: func(tier string) []string {
			var l []string
			for _, f := range order {
				l = append(l, "crash "+f, "sync "+f, "proof "+f, "read "+f)
			}
			for _, f := range order {
				for _, k := range kinds {
					if tier == "thorough" {
						for i := 0; i < 20; i++ {
							l = append(l, fmt.Sprintf("seq %s %s %d", f, k, i))
						}
					} else {
						l = append(l, fmt.Sprintf("seq %s %s", f, k))
					}
				}
			}
			return l
		},
		Run: func(unit string, c *mc.Ctx) {
			p := strings.Fields(unit)
			switch p[0] {
			case "crash":
				crashes(c, p[1])
			case "read":
				reads(c, p[1])
			case "sync":
				syncs(c, p[1])
			case "proof":
				proofs(c, p[1])
			case "seq":
				if len(p) == 4 {
					var i int
					fmt.Sscan(p[3], &i)
					sequences(c, p[1], p[2], []int{i}, 5)
				} else {
					var all []int
					for i := 0; i < 20; i++ {
						all = append(all, i)
					}
					sequences(c, p[1], p[2], all, 4)
				}
			}
		},
	})
}
