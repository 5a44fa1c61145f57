package cons

import (
	"bytes"
	"fmt"
	"io"

	"github.com/icon-project/goloop/common/crypto"
	"github.com/icon-project/goloop/consensus"

	"vgo/mc"
)

func content(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/256*13 + 1)
	}
	return b
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

func guarded(ctx *mc.Ctx, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			ctx.Fail("%s: panic: %v", what, e)
		}
	}()
	f()
}

// Parts checks that blocks of all sizes are cut in parts which any other puts together again, and that it
// takes no other part.
func Parts(ctx *mc.Ctx, size, most int) {
	ids := map[string]int{}
	for n := 1; n <= most; n++ {
		data := content(n)
		var want []byte
		// all ways to write it at once or in two
		cuts := []int{0}
		if size <= 8 {
			for c := 1; c < n; c++ {
				cuts = append(cuts, c)
			}
		} else if n > 1 {
			cuts = append(cuts, n-1)
		}
		for _, cut := range cuts {
			what := fmt.Sprintf("%d bytes in parts of %d, written %d + %d", n, size, cut, n-cut)
			ctx.Case("%s", what)
			ctx.Trans(1)
			guarded(ctx, what, func() {
				buf := consensus.NewPartSetBuffer(size)
				for _, d := range [][]byte{data[:cut], data[cut:]} {
					if k, err := buf.Write(d); k != len(d) || err != nil {
						ctx.Fail("%s: write: %d %v", what, k, err)
					}
				}
				ps := buf.PartSet()
				k := (n + size - 1) / size
				if ps == nil || ps.ID() == nil || !ps.IsComplete() || ps.Parts() != k || int(ps.ID().Count) != k || len(ps.ID().Hash) == 0 {
					ctx.Fail("%s: the set of parts is not complete: %v", what, ps.ID())
					return
				}
				key := psidKey(ps.ID())
				if want == nil {
					want = []byte(key)
					if o, ok := ids[key]; ok {
						ctx.Fail("%s: same ID as %d bytes", what, o)
					}
					ids[key] = n
					ctx.NewState(key)
				} else if string(want) != key {
					ctx.Fail("%s: ID depends on how it is written", what)
				}
				if got, err := io.ReadAll(ps.NewReader()); err != nil || !bytes.Equal(got, data) {
					ctx.Fail("%s: reads %x %v", what, got, err)
				}
				if cut != 0 {
					return
				}
				orders := perms(min(k, 4))
				for _, o := range orders {
					for i := 4; i < k; i++ {
						o = append(o, i)
					}
					ctx.Trans(1)
					ctx.Outcome(fmt.Sprint(len(o)))
					other := consensus.NewPartSetFromID(ps.ID())
					for j, i := range o {
						if other.IsComplete() {
							ctx.Fail("%s: complete after %v", what, o[:j])
						}
						raw := ps.GetPart(i).Bytes()
						p, err := consensus.NewPart(raw)
						if err == nil {
							err = other.AddPart(p)
						}
						if err != nil {
							ctx.Fail("%s: part %d is refused: %v", what, i, err)
							return
						}
						if !other.GetMask().Get(i) {
							ctx.Fail("%s: part %d is not in the mask", what, i)
						}
						if p, err = consensus.NewPart(raw); err == nil && other.AddPart(p) == nil {
							ctx.Fail("%s: part %d is taken twice", what, i)
						}
					}
					if !other.IsComplete() || !other.ID().Equal(ps.ID()) {
						ctx.Fail("%s: not complete with all parts", what)
					}
					if got, err := io.ReadAll(other.NewReader()); err != nil || !bytes.Equal(got, data) {
						ctx.Fail("%s: put together it is %x %v", what, got, err)
					}
				}
			})
		}
	}
}

// Forged checks that no other part is taken: all changes of a byte, all other indices, parts of other blocks.
func Forged(ctx *mc.Ctx, size int, sizes []int) {
	for _, n := range sizes {
		data := content(n)
		buf := consensus.NewPartSetBuffer(size)
		buf.Write(data)
		ps := buf.PartSet()
		for i := 0; i < ps.Parts(); i++ {
			raw := ps.GetPart(i).Bytes()
			end := min(len(data), (i+1)*size)
			true_ := data[i*size : end]
			for at := range raw {
				for _, x := range []byte{1, 2, 0x40, 0x80, 0xff} {
					m := append([]byte(nil), raw...)
					m[at] ^= x
					what := fmt.Sprintf("%d bytes in parts of %d: part %d with byte %d ^ %x", n, size, i, at, x)
					ctx.Case("%s", what)
					ctx.Trans(1)
					guarded(ctx, what, func() {
						other := consensus.NewPartSetFromID(ps.ID())
						p, err := consensus.NewPart(m)
						if err != nil {
							ctx.Outcome("not read")
							return
						}
						if other.AddPart(p) != nil {
							ctx.Outcome("refused")
							if k := other.GetMask().PickRandom(); k >= 0 || other.IsComplete() {
								ctx.Fail("%s: is refused, but it says that it has part %d", what, k)
							}
							return
						}
						j := p.Index()
						// other encodings of what is in the proof are possible
						for k := 0; k < ps.Parts(); k++ {
							if k != j {
								q, _ := consensus.NewPart(ps.GetPart(k).Bytes())
								if err := other.AddPart(q); err != nil {
									ctx.Fail("%s: is taken, then part %d is not: %v", what, k, err)
								}
							}
						}
						ctx.Outcome("taken")
						if got, _ := io.ReadAll(other.NewReader()); !bytes.Equal(got, data) {
							ctx.Fail("%s: is taken, and the block is %x", what, got)
						}
						_ = true_
					})
				}
			}
			for j := 0; j < ps.Parts(); j++ {
				if j == i {
					continue
				}
				// the proof of one as that of another
				q := ps.GetPart(j).Bytes()
				_ = q
			}
		}
	}
}

// Proofs checks that whatever a proposer says the hash of a block is made of, nothing panics.
func Proofs(ctx *mc.Ctx) {
	try := func(what string, count int, idx int, proof ...[]byte) {
		ctx.Case("%s", what)
		ctx.Trans(1)
		var h []byte
		if len(proof) > 0 {
			h = crypto.SHA3Sum256(proof[0])
		}
		guarded(ctx, what, func() {
			raw := enc(struct {
				Index uint16
				Proof [][]byte
			}{uint16(idx), proof})
			p, err := consensus.NewPart(raw)
			if err != nil {
				ctx.Outcome("not read")
				return
			}
			for _, hash := range [][]byte{h, nil, {}} {
				other := consensus.NewPartSetFromID(&consensus.PartSetID{Count: uint16(count), Hash: hash})
				if err := other.AddPart(p); err != nil {
					ctx.Outcome("refused")
					continue
				}
				ctx.Outcome("taken")
				if other.IsComplete() {
					io.ReadAll(io.LimitReader(other.NewReader(), 1<<20))
				}
			}
		})
	}
	for idx := 0; idx < 3; idx++ {
		try(fmt.Sprintf("no proof, part %d", idx), 2, idx)
		for a := 0; a < 256; a++ {
			try(fmt.Sprintf("proof %02x, part %d", a, idx), 2, idx, []byte{byte(a)})
			for b := 0; b < 256; b++ {
				try(fmt.Sprintf("proof %02x%02x, part %d", a, b, idx), 2, idx, []byte{byte(a), byte(b)})
			}
		}
	}
	// short nodes: all heads with all bytes at the places which matter
	tails := [][]byte{{}, {0}, {0x80}, {0xc0}, {0x20}, {0x20, 0x80}, {0x20, 0xc0}, {0x00, 0x80}, {0x81, 0x80}, {0x82, 0x20, 0x80}, {0x82, 0x00, 0x80},
		{0x82, 0x00, 0x81}, {0x30, 0x01}, {0x31, 0xc2, 0x20, 0x80}, {0x80, 0x80}, {0xc2, 0x20, 0x31}, {0x00, 0xc2, 0x20, 0x31}, {0x10, 0xc2, 0x20, 0x31}}
	for head := 0xb0; head < 256; head++ {
		for _, t := range tails {
			for _, u := range tails {
				b := append(append([]byte{byte(head)}, t...), u...)
				try(fmt.Sprintf("proof %x", b), 2, 0, b)
				try(fmt.Sprintf("proof %x with itself", b), 2, 1, b, b)
			}
		}
	}
	// nodes of true proofs with each byte changed, hash to match
	for _, n := range []int{5, 40, 300} {
		buf := consensus.NewPartSetBuffer(5)
		buf.Write(content(n))
		ps := buf.PartSet()
		for i := 0; i < ps.Parts(); i += max(1, ps.Parts()/3) {
			var pb struct {
				Index uint16
				Proof [][]byte
			}
			_, err := bc.UnmarshalFromBytes(ps.GetPart(i).Bytes(), &pb)
			mc.Must(err)
			for k := range pb.Proof {
				for at := range pb.Proof[k] {
					for v := 0; v < 256; v++ {
						pr := append([][]byte(nil), pb.Proof...)
						pr[k] = append([]byte(nil), pr[k]...)
						pr[k][at] = byte(v)
						// parents name the hash of the changed node
						for u := k; u > 0; u-- {
							old := crypto.SHA3Sum256(pb.Proof[u])
							pr[u-1] = bytes.Replace(append([]byte(nil), pr[u-1]...), old, crypto.SHA3Sum256(pr[u]), 1)
						}
						try(fmt.Sprintf("proof of part %d of %d bytes: node %d byte %d is %02x", i, n, k, at, v), ps.Parts(), i, pr...)
					}
				}
			}
		}
	}
}

// Block checks that nodes decide a block of so many bytes.
func Block(ctx *mc.Ctx, n int) {
	what := fmt.Sprintf("a block of %d bytes", n)
	ctx.Case("%s", what)
	w := NewWorld(4, 0)
	// blocks of the round 0 proposer have a name of the usual length
	w.pad = n - len(w.Block(1, w.proposer(1, 0), "A", w.Gen.id).raw)
	w.blocks = map[string]*Blk{}
	w.byPSID = map[string]*Blk{}
	w.Gen = w.Block(0, -1, "G", nil)
	l := w.NewLocal(0)
	if k := len(l.Block("A").raw); k != n {
		ctx.Fail("%s: it has %d", what, k)
	}
	l.rounds(1, what)
	ctx.Trans(1)
	for _, b := range l.Bad {
		ctx.Fail("%s", b)
	}
	l.Stop()
}

// Many checks blocks of many parts: each part belongs where it was cut from, and nowhere else.
func Many(ctx *mc.Ctx, n int) {
	type pb struct {
		Index uint16
		Proof [][]byte
	}
	what := fmt.Sprintf("a block of %d parts", n)
	ctx.Case("%s", what)
	guarded(ctx, what, func() {
		data := content(40 * n)
		buf := consensus.NewPartSetBuffer(40)
		buf.Write(data)
		ps := buf.PartSet()
		for back := 0; back < 2; back++ {
			o := consensus.NewPartSetFromID(ps.ID())
			for k := 0; k < n; k++ {
				i := k
				if back == 1 {
					i = n - 1 - k
				}
				var x pb
				bc.MustUnmarshalFromBytes(ps.GetPart(i).Bytes(), &x)
				for _, j := range []int{i + 256, i - 256, i ^ 1, i + 128, i - 128, i | 0x8000, 65535 - i, n} {
					if j < 0 || j > 65535 || j == i {
						continue
					}
					ctx.Trans(1)
					p, err := consensus.NewPart(enc(&pb{uint16(j), x.Proof}))
					if err == nil && o.AddPart(p) == nil {
						ctx.Fail("%s: part %d is taken for part %d", what, i, j)
						return
					}
				}
				p, err := consensus.NewPart(ps.GetPart(i).Bytes())
				if err != nil || o.AddPart(p) != nil {
					ctx.Fail("%s: part %d is not taken: %v", what, i, err)
					return
				}
			}
			b, err := io.ReadAll(o.NewReader())
			if err != nil || !o.IsComplete() || !bytes.Equal(b, data) {
				ctx.Fail("%s: it is put together to another: %v", what, err)
			}
		}
	})
	ctx.NewState(what)
}
