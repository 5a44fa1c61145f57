// Package logs runs the real log files of the consensus on a disk which crashes.
package logs

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/icon-project/goloop/consensus"

	"vgo/mc"
	"vgo/mctime"
)

// Op is W a record of n bytes, S sync, R rotation, H housekeeping.
type Op struct {
	K byte
	N int
}

func (o Op) String() string {
	if o.K == 'W' {
		return fmt.Sprintf("write %d", o.N)
	}
	return map[byte]string{'S': "sync", 'R': "next file", 'H': "clean up"}[o.K]
}

// Conf are the limits of a log, and the number of its first file.
type Conf struct {
	File, Total int64
	First       int
}

func record(i, n int) []byte {
	b := make([]byte, n)
	for k := range b {
		b[k] = byte(i*37 + k*11 + 5)
	}
	return b
}

// Img is what is on a disk: the files of a log by number.
type Img map[int][]byte

func (m Img) nums() (l []int) {
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return
}

func (m Img) clone() Img {
	n := Img{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// Box is a folder with a log.
type Box struct {
	dir  string
	seen map[string]bool
}

// NewBox makes a folder.
func NewBox() *Box {
	base := ""
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm"
	}
	d, err := os.MkdirTemp(base, "vgolog")
	mc.Must(err)
	return &Box{d, map[string]bool{}}
}

// Done removes it.
func (b *Box) Done() {
	b.clear()
	os.Remove(b.dir)
}

func (b *Box) id() string { return filepath.Join(b.dir, "lock") }

func (b *Box) clear() {
	l, _ := os.ReadDir(b.dir)
	for _, e := range l {
		os.Remove(filepath.Join(b.dir, e.Name()))
	}
}

// Put makes the folder hold an image.
func (b *Box) Put(m Img) {
	b.clear()
	for k, v := range m {
		mc.Must(os.WriteFile(fmt.Sprintf("%s_%d", b.id(), k), v, 0600))
	}
}

// Get takes the image of a folder.
func (b *Box) Get() Img {
	m := Img{}
	l, err := os.ReadDir(b.dir)
	mc.Must(err)
	for _, e := range l {
		i := strings.LastIndexByte(e.Name(), '_')
		n, err := strconv.Atoi(e.Name()[i+1:])
		mc.Must(err)
		v, err := os.ReadFile(filepath.Join(b.dir, e.Name()))
		mc.Must(err)
		m[n] = v
	}
	return m
}

// used tells how much memory was ever allocated.
func used() uint64 {
	m := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(m)
	return m[0].Value.Uint64()
}

// read is what the engine does when it starts.
func (b *Box) read() (recs [][]byte, damaged bool, err error) {
	was := used()
	defer func() {
		if n := used() - was; err == nil && n > 1<<26 {
			err = fmt.Errorf("takes %d MB of memory to read", n>>20)
		}
	}()
	r, err := consensus.OpenWALForRead(b.id())
	if err != nil {
		if consensus.IsNotExist(err) {
			return nil, false, nil
		}
		return nil, false, fmt.Errorf("can not be opened: %w", err)
	}
	for {
		x, err := r.ReadBytes()
		if consensus.IsEOF(err) {
			return recs, damaged, r.Close()
		}
		if consensus.IsCorruptedWAL(err) || consensus.IsUnexpectedEOF(err) {
			if err := r.CloseAndRepair(); err != nil {
				return recs, true, fmt.Errorf("can not be repaired: %w", err)
			}
			return recs, true, r.Close()
		}
		if err != nil {
			r.Close()
			return recs, damaged, err
		}
		recs = append(recs, x)
		if len(recs) > 1000 {
			return recs, damaged, errors.New("never ends")
		}
	}
}

type writer interface {
	consensus.WALWriter
	Shift() error
}

func (b *Box) open(c Conf) (consensus.WALWriter, chan time.Time, error) {
	mctime.Tickers = nil
	w, err := consensus.OpenWALForWrite(b.id(), &consensus.WALConfig{FileLimit: c.File, TotalLimit: c.Total, HousekeepingInterval: time.Hour * 1000, SyncInterval: time.Hour * 1000})
	if err != nil {
		return nil, nil, err
	}
	var t chan time.Time
	if len(mctime.Tickers) > 0 {
		t = mctime.Tickers[len(mctime.Tickers)-1]
	}
	return w, t, nil
}

// ping has the log cleaned up.
func ping(t chan time.Time) {
	for i := 0; i < 3; i++ { // when it takes the last it is done with those before
		t <- time.Time{}
	}
	for !idle() {
		runtime.Gosched()
	}
}

// idle tells whether all other goroutines wait for something.
func idle() bool {
	buf := make([]byte, 1<<16)
	l := bytes.Split(buf[:runtime.Stack(buf, true)], []byte("\n\n"))
	for _, g := range l[1:] {
		i, j := bytes.IndexByte(g, '['), bytes.IndexAny(g, ",]")
		if i < 0 || j < i {
			return false
		}
		switch string(g[i+1 : j]) {
		case "select", "chan receive", "sleep", "IO wait", "finalizer wait":
		default:
			return false
		}
	}
	return true
}

// Hist is what was done to a log.
type Hist struct {
	recs    [][]byte
	synced  int         // records which are durable
	size    map[int]int // durable bytes of each file
	disk    Img         // what is in the files when all is written, though not all of it is durable
	biggest int64
}

// Run does operations on a log.
func (b *Box) Run(c Conf, ops []Op) (*Hist, error) {
	b.clear()
	if c.First > 0 {
		b.Put(Img{c.First: nil})
	}
	h := &Hist{size: map[int]int{}}
	cur := int64(0) // bytes of the file which is written
	w, t, err := b.open(c)
	if err != nil {
		return nil, err
	}
	durable := func() {
		h.synced = len(h.recs)
		h.size = map[int]int{}
		for k, v := range b.Get() {
			h.size[k] = len(v)
		}
	}
	for _, o := range ops {
		switch o.K {
		case 'W':
			r := record(len(h.recs), o.N)
			h.recs = append(h.recs, r)
			cur += int64(8 + o.N)
			if cur > h.biggest {
				h.biggest = cur
			}
			_, err = w.WriteBytes(r)
		case 'S':
			if err = w.Sync(); err == nil {
				durable()
			}
		case 'R':
			if s, ok := w.(writer); ok {
				if err = s.Shift(); err == nil {
					cur = 0
					durable()
				}
			}
		case 'H':
			if t != nil {
				before := b.Get()
				ping(t)
				after := b.Get()
				for k := range after {
					if _, ok := before[k]; !ok {
						durable() // it began a new file
						cur = 0
						break
					}
				}
				for k := range h.size {
					if _, ok := after[k]; !ok {
						delete(h.size, k)
					}
				}
			}
		}
		if err != nil {
			w.Close()
			return h, fmt.Errorf("%v: %w", o, err)
		}
	}
	n := h.synced
	sizes := h.size
	if err := w.Sync(); err != nil {
		return h, err
	}
	h.disk = b.Get()
	h.synced, h.size = n, sizes
	return h, w.Close()
}

// old tells whether operations led to what was seen before.
func (b *Box) old(c Conf, h *Hist, from int) bool {
	k := fmt.Sprint(c, h.synced, h.size, from, h.disk.nums(), ":")
	for _, n := range h.disk.nums() {
		k += fmt.Sprintf("%x/", h.disk[n])
	}
	for _, r := range h.recs {
		k += fmt.Sprint(len(r), " ")
	}
	if b.seen[k] {
		return true
	}
	b.seen[k] = true
	return false
}

// lost tells how many records at the begin are gone with the old files.
func (h *Hist) lost(c Conf, m Img) int {
	l := m.nums()
	if len(l) == 0 || l[0] <= c.First {
		return 0
	}
	// the first record of the first file
	first := m[l[0]]
	for _, k := range l {
		if len(m[k]) >= 8 {
			first = m[k]
			break
		}
	}
	for i, r := range h.recs {
		if len(first) >= 8+len(r) && bytes.Equal(first[8:8+len(r)], r) && int(first[4])<<24|int(first[5])<<16|int(first[6])<<8|int(first[7]) == len(r) {
			return i
		}
	}
	return len(h.recs)
}

// same tells whether records are those written, from one on.
func (h *Hist) same(got [][]byte, from int) error {
	if from+len(got) > len(h.recs) {
		return fmt.Errorf("%d records instead of at most %d", len(got), len(h.recs)-from)
	}
	for i, r := range got {
		if !bytes.Equal(r, h.recs[from+i]) {
			return fmt.Errorf("record %d of %d bytes comes back as another of %d bytes", from+i, len(h.recs[from+i]), len(r))
		}
	}
	return nil
}

// recovers checks that a log is read, and goes on to be used.
func (b *Box) recovers(ctx *mc.Ctx, what string, c Conf, h *Hist, m Img, from, least int, deep int) {
	ctx.Case("%s", what)
	ctx.Trans(1)
	b.Put(m)
	got, damaged, err := b.read()
	if err != nil {
		ctx.Fail("%s: the log %v", what, err)
		return
	}
	ctx.Outcome(fmt.Sprint("damaged ", damaged))
	if err := h.same(got, from); err != nil {
		ctx.Fail("%s: %v", what, err)
		return
	}
	if from+len(got) < least {
		ctx.Fail("%s: only %d of %d durable records are found", what, len(got), least-from)
		return
	}
	b.goesOn(ctx, what, c, h, from, got, deep > 1)
	if damaged && deep > 0 {
		b.crashInRepair(ctx, what, c, h, m, from, least)
	}
}

// goesOn writes more records and reads all.
func (b *Box) goesOn(ctx *mc.Ctx, what string, c Conf, h *Hist, from int, got [][]byte, deep bool) {
	w, _, err := b.open(c)
	if err != nil {
		ctx.Fail("%s: it can not be written again: %v", what, err)
		return
	}
	all := append([][]byte(nil), got...)
	var before Img
	for i := 0; i < 2; i++ {
		r := record(100+i, 5+i)
		all = append(all, r)
		if _, err := w.WriteBytes(r); err != nil {
			ctx.Fail("%s: write: %v", what, err)
		}
		if err := w.Sync(); err != nil {
			ctx.Fail("%s: sync: %v", what, err)
		}
		if i == 0 {
			before = b.Get()
		}
	}
	if err := w.Close(); err != nil {
		ctx.Fail("%s: close: %v", what, err)
	}
	next := &Hist{recs: all}
	after := b.Get()
	again, damaged, err := b.read()
	if err == nil {
		err = next.same(again, 0)
	}
	if err != nil || damaged || len(again) != len(all) {
		ctx.Fail("%s: the start found %d records, then 2 were written and made durable, and the next start finds %d records: damaged %v %v", what, len(got), len(again), damaged, err)
		return
	}
	if !deep {
		return
	}
	// a second crash in the last record
	l := after.nums()
	k := l[len(l)-1]
	for n := len(before[k]); n < len(after[k]); n++ {
		ctx.Trans(1)
		m := after.clone()
		m[k] = after[k][:n]
		b.Put(m)
		again, _, err := b.read()
		if err == nil {
			err = next.same(again, 0)
		}
		if err != nil || len(again) != len(all)-1 {
			ctx.Fail("%s: after a second crash, %d bytes into the record after it: %d records instead of %d: %v", what, n-len(before[k]), len(again), len(all)-1, err)
			return
		}
	}
}

// crashInRepair checks that a crash within the repair does no harm.
func (b *Box) crashInRepair(ctx *mc.Ctx, what string, c Conf, h *Hist, m Img, from, least int) {
	for n := 0; n < 20; n++ {
		b.Put(m)
		mctime.Left = n
		whole := true
		func() {
			defer func() {
				mctime.Left = -1
				if e := recover(); e != nil {
					if !mctime.Crashed(e) {
						panic(e)
					}
					whole = false
				}
			}()
			b.read()
		}()
		if whole {
			return
		}
		ctx.Trans(1)
		w := fmt.Sprintf("%s, then a crash after %d changes of the repair", what, n)
		got, _, err := b.read()
		if err == nil {
			err = h.same(got, from)
		}
		if err == nil && from+len(got) < least {
			err = fmt.Errorf("only %d of %d durable records are found", len(got), least-from)
		}
		if err != nil {
			ctx.Fail("%s: %v", w, err)
			return
		}
		b.goesOn(ctx, w, c, h, from, got, false)
	}
}

// Crashes checks all ends a sequence of operations may have on the disk.
func (b *Box) Crashes(ctx *mc.Ctx, c Conf, ops []Op, every int) {
	what := fmt.Sprintf("%v", ops)
	ctx.Case("%s", what)
	h, err := b.Run(c, ops)
	if err != nil {
		ctx.Fail("%s: %v", what, err)
		return
	}
	from := h.lost(c, h.disk)
	// what is kept: not less than the limit, but for a file which goes as a whole
	kept, sum := int64(0), int64(0)
	for i, r := range h.recs {
		sum += int64(8 + len(r))
		if i >= from {
			kept += int64(8 + len(r))
		}
	}
	if kept < sum && kept < c.Total-h.biggest {
		ctx.Fail("%s: only the last %d bytes are kept, of %d which should be", what, kept, c.Total)
	}
	l := h.disk.nums()
	if len(l) == 0 || b.old(c, h, from) {
		return
	}
	ctx.NewState(fmt.Sprint(c, l, len(h.recs), h.synced, len(h.disk[l[len(l)-1]])))
	least := h.synced
	if from > least {
		least = from
	}
	deep := 2
	if every > 1 {
		deep = 0
	}
	k := l[len(l)-1]
	full := h.disk[k]
	dur := h.size[k]
	for n := len(full); n >= dur; n -= 1 {
		if every > 1 && n != dur && n != dur+8 && n != len(full) && n%every != 0 {
			continue
		}
		m := h.disk.clone()
		m[k] = full[:n]
		b.recovers(ctx, fmt.Sprintf("%s, crash with %d of %d bytes of file %d on the disk, of which %d are durable", what, n, len(full), k, dur), c, h, m, from, least, deep)
		if n < len(full) {
			m[k] = append(append([]byte(nil), full[:n]...), make([]byte, len(full)-n)...)
			b.recovers(ctx, fmt.Sprintf("%s, crash with %d of %d bytes of file %d on the disk, then zeros", what, n, len(full), k), c, h, m, from, least, deep)
			x := append([]byte(nil), full...)
			x[n] ^= 0x5a
			m[k] = x
			b.recovers(ctx, fmt.Sprintf("%s, crash with byte %d of file %d wrong", what, n, k), c, h, m, from, least, 0)
		}
	}
	if dur == 0 && len(l) > 1 {
		m := h.disk.clone()
		delete(m, k)
		b.recovers(ctx, fmt.Sprintf("%s, crash before file %d is there", what, k), c, h, m, from, least, deep)
	}
}

// Rot checks that a wrong byte anywhere costs only what comes after it.
func (b *Box) Rot(ctx *mc.Ctx, c Conf, ops []Op) {
	what := fmt.Sprintf("%v", ops)
	h, err := b.Run(c, ops)
	if err != nil {
		ctx.Fail("%s: %v", what, err)
		return
	}
	from := h.lost(c, h.disk)
	h.synced = len(h.recs)
	h.size = nil
	if b.old(c, h, from) {
		return
	}
	at := from
	for _, k := range h.disk.nums() {
		full := h.disk[k]
		off := 0
		for off < len(full) {
			n := 8 + len(h.recs[at])
			for i := 0; i < n; i++ {
				for _, x := range []byte{1, 0x80, 0xff} {
					m := h.disk.clone()
					m[k] = append([]byte(nil), full...)
					m[k][off+i] ^= x
					b.recovers(ctx, fmt.Sprintf("%s, byte %d of record %d in file %d ^ %x", what, i, at, k, x), c, h, m, from, at, int(x&1)*int(x>>1&1^1))
				}
			}
			// the last file ends here
			for i := 0; i < n; i++ {
				m := h.disk.clone()
				m[k] = append([]byte(nil), full[:off+i]...)
				if i > 0 && k == h.disk.nums()[len(h.disk)-1] {
					b.recovers(ctx, fmt.Sprintf("%s, file %d ends %d bytes into record %d", what, k, i, at), c, h, m, from, at, 1)
				}
			}
			off += n
			at++
		}
	}
	ctx.NewState(what)
}

// Seqs gives all sequences of operations up to a length.
func Seqs(ops []Op, n int, f func([]Op)) {
	var rec func(p []Op)
	rec = func(p []Op) {
		if len(p) > 0 {
			f(p)
		}
		if len(p) == n {
			return
		}
		for _, o := range ops {
			rec(append(p[:len(p):len(p)], o))
		}
	}
	rec(nil)
}

// Reset checks the log which a node starts with.
func Reset(ctx *mc.Ctx) {
	b := NewBox()
	defer b.Done()
	for _, n := range []int{1, 100, 5000, 600000} {
		ctx.Case("start with a list of votes of %d bytes", n)
		ctx.Trans(1)
		d := filepath.Join(b.dir, "wal")
		for i := 0; i < 2; i++ {
			mc.Must(consensus.ResetWAL(7, d, record(1, n)))
		}
		r, err := consensus.OpenWALForRead(filepath.Join(d, "commit"))
		if err != nil {
			ctx.Fail("%v", err)
			continue
		}
		x, err := r.ReadBytes()
		_, end := r.ReadBytes()
		if err != nil || !bytes.Equal(x, record(1, n)) || !errors.Is(end, io.EOF) {
			ctx.Fail("a log which starts with %d bytes has %d bytes: %v, %v", n, len(x), err, end)
		}
		r.Close()
		mc.Must(consensus.ResetWAL(7, d, nil))
		if _, err := os.Stat(d); err == nil {
			ctx.Fail("the log is there after it was removed")
		}
	}
}
