package logs

import (
	"bytes"
	"fmt"

	"vgo/mc"
)

func fail(f string, a ...any) { mc.Demo().Fail(f, a...) }

func all(b *Box, want [][]byte, what string) {
	got, _, err := b.read()
	if err != nil || len(got) != len(want) {
		fail("%s: %d records instead of %d: %v", what, len(got), len(want), err)
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			fail("%s: record %d is another", what, i)
		}
	}
}

func (b *Box) write(c Conf, recs [][]byte) {
	w, _, err := b.open(c)
	if err != nil {
		fail("open: %v", err)
	}
	for _, r := range recs {
		w.WriteBytes(r)
		if err := w.Sync(); err != nil {
			fail("sync: %v", err)
		}
	}
	w.Close()
}

func records(sizes []int) (l [][]byte) {
	for i, n := range sizes {
		l = append(l, record(i, n))
	}
	return
}

var wide = Conf{1 << 30, 1 << 31, 0}

// Again writes records, cuts the file, starts, writes on and starts again.
func Again(sizes []int, cut int) {
	b := NewBox()
	defer b.Done()
	r := records(sizes)
	b.write(wide, r)
	m := b.Get()
	m[0] = m[0][:cut]
	b.Put(m)
	var want [][]byte
	off := 0
	for _, x := range r {
		if off += 8 + len(x); off <= cut {
			want = append(want, x)
		}
	}
	all(b, want, fmt.Sprintf("cut to %d bytes", cut))
	more := [][]byte{record(50, 7), record(51, 30)}
	b.write(wide, more)
	all(b, append(want, more...), fmt.Sprintf("cut to %d bytes and written on", cut))
}

// Zeros writes records, and has zeros from a byte of the last.
func Zeros(sizes []int, at int) {
	b := NewBox()
	defer b.Done()
	r := records(sizes)
	b.write(wide, r)
	m := b.Get()
	n := len(m[0]) - sizes[len(sizes)-1] + at
	m[0] = append(append([]byte(nil), m[0][:n]...), make([]byte, len(m[0])-n)...)
	b.Put(m)
	all(b, r[:len(r)-1], "zeros in the last record")
}

// Shifted writes records, goes on to the next file, and crashes there.
func Shifted(sizes []int) {
	b := NewBox()
	defer b.Done()
	r := records(sizes)
	w, _, err := b.open(wide)
	if err != nil {
		fail("open: %v", err)
	}
	for _, x := range r {
		w.WriteBytes(x)
	}
	if err := w.(writer).Shift(); err != nil {
		fail("next file: %v", err)
	}
	m := b.Get()
	w.Close()
	b.Put(m)
	all(b, r, "after the next file was begun")
}

// Kept writes files up to the limit.
func Kept(c Conf, size, n int) {
	b := NewBox()
	defer b.Done()
	w, t, err := b.open(c)
	if err != nil {
		fail("open: %v", err)
	}
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, record(i, size))
		w.WriteBytes(r[i])
		w.Sync()
		w.(writer).Shift()
	}
	ping(t)
	w.Close()
	all(b, r, "after cleaning up")
}

// Files writes a record to each of n files, with a start between.
func Files(n int) {
	b := NewBox()
	defer b.Done()
	w, _, err := b.open(wide)
	if err != nil {
		fail("open: %v", err)
	}
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, record(i, 5))
		w.WriteBytes(r[i])
		w.Sync()
		w.(writer).Shift()
	}
	w.Close()
	all(b, r, fmt.Sprintf("%d files", n))
}
