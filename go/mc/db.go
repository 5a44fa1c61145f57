package mc

import (
	"errors"
	"sync"

	"github.com/icon-project/goloop/common/db"
)

// DB is a database in memory which logs its writes, fails on request and can be cut after any write.
type DB struct {
	mu     sync.Mutex
	m      map[string]string
	Log    [][2]string
	NoLog  bool
	Writes int
	FailAt int // fails the write with this number (from 1), once
	Reads  int
	FailRd int // fails the read with this number, once
}

var ErrFault = errors.New("injected fault")

func NewDB() *DB { return &DB{m: map[string]string{}} }

func (d *DB) GetBucket(id db.BucketID) (db.Bucket, error) {
	return &bucket{d, string(id) + "\x00"}, nil
}
func (d *DB) Close() error { return nil }
func (d *DB) Len() int     { return len(d.m) }

func (d *DB) Copy() *DB {
	d.mu.Lock()
	defer d.mu.Unlock()
	n := NewDB()
	for k, v := range d.m {
		n.m[k] = v
	}
	return n
}

const gone = "\x00gone"

// Cut returns the database as it is after the first n logged writes, starting from base.
func (d *DB) Cut(base *DB, n int) *DB {
	r := NewDB()
	if base != nil {
		r = base.Copy()
	}
	for _, w := range d.Log[:n] {
		if w[1] == gone {
			delete(r.m, w[0])
		} else {
			r.m[w[0]] = w[1]
		}
	}
	return r
}

// Logged is the number of logged writes.
func (d *DB) Logged() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.Log)
}

// Part gives logged writes.
func (d *DB) Part(from, to int) [][2]string {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([][2]string(nil), d.Log[from:to]...)
}

// Apply makes writes.
func (d *DB) Apply(l [][2]string) {
	for _, w := range l {
		if w[1] == gone {
			delete(d.m, w[0])
		} else {
			d.m[w[0]] = w[1]
		}
	}
}

// Has tells whether a bucket has the key.
func (d *DB) Has(id db.BucketID, key []byte) bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	_, ok := d.m[string(id)+"\x00"+string(key)]
	return ok
}

// Each visits the entries of a bucket.
func (d *DB) Each(id db.BucketID, f func(k, v []byte)) {
	d.mu.Lock()
	defer d.mu.Unlock()
	p := string(id) + "\x00"
	for k, v := range d.m {
		if len(k) >= len(p) && k[:len(p)] == p {
			f([]byte(k[len(p):]), []byte(v))
		}
	}
}

type bucket struct {
	d *DB
	p string
}

func (b *bucket) read() error {
	b.d.Reads++
	if b.d.FailRd != 0 && b.d.Reads == b.d.FailRd {
		b.d.FailRd = 0
		return ErrFault
	}
	return nil
}
func (b *bucket) Get(k []byte) ([]byte, error) {
	b.d.mu.Lock()
	defer b.d.mu.Unlock()
	if err := b.read(); err != nil {
		return nil, err
	}
	if v, ok := b.d.m[b.p+string(k)]; ok {
		return []byte(v), nil
	}
	return nil, nil
}
func (b *bucket) Has(k []byte) (bool, error) {
	b.d.mu.Lock()
	defer b.d.mu.Unlock()
	if err := b.read(); err != nil {
		return false, err
	}
	_, ok := b.d.m[b.p+string(k)]
	return ok, nil
}
func (b *bucket) write() error {
	b.d.Writes++
	if b.d.FailAt != 0 && b.d.Writes == b.d.FailAt {
		b.d.FailAt = 0
		return ErrFault
	}
	return nil
}
func (b *bucket) Set(k, v []byte) error {
	b.d.mu.Lock()
	defer b.d.mu.Unlock()
	if err := b.write(); err != nil {
		return err
	}
	if !b.d.NoLog {
		b.d.Log = append(b.d.Log, [2]string{b.p + string(k), string(v)})
	}
	b.d.m[b.p+string(k)] = string(v)
	return nil
}
func (b *bucket) Delete(k []byte) error {
	b.d.mu.Lock()
	defer b.d.mu.Unlock()
	if err := b.write(); err != nil {
		return err
	}
	if !b.d.NoLog {
		b.d.Log = append(b.d.Log, [2]string{b.p + string(k), gone})
	}
	delete(b.d.m, b.p+string(k))
	return nil
}
