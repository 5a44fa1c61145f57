// Package leveldb is a stand-in: databases live in memory, by path.
package leveldb

import (
	"errors"
	"sync"

	"github.com/syndtr/goleveldb/leveldb/opt"
)

var (
	ErrNotFound = errors.New("leveldb: not found")
	ErrClosed   = errors.New("leveldb: closed")
)
var (
	lock sync.Mutex
	all  = map[string]map[string][]byte{}
)

type DB struct {
	m      map[string][]byte
	closed bool
}

func OpenFile(path string, o *opt.Options) (*DB, error) {
	lock.Lock()
	defer lock.Unlock()
	m := all[path]
	if m == nil {
		m = map[string][]byte{}
		all[path] = m
	}
	return &DB{m: m}, nil
}
func RecoverFile(path string, o *opt.Options) (*DB, error) { return OpenFile(path, o) }
func (d *DB) Close() error {
	lock.Lock()
	defer lock.Unlock()
	if d.closed {
		return ErrClosed
	}
	d.closed = true
	return nil
}
func (d *DB) Get(k []byte, _ *opt.ReadOptions) ([]byte, error) {
	lock.Lock()
	defer lock.Unlock()
	if d.closed {
		return nil, ErrClosed
	}
	v, ok := d.m[string(k)]
	if !ok {
		return nil, ErrNotFound
	}
	return append([]byte{}, v...), nil
}
func (d *DB) Has(k []byte, _ *opt.ReadOptions) (bool, error) {
	lock.Lock()
	defer lock.Unlock()
	if d.closed {
		return false, ErrClosed
	}
	_, ok := d.m[string(k)]
	return ok, nil
}
func (d *DB) Put(k, v []byte, _ *opt.WriteOptions) error {
	lock.Lock()
	defer lock.Unlock()
	if d.closed {
		return ErrClosed
	}
	d.m[string(k)] = append([]byte{}, v...)
	return nil
}
func (d *DB) Delete(k []byte, _ *opt.WriteOptions) error {
	lock.Lock()
	defer lock.Unlock()
	if d.closed {
		return ErrClosed
	}
	delete(d.m, string(k))
	return nil
}
