package cons

import (
	"encoding/binary"
	"hash"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"
)

// what is not part of the state of the engine
var skips = []string{
	"github.com/icon-project/goloop/common/log", "github.com/icon-project/goloop/common/metric",
	"github.com/icon-project/goloop/common/trie", "github.com/icon-project/goloop/common/db",
	"github.com/icon-project/goloop/consensus/fastsync",
	"github.com/icon-project/goloop/service", "github.com/icon-project/goloop/btp", "github.com/icon-project/goloop/common/wallet",
	"sync", "context", "time", "math/rand", "vgo/", "go.opencensus.io", "github.com/go-kit", "github.com/sirupsen",
}

type hasher struct {
	h     hash.Hash
	seen  map[uintptr]bool
	depth int
}

func (h *hasher) num(n uint64) {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], n)
	h.h.Write(b[:])
}

func (h *hasher) str(s string) { h.num(uint64(len(s))); h.h.Write([]byte(s)) }

var skipped = map[reflect.Type]int8{}

func skip(t reflect.Type) bool {
	if v, ok := skipped[t]; ok {
		return v == 1
	}
	e := t
	for e.Kind() == reflect.Ptr {
		e = e.Elem()
	}
	r := int8(0)
	for _, p := range skips {
		if strings.HasPrefix(e.PkgPath(), p) && e.PkgPath() != "" {
			r = 1
		}
	}
	skipped[t] = r
	return r == 1
}

func (h *hasher) value(v reflect.Value) {
	if !v.IsValid() {
		h.num(0)
		return
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			h.num(1)
		} else {
			h.num(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if skip(t) {
			return
		}
		h.num(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		h.num(v.Uint())
	case reflect.String:
		h.str(v.String())
	case reflect.Ptr:
		if v.IsNil() {
			h.num(3)
			return
		}
		if t == reflect.TypeOf((*Blk)(nil)) {
			h.str(v.Elem().FieldByName("Name").String())
			return
		}
		if skip(t) {
			h.num(4)
			return
		}
		if h.seen[v.Pointer()] {
			h.num(5)
			return
		}
		h.seen[v.Pointer()] = true
		h.value(v.Elem())
		delete(h.seen, v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			h.num(3)
			return
		}
		h.value(v.Elem())
	case reflect.Struct:
		if skip(t) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			h.num(uint64(i))
			h.value(v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			h.num(3)
			return
		}
		h.num(uint64(v.Len()))
		if t.Elem().Kind() == reflect.Uint8 {
			h.h.Write(v.Bytes())
			return
		}
		for i := 0; i < v.Len(); i++ {
			h.value(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h.value(v.Index(i))
		}
	case reflect.Map:
		var l []string
		for it := v.MapRange(); it.Next(); {
			s := &hasher{h: fnv.New128a(), seen: h.seen}
			s.value(it.Key())
			s.value(it.Value())
			l = append(l, string(s.h.Sum(nil)))
		}
		sort.Strings(l)
		for _, x := range l {
			h.h.Write([]byte(x))
		}
		h.num(uint64(len(l)))
	default: // functions and channels
		if v.IsNil() {
			h.num(3)
		} else {
			h.num(6)
		}
	}
}

// State identifies what the node is: engine, disk, what it waits for.
func (n *Node) State(more ...any) [2]uint64 {
	h := &hasher{h: fnv.New128a(), seen: map[uintptr]bool{}}
	h.value(reflect.ValueOf(n.cs))
	ids := make([]string, 0, 4)
	for k := range n.disk.wal {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, k := range ids {
		h.str(k)
		h.num(uint64(n.disk.synced[k]))
		for _, b := range n.disk.wal[k] {
			h.str(string(b))
		}
	}
	for _, b := range n.disk.blocks {
		h.str(b.Name)
	}
	for _, p := range n.pend {
		if !p.done && !p.cancelled {
			h.str(p.b.Name)
			if p.flying {
				h.num(7)
			}
		}
	}
	for _, d := range n.Clock.Set(n.Me) {
		h.num(uint64(d))
	}
	h.num(uint64(n.proposals))
	for _, m := range more {
		h.value(reflect.ValueOf(m))
	}
	b := h.h.Sum(nil)
	return [2]uint64{binary.BigEndian.Uint64(b), binary.BigEndian.Uint64(b[8:])}
}
