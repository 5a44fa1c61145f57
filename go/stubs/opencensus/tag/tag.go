package tag

import "context"

type Key struct{ name string }

func NewKey(n string) (Key, error) { return Key{n}, nil }
func MustNewKey(n string) Key      { return Key{n} }
func (k Key) Name() string         { return k.name }

type Map struct{ m map[Key]string }
type Mutator interface{ Mutate(*Map) (*Map, error) }
type mut struct {
	k Key
	v string
}

func (x mut) Mutate(m *Map) (*Map, error) { m.m[x.k] = x.v; return m, nil }
func Upsert(k Key, v string) Mutator      { return mut{k, v} }

type ck struct{}

func FromContext(ctx context.Context) *Map {
	m, _ := ctx.Value(ck{}).(*Map)
	if m == nil {
		m = &Map{}
	}
	return m
}
func (m *Map) Value(k Key) (string, bool) { v, ok := m.m[k]; return v, ok }
func New(ctx context.Context, ms ...Mutator) (context.Context, error) {
	n := &Map{map[Key]string{}}
	for k, v := range FromContext(ctx).m {
		n.m[k] = v
	}
	for _, m := range ms {
		n, _ = m.Mutate(n)
	}
	return context.WithValue(ctx, ck{}, n), nil
}

type Tag struct {
	Key   Key
	Value string
}
