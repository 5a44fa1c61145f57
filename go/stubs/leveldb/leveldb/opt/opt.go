package opt

type Options struct{}
type ReadOptions struct{}
type WriteOptions struct{}
