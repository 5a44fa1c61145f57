module github.com/vmihailenco/msgpack/v4

go 1.20
