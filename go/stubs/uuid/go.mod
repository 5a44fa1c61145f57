module github.com/gofrs/uuid

go 1.20
