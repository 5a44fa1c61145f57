module github.com/decred/dcrd/dcrec/secp256k1/v4

go 1.20
