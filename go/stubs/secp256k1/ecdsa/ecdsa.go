// Package ecdsa is a stand-in for the package of the same name of decred.
package ecdsa

import (
	"crypto/sha256"
	"errors"
	"math/big"
	"sync"

	secp "github.com/decred/dcrd/dcrec/secp256k1/v4"
)

type Signature struct{ r, s *big.Int }

func NewSignature(r, s *secp.ModNScalar) *Signature { return &Signature{r.V, s.V} }

func scalar(hash []byte) *big.Int {
	if len(hash) > 32 {
		hash = hash[:32]
	}
	v := new(big.Int).SetBytes(hash)
	return v.Mod(v, secp.N)
}

// What was computed before is not computed again: both functions are deterministic.
var (
	mu        sync.Mutex
	signed    = map[[65]byte][65]byte{}
	recovered = map[[97]byte]*secp.PublicKey{}
)

const most = 1 << 17

func SignCompact(key *secp.PrivateKey, hash []byte, compressed bool) []byte {
	if len(hash) != 32 {
		return signCompact(key, hash, compressed)
	}
	var k [65]byte
	copy(k[:], secp.Pad(key.D))
	copy(k[32:], hash)
	if compressed {
		k[64] = 1
	}
	mu.Lock()
	v, ok := signed[k]
	mu.Unlock()
	if !ok {
		copy(v[:], signCompact(key, hash, compressed))
		mu.Lock()
		if len(signed) < most {
			signed[k] = v
			// the signature is of this key
			var r [97]byte
			copy(r[:], v[:])
			copy(r[65:], hash)
			p := key.PubKey()
			recovered[r] = p
			r[0] = (r[0]-27)^4 + 27
			recovered[r] = p
		}
		mu.Unlock()
	}
	return append([]byte(nil), v[:]...)
}

func RecoverCompact(sig, hash []byte) (*secp.PublicKey, bool, error) {
	if len(hash) != 32 || len(sig) != 65 {
		return recoverCompact(sig, hash)
	}
	var k [97]byte
	copy(k[:], sig)
	copy(k[65:], hash)
	mu.Lock()
	v, ok := recovered[k]
	mu.Unlock()
	if ok {
		return &secp.PublicKey{X: v.X, Y: v.Y}, (sig[0]-27)&4 != 0, nil
	}
	p, c, err := recoverCompact(sig, hash)
	if err == nil {
		mu.Lock()
		if len(recovered) < most {
			recovered[k] = p
		}
		mu.Unlock()
	}
	return p, c, err
}

// signCompact uses a deterministic nonce (not that of RFC 6979).
func signCompact(key *secp.PrivateKey, hash []byte, compressed bool) []byte {
	e := scalar(hash)
	for i := byte(0); ; i++ {
		h := sha256.Sum256(append(append(secp.Pad(key.D), secp.Pad(e)...), i))
		k := scalar(h[:])
		if k.Sign() == 0 {
			continue
		}
		x, y := secp.BaseMul(k).Affine()
		r := new(big.Int).Mod(x, secp.N)
		if r.Sign() == 0 {
			continue
		}
		s := new(big.Int).Mul(r, key.D)
		s.Add(s, e)
		s.Mul(s, new(big.Int).ModInverse(k, secp.N))
		s.Mod(s, secp.N)
		if s.Sign() == 0 {
			continue
		}
		v := byte(y.Bit(0))
		if x.Cmp(secp.N) >= 0 {
			v |= 2
		}
		if s.Cmp(new(big.Int).Rsh(secp.N, 1)) > 0 {
			s.Sub(secp.N, s)
			v ^= 1
		}
		v += 27
		if compressed {
			v += 4
		}
		return append(append([]byte{v}, secp.Pad(r)...), secp.Pad(s)...)
	}
}

func recoverCompact(sig, hash []byte) (*secp.PublicKey, bool, error) {
	if len(sig) != 65 || sig[0] < 27 || sig[0] > 34 {
		return nil, false, errors.New("invalid compact signature")
	}
	c := (sig[0] - 27) & 4
	v := (sig[0] - 27) & 3
	r, s := new(big.Int).SetBytes(sig[1:33]), new(big.Int).SetBytes(sig[33:])
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(secp.N) >= 0 || s.Cmp(secp.N) >= 0 {
		return nil, false, errors.New("invalid signature: R or S")
	}
	x := new(big.Int).Set(r)
	if v&2 != 0 {
		x.Add(x, secp.N)
	}
	if x.Cmp(secp.P) >= 0 {
		return nil, false, errors.New("invalid signature: not a field element")
	}
	y := secp.Lift(x, v&1 == 1)
	if y == nil {
		return nil, false, errors.New("invalid signature: not for a valid curve point")
	}
	ri := new(big.Int).ModInverse(r, secp.N)
	u2 := new(big.Int).Mul(s, ri)
	u2.Mod(u2, secp.N)
	u1 := new(big.Int).Mul(scalar(hash), ri)
	u1.Neg(u1).Mod(u1, secp.N)
	q := secp.BaseMul(u1).Add(secp.Affine(x, y).Mul(u2))
	if q.IsInfinity() {
		return nil, false, errors.New("recovered pubkey is the point at infinity")
	}
	qx, qy := q.Affine()
	return &secp.PublicKey{X: qx, Y: qy}, c != 0, nil
}

func (sig *Signature) Verify(hash []byte, key *secp.PublicKey) bool {
	if sig.r.Sign() == 0 || sig.s.Sign() == 0 {
		return false
	}
	w := new(big.Int).ModInverse(sig.s, secp.N)
	u1 := new(big.Int).Mul(scalar(hash), w)
	u2 := new(big.Int).Mul(sig.r, w)
	p := secp.BaseMul(u1.Mod(u1, secp.N)).Add(secp.Affine(key.X, key.Y).Mul(u2.Mod(u2, secp.N)))
	if p.IsInfinity() {
		return false
	}
	x, _ := p.Affine()
	return x.Mod(x, secp.N).Cmp(sig.r) == 0
}
