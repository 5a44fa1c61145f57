// Package secp256k1 is a stand-in, written with math/big, for the parts of
// decred/dcrd/dcrec/secp256k1/v4 which goloop uses.
package secp256k1

import (
	"crypto/rand"
	"errors"
	"math/big"
)

func hx(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

var (
	P  = hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	N  = hx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	Gx = hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	Gy = hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
)

// Point is a point in Jacobian coordinates, Z = 0 for infinity.
type Point struct{ X, Y, Z *big.Int }

func mod(v *big.Int) *big.Int { return v.Mod(v, P) }
func mul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
func Affine(x, y *big.Int) Point { return Point{x, y, big.NewInt(1)} }
func Infinity() Point            { return Point{big.NewInt(0), big.NewInt(1), big.NewInt(0)} }
func (p Point) IsInfinity() bool { return p.Z.Sign() == 0 }
func (p Point) Affine() (*big.Int, *big.Int) {
	zi := new(big.Int).ModInverse(p.Z, P)
	z2 := mul(zi, zi)
	return mul(p.X, z2), mul(p.Y, mul(z2, zi))
}
func (p Point) Double() Point {
	if p.IsInfinity() || p.Y.Sign() == 0 {
		return Infinity()
	}
	y2 := mul(p.Y, p.Y)
	s := mod(new(big.Int).Lsh(mul(p.X, y2), 2))
	x2 := mul(p.X, p.X)
	m := mod(new(big.Int).Add(new(big.Int).Lsh(x2, 1), x2))
	x := mod(new(big.Int).Sub(mul(m, m), new(big.Int).Lsh(s, 1)))
	y := mul(m, new(big.Int).Sub(s, x))
	y = mod(y.Sub(y, new(big.Int).Lsh(mul(y2, y2), 3)))
	return Point{x, y, mod(new(big.Int).Lsh(mul(p.Y, p.Z), 1))}
}
func (p Point) Add(q Point) Point {
	if p.IsInfinity() {
		return q
	}
	if q.IsInfinity() {
		return p
	}
	pz, qz := mul(p.Z, p.Z), mul(q.Z, q.Z)
	u1, u2 := mul(p.X, qz), mul(q.X, pz)
	s1, s2 := mul(p.Y, mul(qz, q.Z)), mul(q.Y, mul(pz, p.Z))
	if u1.Cmp(u2) == 0 {
		if s1.Cmp(s2) != 0 {
			return Infinity()
		}
		return p.Double()
	}
	h := mod(new(big.Int).Sub(u2, u1))
	r := mod(new(big.Int).Sub(s2, s1))
	h2 := mul(h, h)
	h3 := mul(h2, h)
	v := mul(u1, h2)
	x := mul(r, r)
	x = mod(x.Sub(x.Sub(x, h3), new(big.Int).Lsh(v, 1)))
	y := mul(r, new(big.Int).Sub(v, x))
	y = mod(y.Sub(y, mul(s1, h3)))
	return Point{x, y, mul(h, mul(p.Z, q.Z))}
}
func (p Point) Mul(k *big.Int) Point {
	r := Infinity()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Double()
		if k.Bit(i) == 1 {
			r = r.Add(p)
		}
	}
	return r
}

var gTable []Point

func init() {
	p := Affine(Gx, Gy)
	for i := 0; i < 256; i++ {
		gTable = append(gTable, p)
		p = p.Double()
	}
}
func BaseMul(k *big.Int) Point {
	r := Infinity()
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = r.Add(gTable[i])
		}
	}
	return r
}

// Lift returns y for x with the oddness, or nil.
func Lift(x *big.Int, odd bool) *big.Int {
	y2 := mul(x, mul(x, x))
	y2 = mod(y2.Add(y2, big.NewInt(7)))
	y := new(big.Int).ModSqrt(y2, P)
	if y == nil {
		return nil
	}
	if (y.Bit(0) == 1) != odd {
		y.Sub(P, y)
	}
	return y
}

func Pad(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

type ModNScalar struct{ V *big.Int }

func (s *ModNScalar) SetByteSlice(b []byte) bool {
	if len(b) > 32 {
		b = b[:32]
	}
	v := new(big.Int).SetBytes(b)
	over := v.Cmp(N) >= 0
	s.V = v.Mod(v, N)
	return over
}

type PrivateKey struct{ D *big.Int }

func PrivKeyFromBytes(b []byte) *PrivateKey {
	var s ModNScalar
	s.SetByteSlice(b)
	return &PrivateKey{s.V}
}
func GeneratePrivateKey() (*PrivateKey, error) {
	b := make([]byte, 32)
	if _, err := rand.Read(b); err != nil {
		return nil, err
	}
	return PrivKeyFromBytes(b), nil
}
func (k *PrivateKey) Serialize() []byte { return Pad(k.D) }
func (k *PrivateKey) PubKey() *PublicKey {
	x, y := BaseMul(k.D).Affine()
	return &PublicKey{x, y}
}

type PublicKey struct{ X, Y *big.Int }

func ParsePubKey(b []byte) (*PublicKey, error) {
	switch {
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		x := new(big.Int).SetBytes(b[1:])
		if x.Cmp(P) >= 0 {
			return nil, errors.New("invalid public key: x >= field prime")
		}
		y := Lift(x, b[0] == 3)
		if y == nil {
			return nil, errors.New("invalid public key: not on the curve")
		}
		return &PublicKey{x, y}, nil
	case len(b) == 65 && (b[0] == 4 || b[0] == 6 || b[0] == 7):
		x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
		if x.Cmp(P) >= 0 || y.Cmp(P) >= 0 {
			return nil, errors.New("invalid public key: not a field element")
		}
		if b[0] != 4 && (y.Bit(0) == 1) != (b[0] == 7) {
			return nil, errors.New("invalid public key: oddness")
		}
		l := Lift(x, y.Bit(0) == 1)
		if l == nil || l.Cmp(y) != 0 {
			return nil, errors.New("invalid public key: not on the curve")
		}
		return &PublicKey{x, y}, nil
	}
	return nil, errors.New("malformed public key")
}
func (k *PublicKey) SerializeCompressed() []byte {
	return append([]byte{2 | byte(k.Y.Bit(0))}, Pad(k.X)...)
}
func (k *PublicKey) SerializeUncompressed() []byte {
	return append(append([]byte{4}, Pad(k.X)...), Pad(k.Y)...)
}
func (k *PublicKey) IsEqual(o *PublicKey) bool { return k.X.Cmp(o.X) == 0 && k.Y.Cmp(o.Y) == 0 }

const (
	PrivKeyBytesLen            = 32
	PubKeyBytesLenCompressed   = 33
	PubKeyBytesLenUncompressed = 65
)
