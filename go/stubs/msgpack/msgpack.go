// Package msgpack is a stand-in with the parts of vmihailenco/msgpack/v4 which goloop uses.
package msgpack

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"

	"github.com/vmihailenco/msgpack/v4/codes"
)

type Encoder struct{ w io.Writer }

func NewEncoder(w io.Writer) *Encoder                      { return &Encoder{w} }
func (e *Encoder) SortMapKeys(bool) *Encoder               { return e }
func (e *Encoder) UseCompactEncoding(bool) *Encoder        { return e }
func (e *Encoder) StructAsArray(bool) *Encoder             { return e }
func (e *Encoder) write(b ...byte) error                   { _, err := e.w.Write(b); return err }
func (e *Encoder) EncodeNil() error                        { return e.write(0xc0) }
func (e *Encoder) num(c byte, n int, v uint64) error {
	b := make([]byte, 9)
	b[0] = c
	binary.BigEndian.PutUint64(b[1:], v<<uint(64-8*n))
	return e.write(b[:1+n]...)
}
func (e *Encoder) EncodeArrayLen(n int) error {
	switch {
	case n < 16:
		return e.write(0x90 | byte(n))
	case n < 1<<16:
		return e.num(0xdc, 2, uint64(n))
	}
	return e.num(0xdd, 4, uint64(n))
}
func (e *Encoder) EncodeMapLen(n int) error {
	switch {
	case n < 16:
		return e.write(0x80 | byte(n))
	case n < 1<<16:
		return e.num(0xde, 2, uint64(n))
	}
	return e.num(0xdf, 4, uint64(n))
}
func (e *Encoder) EncodeBytes(b []byte) error {
	if b == nil {
		return e.EncodeNil()
	}
	var err error
	switch n := len(b); {
	case n < 1<<8:
		err = e.num(0xc4, 1, uint64(n))
	case n < 1<<16:
		err = e.num(0xc5, 2, uint64(n))
	default:
		err = e.num(0xc6, 4, uint64(n))
	}
	if err == nil {
		err = e.write(b...)
	}
	return err
}
func (e *Encoder) EncodeString(s string) error {
	var err error
	switch n := len(s); {
	case n < 32:
		err = e.write(0xa0 | byte(n))
	case n < 1<<8:
		err = e.num(0xd9, 1, uint64(n))
	case n < 1<<16:
		err = e.num(0xda, 2, uint64(n))
	default:
		err = e.num(0xdb, 4, uint64(n))
	}
	if err == nil {
		err = e.write([]byte(s)...)
	}
	return err
}
func (e *Encoder) EncodeUint(v uint64) error {
	switch {
	case v < 128:
		return e.write(byte(v))
	case v < 1<<8:
		return e.num(0xcc, 1, v)
	case v < 1<<16:
		return e.num(0xcd, 2, v)
	case v < 1<<32:
		return e.num(0xce, 4, v)
	}
	return e.num(0xcf, 8, v)
}
func (e *Encoder) EncodeInt(v int64) error {
	switch {
	case v >= 0:
		return e.EncodeUint(uint64(v))
	case v >= -32:
		return e.write(byte(v))
	case v >= math.MinInt8:
		return e.num(0xd0, 1, uint64(v))
	case v >= math.MinInt16:
		return e.num(0xd1, 2, uint64(v))
	case v >= math.MinInt32:
		return e.num(0xd2, 4, uint64(v))
	}
	return e.num(0xd3, 8, uint64(v))
}
func (e *Encoder) EncodeValue(v reflect.Value) error {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return e.write(0xc3)
		}
		return e.write(0xc2)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return e.EncodeInt(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return e.EncodeUint(v.Uint())
	case reflect.Float32:
		return e.num(0xca, 4, uint64(math.Float32bits(float32(v.Float()))))
	case reflect.Float64:
		return e.num(0xcb, 8, math.Float64bits(v.Float()))
	case reflect.String:
		return e.EncodeString(v.String())
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return e.EncodeNil()
		}
		return e.EncodeValue(v.Elem())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return e.EncodeBytes(v.Bytes())
		}
	}
	return fmt.Errorf("msgpack stand-in: unsupported %s", v.Type())
}

type source interface {
	io.Reader
	io.ByteScanner
}
type Decoder struct {
	r   source
	rec *[]byte
}

func NewDecoder(r io.Reader) *Decoder {
	s, ok := r.(source)
	if !ok {
		s = bufio.NewReader(r)
	}
	return &Decoder{r: s}
}
func (d *Decoder) PeekCode() (codes.Code, error) {
	c, err := d.r.ReadByte()
	if err != nil {
		return 0, err
	}
	return codes.Code(c), d.r.UnreadByte()
}
func (d *Decoder) code() (byte, error) {
	c, err := d.r.ReadByte()
	if err == nil && d.rec != nil {
		*d.rec = append(*d.rec, c)
	}
	return c, err
}
func (d *Decoder) read(n int) ([]byte, error) {
	var out []byte
	for n > 0 {
		k := n
		if k > 1<<16 {
			k = 1 << 16
		}
		b := make([]byte, k)
		if _, err := io.ReadFull(d.r, b); err != nil {
			return nil, err
		}
		out = append(out, b...)
		n -= k
	}
	if out == nil {
		out = []byte{}
	}
	if d.rec != nil {
		*d.rec = append(*d.rec, out...)
	}
	return out, nil
}
func (d *Decoder) num(n int) (uint64, error) {
	b, err := d.read(n)
	if err != nil {
		return 0, err
	}
	var v uint64
	for _, c := range b {
		v = v<<8 | uint64(c)
	}
	return v, nil
}
func (d *Decoder) DecodeNil() error {
	c, err := d.code()
	if err != nil {
		return err
	}
	if c != 0xc0 {
		return fmt.Errorf("msgpack: invalid code=%x decoding nil", c)
	}
	return nil
}
func (d *Decoder) length(what string, fix, mask, c16 byte) (int, error) {
	c, err := d.code()
	if err != nil {
		return 0, err
	}
	if c == 0xc0 {
		return -1, nil
	}
	if c&mask == fix {
		return int(c &^ mask), nil
	}
	if c == c16 || c == c16+1 {
		n, err := d.num(2 << (c - c16))
		return int(n), err
	}
	return 0, fmt.Errorf("msgpack: invalid code=%x decoding %s length", c, what)
}
func (d *Decoder) DecodeArrayLen() (int, error) { return d.length("array", 0x90, 0xf0, 0xdc) }
func (d *Decoder) DecodeMapLen() (int, error)   { return d.length("map", 0x80, 0xf0, 0xde) }
func (d *Decoder) bytesLen(c byte) (int, error) {
	switch {
	case c == 0xc0:
		return -1, nil
	case c&0xe0 == 0xa0:
		return int(c & 0x1f), nil
	case c >= 0xc4 && c <= 0xc6:
		n, err := d.num(1 << (c - 0xc4))
		return int(n), err
	case c >= 0xd9 && c <= 0xdb:
		n, err := d.num(1 << (c - 0xd9))
		return int(n), err
	}
	return 0, fmt.Errorf("msgpack: invalid code=%x decoding bytes length", c)
}
func (d *Decoder) DecodeBytes() ([]byte, error) {
	c, err := d.code()
	if err != nil {
		return nil, err
	}
	n, err := d.bytesLen(c)
	if err != nil || n < 0 {
		return nil, err
	}
	return d.read(n)
}
func (d *Decoder) number() (int64, uint64, float64, error) {
	c, err := d.code()
	if err != nil {
		return 0, 0, 0, err
	}
	ok := func(v int64) (int64, uint64, float64, error) { return v, uint64(v), float64(v), nil }
	switch {
	case c < 0x80 || c >= 0xe0:
		return ok(int64(int8(c)))
	case c == 0xc0:
		return ok(0)
	case c == 0xca:
		n, err := d.num(4)
		f := float64(math.Float32frombits(uint32(n)))
		return int64(f), uint64(f), f, err
	case c == 0xcb:
		n, err := d.num(8)
		f := math.Float64frombits(n)
		return int64(f), uint64(f), f, err
	case c >= 0xcc && c <= 0xcf:
		n, err := d.num(1 << (c - 0xcc))
		return int64(n), n, float64(n), err
	case c >= 0xd0 && c <= 0xd3:
		k := 1 << (c - 0xd0)
		n, err := d.num(k)
		v := int64(n<<uint(64-8*k)) >> uint(64-8*k)
		return v, uint64(v), float64(v), err
	}
	return 0, 0, 0, fmt.Errorf("msgpack: invalid code=%x decoding number", c)
}
func (d *Decoder) DecodeValue(v reflect.Value) error {
	switch v.Kind() {
	case reflect.Bool:
		c, err := d.code()
		if err != nil {
			return err
		}
		if c != 0xc0 && c != 0xc2 && c != 0xc3 {
			return fmt.Errorf("msgpack: invalid code=%x decoding bool", c)
		}
		v.SetBool(c == 0xc3)
		return nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, _, _, err := d.number()
		if err == nil {
			v.SetInt(n)
		}
		return err
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		_, n, _, err := d.number()
		if err == nil {
			v.SetUint(n)
		}
		return err
	case reflect.Float32, reflect.Float64:
		_, _, f, err := d.number()
		if err == nil {
			v.SetFloat(f)
		}
		return err
	case reflect.String:
		b, err := d.DecodeBytes()
		if err == nil {
			v.SetString(string(b))
		}
		return err
	case reflect.Ptr:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		return d.DecodeValue(v.Elem())
	}
	return fmt.Errorf("msgpack stand-in: unsupported %s", v.Type())
}
func (d *Decoder) skip() error {
	c, err := d.code()
	if err != nil {
		return err
	}
	n, items := 0, uint64(0)
	switch {
	case c < 0x80 || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3:
	case c < 0x90:
		items = 2 * uint64(c&0xf)
	case c < 0xa0:
		items = uint64(c & 0xf)
	case c < 0xc0, c >= 0xc4 && c <= 0xc6, c >= 0xd9 && c <= 0xdb:
		n, err = d.bytesLen(c)
	case c == 0xca:
		n = 4
	case c == 0xcb:
		n = 8
	case c >= 0xcc && c <= 0xcf:
		n = 1 << (c - 0xcc)
	case c >= 0xd0 && c <= 0xd3:
		n = 1 << (c - 0xd0)
	case c == 0xdc || c == 0xdd:
		items, err = d.num(2 << (c - 0xdc))
	case c == 0xde || c == 0xdf:
		items, err = d.num(2 << (c - 0xde))
		items *= 2
	default:
		return fmt.Errorf("msgpack: invalid code=%x", c)
	}
	if err != nil {
		return err
	}
	if _, err = d.read(n); err != nil {
		return err
	}
	for ; items > 0; items-- {
		if err = d.skip(); err != nil {
			return err
		}
	}
	return nil
}
func (d *Decoder) Decode(v ...interface{}) error {
	for _, o := range v {
		u, ok := o.(interface{ UnmarshalMsgpack([]byte) error })
		if !ok {
			return errors.New("msgpack stand-in: unsupported value")
		}
		rec := []byte{}
		d.rec = &rec
		err := d.skip()
		d.rec = nil
		if err != nil {
			return err
		}
		if err = u.UnmarshalMsgpack(rec); err != nil {
			return err
		}
	}
	return nil
}
func (d *Decoder) Skip() error { return d.skip() }
