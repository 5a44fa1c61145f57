package uuid

import (
	"crypto/rand"
	"fmt"
)

type UUID [16]byte

func NewV4() (UUID, error) {
	var u UUID
	_, err := rand.Read(u[:])
	u[6], u[8] = u[6]&0xf|0x40, u[8]&0x3f|0x80
	return u, err
}
func Must(u UUID, err error) UUID {
	if err != nil {
		panic(err)
	}
	return u
}
func (u UUID) String() string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", u[:4], u[4:6], u[6:8], u[8:10], u[10:])
}
