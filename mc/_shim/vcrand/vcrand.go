// Package vcrand stands in for crypto/rand: while a controlled execution runs with
// scripted randomness, draws take their extreme values instead.
package vcrand

import (
	real "crypto/rand"
	"io"
	"math/big"

	"github.com/xconnio/wampproto-go/verifshim/vsched"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	if v, ok := vsched.DrawBits(8); ok {
		for i := range b {
			b[i] = byte(v)
		}
		return len(b), nil
	}
	c := vsched.Draw()
	if c < 0 {
		return real.Reader.Read(b)
	}
	for i := range b {
		b[i] = [...]byte{0, 0xff, 0x80}[c]
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if _, ok := r.(reader); ok && max.Sign() > 0 {
		if max.IsUint64() {
			if v, ok := vsched.DrawN(max.Uint64()); ok {
				return new(big.Int).SetUint64(v), nil
			}
		}
		switch vsched.Draw() {
		case 0:
			return new(big.Int), nil
		case 1:
			return new(big.Int).Sub(max, big.NewInt(1)), nil
		case 2:
			return new(big.Int).Rsh(max, 1), nil
		}
		r = real.Reader
	}
	return real.Int(r, max)
}

func Prime(r io.Reader, bits int) (*big.Int, error) { return real.Prime(real.Reader, bits) }
