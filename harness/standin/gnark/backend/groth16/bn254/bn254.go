// Package groth16 is a stand-in for gnark's Groth16 over BN254. Its proofs hold when their first number is the hash
// of everything else (see standin.Holds); its files are sequences of 32-byte big-endian coordinates.
package groth16

import (
	"encoding/binary"
	"errors"
	"io"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/standin"
)

type Proof struct {
	Ar, Krs bn254.G1Affine
	Bs      bn254.G2Affine
}

type VerifyingKey struct {
	G1 struct {
		Alpha, Beta, Delta bn254.G1Affine
		K                  []bn254.G1Affine
	}
	G2                           struct{ Beta, Delta, Gamma bn254.G2Affine }
	PublicAndCommitmentCommitted [][]int
}

type ProvingKey struct{}

func (*ProvingKey) CurveID() ecc.ID                   { return ecc.BN254 }
func (*ProvingKey) WriteTo(io.Writer) (int64, error)  { return 0, errors.New("stand-in: not provided") }
func (*ProvingKey) ReadFrom(io.Reader) (int64, error) { return 0, errors.New("stand-in: not provided") }

func (*Proof) CurveID() ecc.ID               { return ecc.BN254 }
func (*VerifyingKey) CurveID() ecc.ID        { return ecc.BN254 }
func (k *VerifyingKey) NbPublicWitness() int { return len(k.G1.K) - 1 }

func g1(p *bn254.G1Affine) []*fp.Element { return []*fp.Element{&p.X, &p.Y} }
func g2(p *bn254.G2Affine) []*fp.Element {
	return []*fp.Element{&p.X.A0, &p.X.A1, &p.Y.A0, &p.Y.A1}
}
func cat(l ...[]*fp.Element) (out []*fp.Element) {
	for _, x := range l {
		out = append(out, x...)
	}
	return
}
func (p *Proof) parts() []*fp.Element { return cat(g1(&p.Ar), g2(&p.Bs), g1(&p.Krs)) }
func (k *VerifyingKey) head() []*fp.Element {
	return cat(g1(&k.G1.Alpha), g2(&k.G2.Beta), g2(&k.G2.Gamma), g2(&k.G2.Delta))
}
func numbers(l []*fp.Element) []*big.Int {
	out := make([]*big.Int, len(l))
	for i := range l {
		out[i] = l[i].BigInt(new(big.Int))
	}
	return out
}

// Numbers are the coordinates in the order of the file.
func (p *Proof) Numbers() []*big.Int { return numbers(p.parts()) }
func (k *VerifyingKey) Numbers() []*big.Int {
	l := k.head()
	for i := range k.G1.K {
		l = append(l, g1(&k.G1.K[i])...)
	}
	return numbers(l)
}

func read(r io.Reader, l []*fp.Element, n *int64) error {
	for _, e := range l {
		var b [fp.Bytes]byte
		m, err := io.ReadFull(r, b[:])
		*n += int64(m)
		if err != nil {
			return err
		}
		if err := e.SetBytesCanonical(b[:]); err != nil {
			return err
		}
	}
	return nil
}
func (p *Proof) ReadFrom(r io.Reader) (n int64, err error) {
	err = read(r, p.parts(), &n)
	return
}
func (k *VerifyingKey) ReadFrom(r io.Reader) (n int64, err error) {
	if err = read(r, k.head(), &n); err != nil {
		return
	}
	var c uint32
	if err = binary.Read(r, binary.BigEndian, &c); err != nil {
		return
	}
	if c > 4096 {
		return n, errors.New("too many points")
	}
	k.G1.K = make([]bn254.G1Affine, c)
	for i := range k.G1.K {
		if err = read(r, g1(&k.G1.K[i]), &n); err != nil {
			return
		}
	}
	return
}
func (k *VerifyingKey) UnsafeReadFrom(r io.Reader) (int64, error) { return k.ReadFrom(r) }
func (*Proof) WriteTo(io.Writer) (int64, error)                   { return 0, errors.New("stand-in: not provided") }
func (*VerifyingKey) WriteTo(io.Writer) (int64, error) {
	return 0, errors.New("stand-in: not provided")
}

func Verify(p *Proof, k *VerifyingKey, x fr.Vector, opts ...any) error {
	v := make([]*big.Int, len(x))
	for i := range x {
		v[i] = x[i].BigInt(new(big.Int))
	}
	if !standin.Holds(k.Numbers(), p.Numbers(), v, len(k.G1.K)) {
		return errors.New("pairing doesn't match")
	}
	return nil
}
