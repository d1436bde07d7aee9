// Package groth16 is a stand-in for gnark's Groth16 over BLS12-381: it hands out what the scenario says.
package groth16

import (
	"errors"
	"io"

	"github.com/consensys/gnark-crypto/ecc"
	curve "github.com/consensys/gnark-crypto/ecc/bls12-381"
)

type Proof struct {
	Ar, Krs       curve.G1Affine
	Bs            curve.G2Affine
	Commitments   []curve.G1Affine
	CommitmentPok curve.G1Affine
	// Says is what the proof says, for the stand-in alone
	Says any
}

type VerifyingKey struct {
	G1 struct {
		Alpha, Beta, Delta curve.G1Affine
		K                  []curve.G1Affine
	}
	G2                           struct{ Beta, Delta, Gamma curve.G2Affine }
	PublicAndCommitmentCommitted [][]int
	Of                           any
}

type ProvingKey struct{ Of any }

func (*ProvingKey) CurveID() ecc.ID                   { return ecc.BLS12_381 }
func (*ProvingKey) WriteTo(io.Writer) (int64, error)  { return 0, errors.New("stand-in: not provided") }
func (*ProvingKey) ReadFrom(io.Reader) (int64, error) { return 0, errors.New("stand-in: not provided") }
func (*Proof) CurveID() ecc.ID                        { return ecc.BLS12_381 }
func (*Proof) WriteTo(io.Writer) (int64, error)       { return 0, errors.New("stand-in: not provided") }
func (*Proof) ReadFrom(io.Reader) (int64, error)      { return 0, errors.New("stand-in: not provided") }
func (*VerifyingKey) CurveID() ecc.ID                 { return ecc.BLS12_381 }
func (*VerifyingKey) WriteTo(io.Writer) (int64, error) {
	return 0, errors.New("stand-in: not provided")
}
func (*VerifyingKey) ReadFrom(io.Reader) (int64, error) {
	return 0, errors.New("stand-in: not provided")
}
func (k *VerifyingKey) NbPublicWitness() int { return len(k.G1.K) - 1 }
