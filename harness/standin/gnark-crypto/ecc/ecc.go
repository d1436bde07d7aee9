// Package ecc is a stand-in for gnark-crypto's list of curves.
package ecc

import (
	"math/big"

	blsfp "github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	blsfr "github.com/consensys/gnark-crypto/ecc/bls12-381/fr"
	bnfp "github.com/consensys/gnark-crypto/ecc/bn254/fp"
	bnfr "github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

type ID uint16

const (
	UNKNOWN ID = iota
	BLS12_377
	BLS12_381
	BN254
	BLS24_315
	BLS24_317
	BW6_761
	BW6_633
)

func (id ID) String() string {
	return []string{"unknown", "bls12_377", "bls12_381", "bn254", "bls24_315", "bls24_317", "bw6_761", "bw6_633"}[id]
}
func (id ID) ScalarField() *big.Int {
	switch id {
	case BN254:
		return bnfr.Modulus()
	case BLS12_381:
		return blsfr.Modulus()
	}
	panic("stand-in: no such curve")
}
func (id ID) BaseField() *big.Int {
	switch id {
	case BN254:
		return bnfp.Modulus()
	case BLS12_381:
		return blsfp.Modulus()
	}
	panic("stand-in: no such curve")
}
