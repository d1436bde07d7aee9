// Package sw_bn254 is a stand-in for gnark's emulated BN254.
package sw_bn254

import (
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/std/math/emulated"
)

type BaseField = emulated.BN254Fp
type ScalarField = emulated.BN254Fr

type E2 struct{ A0, A1 emulated.Element[BaseField] }
type G1Affine struct{ X, Y emulated.Element[BaseField] }
type G2Affine struct{ P struct{ X, Y E2 } }
type GTEl struct{ A emulated.Element[BaseField] }

func NewG1Affine(p bn254.G1Affine) G1Affine {
	return G1Affine{emulated.ValueOf[BaseField](p.X), emulated.ValueOf[BaseField](p.Y)}
}
func e2(x bn254.E2) E2 {
	return E2{emulated.ValueOf[BaseField](x.A0), emulated.ValueOf[BaseField](x.A1)}
}
func NewG2Affine(p bn254.G2Affine) (q G2Affine) {
	q.P.X, q.P.Y = e2(p.X), e2(p.Y)
	return
}
