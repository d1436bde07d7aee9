// Package groth16 is a stand-in for gnark's in-circuit Groth16 verifier.
package groth16

import (
	"errors"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/backend/groth16"
	bn "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/standin"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
	"github.com/consensys/gnark/std/math/emulated"
)

type Proof[G1El, G2El any] struct {
	Ar, Krs G1El
	Bs      G2El
}

// VerifyingKey holds the numbers of the key it is the value of besides the points code looks at.
type VerifyingKey[G1El, G2El, GtEl any] struct {
	E  GtEl
	G1 struct{ K []G1El }
	G2 struct{ GammaNeg, DeltaNeg G2El }
	of []*big.Int
}

type Witness[FR emulated.FieldParams] struct {
	Public []emulated.Element[FR]
}

func one[T any](p bn254.G1Affine) (T, error) {
	x, ok := any(sw_bn254.NewG1Affine(p)).(T)
	if !ok {
		return x, errors.New("stand-in: no such point type")
	}
	return x, nil
}
func two[T any](p bn254.G2Affine) (T, error) {
	x, ok := any(sw_bn254.NewG2Affine(p)).(T)
	if !ok {
		return x, errors.New("stand-in: no such point type")
	}
	return x, nil
}

func ValueOfProof[G1El, G2El any](p groth16.Proof) (out Proof[G1El, G2El], err error) {
	q, ok := p.(*bn.Proof)
	if !ok {
		return out, errors.New("expected a BN254 proof")
	}
	if out.Ar, err = one[G1El](q.Ar); err != nil {
		return
	}
	if out.Bs, err = two[G2El](q.Bs); err != nil {
		return
	}
	out.Krs, err = one[G1El](q.Krs)
	return
}

func ValueOfVerifyingKey[G1El, G2El, GtEl any](vk groth16.VerifyingKey) (out VerifyingKey[G1El, G2El, GtEl], err error) {
	k, ok := vk.(*bn.VerifyingKey)
	if !ok {
		return out, errors.New("expected a BN254 key")
	}
	out.of = k.Numbers()
	for _, p := range k.G1.K {
		x, err := one[G1El](p)
		if err != nil {
			return out, err
		}
		out.G1.K = append(out.G1.K, x)
	}
	if out.G2.GammaNeg, err = two[G2El](k.G2.Gamma); err != nil {
		return
	}
	out.G2.DeltaNeg, err = two[G2El](k.G2.Delta)
	return
}

func ValueOfVerifyingKeyFixed[G1El, G2El, GtEl any](vk groth16.VerifyingKey) (VerifyingKey[G1El, G2El, GtEl], error) {
	return ValueOfVerifyingKey[G1El, G2El, GtEl](vk)
}

type VerifierOption func(*bool) error

func WithCompleteArithmetic() VerifierOption { return func(c *bool) error { *c = true; return nil } }
func WithSubgroupCheck() VerifierOption      { return func(*bool) error { return nil } }

type Verifier[FR emulated.FieldParams, G1El, G2El, GtEl any] struct{ e *standin.Engine }

func NewVerifier[FR emulated.FieldParams, G1El, G2El, GtEl any](api frontend.API) (*Verifier[FR, G1El, G2El, GtEl], error) {
	e, ok := api.(*standin.Engine)
	if !ok {
		return nil, errors.New("stand-in: unknown engine")
	}
	return &Verifier[FR, G1El, G2El, GtEl]{e}, nil
}

func (v *Verifier[FR, G1El, G2El, GtEl]) AssertProof(vk VerifyingKey[G1El, G2El, GtEl], p Proof[G1El, G2El], w Witness[FR], opts ...VerifierOption) error {
	if len(vk.G1.K) != len(w.Public)+1 {
		return errors.New("the key takes another number of inputs")
	}
	if !v.e.Judge {
		return nil
	}
	var numbers []*big.Int
	add := func(x any) {
		switch x := x.(type) {
		case sw_bn254.G1Affine:
			numbers = append(numbers, x.X.Value(), x.Y.Value())
		case sw_bn254.G2Affine:
			numbers = append(numbers, x.P.X.A0.Value(), x.P.X.A1.Value(), x.P.Y.A0.Value(), x.P.Y.A1.Value())
		}
	}
	add(any(p.Ar))
	add(any(p.Bs))
	add(any(p.Krs))
	var pubs []*big.Int
	for _, e := range w.Public {
		pubs = append(pubs, e.Value())
	}
	for _, n := range append(append([]*big.Int{}, numbers...), pubs...) {
		if n == nil {
			return errors.New("an input is not assigned")
		}
	}
	v.e.Assertions = append(v.e.Assertions, standin.Assertion{
		Vk: vk.of, Proof: numbers, Publics: pubs,
		Ok: standin.Holds(vk.of, numbers, pubs, len(vk.G1.K)),
	})
	return nil
}
