// Package groth16 is a stand-in for gnark's Groth16.
package groth16

import (
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/consensys/gnark-crypto/ecc"
	curve "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fr"
	bls "github.com/consensys/gnark/backend/groth16/bls12-381"
	bn "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/standin"
)

type object interface {
	CurveID() ecc.ID
	io.WriterTo
	io.ReaderFrom
}
type Proof interface{ object }
type ProvingKey interface{ object }
type VerifyingKey interface {
	object
	NbPublicWitness() int
}

func NewCS(id ecc.ID) constraint.ConstraintSystem { return frontend.NewSystem(id.ScalarField()) }
func NewProof(id ecc.ID) Proof {
	if id == ecc.BN254 {
		return &bn.Proof{}
	}
	return &bls.Proof{}
}
func NewVerifyingKey(id ecc.ID) VerifyingKey {
	if id == ecc.BN254 {
		return &bn.VerifyingKey{}
	}
	return &bls.VerifyingKey{}
}
func NewProvingKey(id ecc.ID) ProvingKey {
	if id == ecc.BN254 {
		return &bn.ProvingKey{}
	}
	return &bls.ProvingKey{}
}

func num(s string) (e fp.Element)  { e.SetBigInt(standin.Num(s)); return }
func g1(s []string) curve.G1Affine { return curve.G1Affine{X: num(s[0]), Y: num(s[1])} }
func e2(s []string) curve.E2       { return curve.E2{A0: num(s[0]), A1: num(s[1])} }
func g2(s [][]string) curve.G2Affine {
	return curve.G2Affine{X: e2(s[0]), Y: e2(s[1])}
}
func e6(s [][]string) curve.E6 { return curve.E6{B0: e2(s[0]), B1: e2(s[1]), B2: e2(s[2])} }

func init() {
	curve.Pairing = func(p curve.G1Affine, q curve.G2Affine) (curve.GT, error) {
		if err := standin.Fails("pair"); err != nil {
			return curve.GT{}, err
		}
		s := standin.Get()
		if p != g1(s.Alpha) || q != g2(s.Beta) {
			return curve.GT{C0: curve.E6{B0: q.X, B1: q.Y}, C1: curve.E6{B0: curve.E2{A0: p.X, A1: p.Y}}}, nil
		}
		return curve.GT{C0: e6(s.Gt[0]), C1: e6(s.Gt[1])}, nil
	}
}

func Setup(cs constraint.ConstraintSystem) (ProvingKey, VerifyingKey, error) {
	if err := standin.Fails("setup"); err != nil {
		return nil, nil, err
	}
	c, ok := cs.(*frontend.System)
	if !ok || c.Of == nil {
		return nil, nil, errors.New("nothing compiled")
	}
	s := standin.Get()
	k := &bls.VerifyingKey{Of: c}
	k.G1.Alpha, k.G2.Beta, k.G2.Gamma, k.G2.Delta = g1(s.Alpha), g2(s.Beta), g2(s.Gamma), g2(s.Delta)
	for _, p := range s.K {
		k.G1.K = append(k.G1.K, g1(p))
	}
	standin.Event("setup", nil)
	return &bls.ProvingKey{Of: c}, k, nil
}

type statement struct {
	of  any
	vec fr.Vector
}

func Prove(cs constraint.ConstraintSystem, pk ProvingKey, w witness.Witness, opts ...any) (Proof, error) {
	if err := standin.Fails("prove"); err != nil {
		return nil, err
	}
	c, ok := cs.(*frontend.System)
	k, ok2 := pk.(*bls.ProvingKey)
	x, ok3 := w.(*frontend.Wit)
	if !ok || !ok2 || !ok3 || c.Of == nil || k.Of != any(c) || !x.Full {
		return nil, errors.New("the key is of another circuit, or the witness is not complete")
	}
	said, err := frontend.Solve(c.Of, x.Of, c.Field())
	if err != nil {
		return nil, err
	}
	var log []map[string]any
	for _, a := range said {
		log = append(log, map[string]any{"vk": standin.Strings(a.Vk), "proof": standin.Strings(a.Proof), "publics": standin.Strings(a.Publics)})
	}
	p, _ := x.Public()
	v := p.Vector().(fr.Vector)
	var vs []string
	for i := range v {
		b := v[i].Bytes()
		vs = append(vs, fmt.Sprintf("%x", b))
	}
	standin.Event("prove", map[string]any{"field": c.Field().String(), "asserted": log, "vector": vs})
	s := standin.Get()
	return &bls.Proof{Ar: g1(s.Ar), Bs: g2(s.Bs), Krs: g1(s.Krs), Says: statement{c, v}}, nil
}

func Verify(p Proof, vk VerifyingKey, w witness.Witness, opts ...any) error {
	if err := standin.Fails("verify"); err != nil {
		return err
	}
	a, ok := p.(*bls.Proof)
	k, ok2 := vk.(*bls.VerifyingKey)
	x, ok3 := w.(*frontend.Wit)
	if !ok || !ok2 || !ok3 || x.Full {
		return errors.New("stand-in: not a proof, key and public witness of the outer curve")
	}
	says, ok := a.Says.(statement)
	if !ok || says.of != k.Of || !reflect.DeepEqual(says.vec, x.Vector().(fr.Vector)) {
		return errors.New("pairing doesn't match")
	}
	standin.Event("verify", nil)
	return nil
}
