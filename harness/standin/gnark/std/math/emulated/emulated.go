// Package emulated is a stand-in for gnark's emulated fields: elements of four 64-bit limbs.
package emulated

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
)

type FieldParams interface {
	NbLimbs() uint
	BitsPerLimb() uint
	IsPrime() bool
	Modulus() *big.Int
}

type four struct{}

func (four) NbLimbs() uint     { return 4 }
func (four) BitsPerLimb() uint { return 64 }
func (four) IsPrime() bool     { return true }

type BN254Fp struct{ four }
type BN254Fr struct{ four }

func (BN254Fp) Modulus() *big.Int { return ecc.BN254.BaseField() }
func (BN254Fr) Modulus() *big.Int { return ecc.BN254.ScalarField() }

type Element[T FieldParams] struct {
	Limbs []frontend.Variable
}

func (e Element[T]) LimbsOf() []*big.Int {
	if len(e.Limbs) == 0 {
		return make([]*big.Int, 4)
	}
	out := make([]*big.Int, len(e.Limbs))
	for i, l := range e.Limbs {
		out[i], _ = l.(*big.Int)
	}
	return out
}

// Value is the number the limbs stand for; nil where they are not assigned.
func (e Element[T]) Value() *big.Int {
	v := new(big.Int)
	l := e.LimbsOf()
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] == nil {
			return nil
		}
		v.Lsh(v, 64)
		v.Add(v, l[i])
	}
	return v
}

func ValueOf[T FieldParams](x any) Element[T] {
	var t T
	v := new(big.Int)
	switch x := x.(type) {
	case *big.Int:
		v.Set(x)
	case big.Int:
		v.Set(&x)
	case fr.Element:
		x.BigInt(v)
	case *fr.Element:
		x.BigInt(v)
	case fp.Element:
		x.BigInt(v)
	case *fp.Element:
		x.BigInt(v)
	case uint64:
		v.SetUint64(x)
	case int:
		v.SetInt64(int64(x))
	case string:
		if _, ok := v.SetString(x, 0); !ok {
			panic("no number: " + x)
		}
	default:
		panic(fmt.Sprintf("stand-in: no value of %T", x))
	}
	v.Mod(v, t.Modulus())
	e := Element[T]{}
	m := new(big.Int).SetUint64(^uint64(0))
	for i := 0; i < 4; i++ {
		e.Limbs = append(e.Limbs, new(big.Int).And(v, m))
		v.Rsh(v, 64)
	}
	return e
}
