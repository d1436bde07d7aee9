#!/usr/bin/env python3
"""Writes the four field packages of the gnark-crypto stand-in (all alike but for the modulus)."""
import os
FIELDS = {
    "ecc/bn254/fr": (4, "21888242871839275222246405745257275088548364400416034343698204186575808495617"),
    "ecc/bn254/fp": (4, "21888242871839275222246405745257275088696311157297823662689037894645226208583"),
    "ecc/bls12-381/fr": (4, "52435875175126190479447740508185965837690552500527637822603658699938581184513"),
    "ecc/bls12-381/fp": (6, "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"),
}
T = '''// Code generated by gen.py; a stand-in for the field packages of gnark-crypto.
package PKG

import (
	"crypto/rand"
	"errors"
	"math/big"
	"strings"
)

const Limbs = LIMBS
const Bytes = LIMBS * 8
const Bits = BITS

// Element is held in Montgomery form, as gnark-crypto holds it.
type Element [Limbs]uint64

type Vector []Element

var modulus, _ = new(big.Int).SetString("MODULUS", 10)
var radix = new(big.Int).Lsh(big.NewInt(1), 64*Limbs)
var inverse = new(big.Int).ModInverse(radix, modulus)

func Modulus() *big.Int { return new(big.Int).Set(modulus) }

func One() Element { var e Element; e.SetOne(); return e }

func NewElement(v uint64) Element { var e Element; e.SetUint64(v); return e }

func (z *Element) set(v *big.Int) *Element {
	m := new(big.Int).Mul(new(big.Int).Mod(v, modulus), radix)
	m.Mod(m, modulus)
	for i := range z {
		z[i] = new(big.Int).And(m, new(big.Int).SetUint64(^uint64(0))).Uint64()
		m.Rsh(m, 64)
	}
	return z
}
func (z *Element) get() *big.Int {
	v := new(big.Int)
	for i := Limbs - 1; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, new(big.Int).SetUint64(z[i]))
	}
	v.Mul(v, inverse)
	return v.Mod(v, modulus)
}

func (z *Element) SetBigInt(v *big.Int) *Element { return z.set(v) }
func (z *Element) SetUint64(v uint64) *Element   { return z.set(new(big.Int).SetUint64(v)) }
func (z *Element) SetInt64(v int64) *Element     { return z.set(big.NewInt(v)) }
func (z *Element) SetZero() *Element             { return z.SetUint64(0) }
func (z *Element) SetOne() *Element              { return z.SetUint64(1) }
func (z *Element) Set(x *Element) *Element       { *z = *x; return z }
func (z *Element) SetBytes(b []byte) *Element    { return z.set(new(big.Int).SetBytes(b)) }
func (z *Element) SetRandom() (*Element, error) {
	v, err := rand.Int(rand.Reader, modulus)
	if err != nil {
		return nil, err
	}
	return z.set(v), nil
}
func (z *Element) SetBytesCanonical(b []byte) error {
	if len(b) != Bytes {
		return errors.New("invalid encoding: wrong length")
	}
	v := new(big.Int).SetBytes(b)
	if v.Cmp(modulus) >= 0 {
		return errors.New("invalid encoding: not reduced")
	}
	z.set(v)
	return nil
}
func (z *Element) SetString(s string) (*Element, error) {
	v, ok := new(big.Int).SetString(strings.TrimSpace(s), 0)
	if !ok {
		return nil, errors.New("Element.SetString failed -> can't parse number into a big.Int " + s)
	}
	return z.set(v), nil
}
func (z Element) BigInt(res *big.Int) *big.Int          { return res.Set(z.get()) }
func (z Element) ToBigIntRegular(res *big.Int) *big.Int { return res.Set(z.get()) }
func (z *Element) IsZero() bool                         { return z.get().Sign() == 0 }
func (z *Element) IsOne() bool                          { return z.get().Cmp(big.NewInt(1)) == 0 }
func (z *Element) Equal(x *Element) bool                { return *z == *x }
func (z *Element) Cmp(x *Element) int                   { return z.get().Cmp(x.get()) }
func (z Element) Uint64() uint64                        { return z.get().Uint64() }
func (z *Element) IsUint64() bool                       { return z.get().IsUint64() }
func (z *Element) Neg(x *Element) *Element              { return z.set(new(big.Int).Neg(x.get())) }
func (z *Element) Add(x, y *Element) *Element           { return z.set(new(big.Int).Add(x.get(), y.get())) }
func (z *Element) Sub(x, y *Element) *Element           { return z.set(new(big.Int).Sub(x.get(), y.get())) }
func (z *Element) Mul(x, y *Element) *Element           { return z.set(new(big.Int).Mul(x.get(), y.get())) }
func (z Element) Bytes() (res [Bytes]byte) {
	z.get().FillBytes(res[:])
	return
}
func (z *Element) Marshal() []byte { b := z.Bytes(); return b[:] }

// Text writes the negative of a value whose negative is small, as gnark-crypto does in base 10.
func (z *Element) Text(base int) string {
	if z == nil {
		return "<nil>"
	}
	v := z.get()
	if base == 10 {
		if n := new(big.Int).Sub(modulus, v); v.Sign() != 0 && n.Cmp(big.NewInt(65535)) <= 0 {
			return "-" + n.String()
		}
	}
	return v.Text(base)
}
func (z *Element) String() string               { return z.Text(10) }
func (z Element) MarshalJSON() ([]byte, error)  { return []byte("\\"" + z.get().String() + "\\""), nil }
func (z *Element) UnmarshalJSON(b []byte) error { _, err := z.SetString(strings.Trim(string(b), "\\"")); return err }
func (v Vector) Len() int                       { return len(v) }
func (v Vector) String() string {
	s := make([]string, len(v))
	for i := range v {
		s[i] = v[i].String()
	}
	return "[" + strings.Join(s, ",") + "]"
}
'''
for d, (n, m) in FIELDS.items():
    os.makedirs("gnark-crypto/" + d, exist_ok=True)
    open(f"gnark-crypto/{d}/element.go", "w").write(
        T.replace("PKG", d[-2:]).replace("LIMBS", str(n)).replace("BITS", str(int(m).bit_length())).replace("MODULUS", m))
