// Package bn254 is a stand-in for gnark-crypto's curve package: points are held, not computed with.
package bn254

import "github.com/consensys/gnark-crypto/ecc/bn254/fp"

type E2 struct{ A0, A1 fp.Element }
type E6 struct{ B0, B1, B2 E2 }
type E12 struct{ C0, C1 E6 }
type GT = E12

type G1Affine struct{ X, Y fp.Element }
type G2Affine struct{ X, Y E2 }

func (z *E2) IsZero() bool                    { return z.A0.IsZero() && z.A1.IsZero() }
func (z *E2) Equal(x *E2) bool                { return *z == *x }
func (z *E2) String() string                  { return z.A0.String() + "+" + z.A1.String() + "*u" }
func (z *E12) Equal(x *E12) bool              { return *z == *x }
func (p *G1Affine) IsInfinity() bool          { return p.X.IsZero() && p.Y.IsZero() }
func (p *G2Affine) IsInfinity() bool          { return p.X.IsZero() && p.Y.IsZero() }
func (p *G1Affine) Equal(a *G1Affine) bool    { return *p == *a }
func (p *G2Affine) Equal(a *G2Affine) bool    { return *p == *a }
func (p *G1Affine) Set(a *G1Affine) *G1Affine { *p = *a; return p }
func (p *G2Affine) Set(a *G2Affine) *G2Affine { *p = *a; return p }
func (p *G1Affine) String() string {
	if p.IsInfinity() {
		return "O"
	}
	return "E([" + p.X.String() + "," + p.Y.String() + "])"
}
func (p *G2Affine) String() string {
	if p.IsInfinity() {
		return "O"
	}
	return "E([" + p.X.String() + "," + p.Y.String() + "])"
}
