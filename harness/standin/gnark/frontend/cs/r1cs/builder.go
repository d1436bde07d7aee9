// Package r1cs is a stand-in for gnark's R1CS builder.
package r1cs

import (
	"math/big"

	"github.com/consensys/gnark/frontend"
)

type builder struct{ f *big.Int }

func (b builder) Field() *big.Int { return b.f }

func NewBuilder(f *big.Int, _ frontend.CompileConfig) (frontend.Builder, error) {
	return builder{f}, nil
}
