// Package constraint is a stand-in for gnark's constraint systems.
package constraint

import (
	"io"
	"math/big"
)

type ConstraintSystem interface {
	io.WriterTo
	io.ReaderFrom
	Field() *big.Int
	GetNbPublicVariables() int
	GetNbSecretVariables() int
	GetNbConstraints() int
}
