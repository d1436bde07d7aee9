// Package test is a stand-in for gnark's test engine.
package test

import (
	"math/big"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/standin"
)

type TestEngineOption func(any) error

func IsSolved(c, w frontend.Circuit, field *big.Int, opts ...TestEngineOption) error {
	if err := standin.Fails("solve"); err != nil {
		return err
	}
	_, err := frontend.Solve(c, w, field)
	return err
}
