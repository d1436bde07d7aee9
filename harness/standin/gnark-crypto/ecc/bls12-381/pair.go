package bls12381

import "errors"

// Pairing is set by the stand-in for gnark: the pairing of one pair of points.
var Pairing func(p G1Affine, q G2Affine) (GT, error)

func Pair(p []G1Affine, q []G2Affine) (GT, error) {
	if len(p) == 0 || len(p) != len(q) {
		return GT{}, errors.New("invalid inputs sizes")
	}
	if len(p) != 1 {
		return GT{}, errors.New("stand-in: products of pairings are not provided")
	}
	return Pairing(p[0], q[0])
}
