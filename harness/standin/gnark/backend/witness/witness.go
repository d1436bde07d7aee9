// Package witness is a stand-in for gnark's witnesses.
package witness

type Witness interface {
	Vector() any
	Public() (Witness, error)
}
