// Package frontend is a stand-in for gnark's circuit front end.
package frontend

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bls12-381/fr"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/standin"
)

type Variable any

type API interface {
	Field() *big.Int
	Compiler() any
}

type Circuit interface {
	Define(api API) error
}

type Builder interface{ Field() *big.Int }
type CompileConfig struct{}
type CompileOption func(*CompileConfig) error
type NewBuilder func(*big.Int, CompileConfig) (Builder, error)

func IgnoreUnconstrainedInputs() CompileOption { return func(*CompileConfig) error { return nil } }
func WithCapacity(int) CompileOption           { return func(*CompileConfig) error { return nil } }

// System is a compiled circuit: the circuit's own constants and the number of its public inputs.
type System struct {
	Of     Circuit
	field  *big.Int
	public int
}

func (s *System) WriteTo(io.Writer) (int64, error)  { return 0, errors.New("stand-in: not provided") }
func (s *System) ReadFrom(io.Reader) (int64, error) { return 0, errors.New("stand-in: not provided") }
func (s *System) Field() *big.Int                   { return s.field }
func (s *System) GetNbPublicVariables() int         { return s.public + 1 }
func (s *System) GetNbSecretVariables() int         { return 1 }
func (s *System) GetNbConstraints() int             { return 1 }
func NewSystem(field *big.Int) *System              { return &System{field: field} }

// Limbed is what emulated elements are.
type Limbed interface{ LimbsOf() []*big.Int }

func limbs(v reflect.Value, out *[]*big.Int, n *int) {
	if l, ok := v.Interface().(Limbed); ok {
		*n++
		*out = append(*out, l.LimbsOf()...)
		return
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			limbs(v.Index(i), out, n)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				limbs(v.Field(i), out, n)
			}
		}
	}
}

func tag(f reflect.StructField) string { return f.Tag.Get("gnark") }

func isPublic(f reflect.StructField) bool {
	for _, t := range strings.Split(tag(f), ",") {
		if t == "public" {
			return true
		}
	}
	return false
}

// publics are the limbs of the public inputs, and how many elements they are.
func publics(c Circuit) (out []*big.Int, n int) {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Type().Field(i); f.IsExported() && isPublic(f) {
			limbs(v.Field(i), &out, &n)
		}
	}
	return
}

// bind is the circuit with the assignment's inputs.
func bind(c, a Circuit) (Circuit, error) {
	if reflect.TypeOf(c) != reflect.TypeOf(a) {
		return nil, errors.New("the assignment is of another type than the circuit")
	}
	from := reflect.ValueOf(a).Elem()
	to := reflect.New(from.Type())
	to.Elem().Set(reflect.ValueOf(c).Elem())
	for i := 0; i < from.NumField(); i++ {
		if f := from.Type().Field(i); f.IsExported() && tag(f) != "-" {
			to.Elem().Field(i).Set(from.Field(i))
		}
	}
	return to.Interface().(Circuit), nil
}

// Solve runs the circuit on the assignment.
func Solve(c, a Circuit, field *big.Int) ([]standin.Assertion, error) {
	_, m := publics(c)
	if _, n := publics(a); n != m {
		return nil, fmt.Errorf("the circuit has %d public inputs, the assignment %d", m, n)
	}
	b, err := bind(c, a)
	if err != nil {
		return nil, err
	}
	e := &standin.Engine{Judge: true, FieldOf: field}
	if err := b.Define(e); err != nil {
		return nil, err
	}
	for _, x := range e.Assertions {
		if !x.Ok {
			return e.Assertions, errors.New("the circuit is not satisfied")
		}
	}
	return e.Assertions, nil
}

func Compile(field *big.Int, b NewBuilder, c Circuit, opts ...CompileOption) (constraint.ConstraintSystem, error) {
	if err := standin.Fails("compile"); err != nil {
		return nil, err
	}
	if _, err := b(field, CompileConfig{}); err != nil {
		return nil, err
	}
	if err := c.Define(&standin.Engine{FieldOf: field}); err != nil {
		return nil, err
	}
	p, n := publics(c)
	if len(p) == 0 {
		p = make([]*big.Int, 4*n)
	}
	standin.Event("compile", map[string]any{"field": field.String(), "elements": n})
	return &System{Of: c, field: field, public: len(p)}, nil
}

// Wit is a witness: the assignment, and its public part as a vector.
type Wit struct {
	Of   Circuit
	Full bool
	vec  fr.Vector
}

func (w *Wit) Vector() any {
	if w.Full {
		return append(append(fr.Vector{}, w.vec...), fr.NewElement(0))
	}
	return w.vec
}
func (w *Wit) Public() (witness.Witness, error) {
	if err := standin.Fails("public"); err != nil {
		return nil, err
	}
	return &Wit{Of: w.Of, vec: w.vec}, nil
}

type WitnessOption func(*bool) error

func PublicOnly() WitnessOption { return func(p *bool) error { *p = true; return nil } }

func NewWitness(a Circuit, field *big.Int, opts ...WitnessOption) (witness.Witness, error) {
	if err := standin.Fails("witness"); err != nil {
		return nil, err
	}
	if field.Cmp(fr.Modulus()) != 0 {
		return nil, errors.New("stand-in: witnesses of other fields are not provided")
	}
	only := false
	for _, o := range opts {
		if err := o(&only); err != nil {
			return nil, err
		}
	}
	l, _ := publics(a)
	w := &Wit{Of: a, Full: !only}
	for _, v := range l {
		if v == nil {
			return nil, errors.New("an input is not assigned")
		}
		var e fr.Element
		e.SetBigInt(v)
		w.vec = append(w.vec, e)
	}
	return w, nil
}
