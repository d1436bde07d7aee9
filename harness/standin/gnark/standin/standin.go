// Package standin is what the stand-in for gnark knows: the scenario it plays (a JSON file named by
// GNARK_STANDIN) and the log of what it was asked to do (the file the scenario names).
package standin

import (
	"encoding/json"
	"errors"
	"math/big"
	"os"
	"sync"
)

type Scenario struct {
	// the step that fails: solve, compile, setup, witness, public, prove, verify, pair
	Fail string `json:"fail"`
	Log  string `json:"log"`
	// what the outer setup and the outer prover hand out, in decimal
	Alpha, Ar, Krs         []string
	Beta, Gamma, Delta, Bs [][]string
	K                      [][]string
	Gt                     [][][]string
}

var (
	once sync.Once
	sc   Scenario
	mu   sync.Mutex
)

func Get() *Scenario {
	once.Do(func() {
		b, err := os.ReadFile(os.Getenv("GNARK_STANDIN"))
		if err == nil {
			err = json.Unmarshal(b, &sc)
		}
		if err != nil {
			panic("stand-in: no scenario: " + err.Error())
		}
	})
	return &sc
}

// Fails gives the step's error if the scenario makes it fail.
func Fails(step string) error {
	if Get().Fail == step {
		return errors.New("stand-in: " + step + " fails")
	}
	return nil
}

// Event appends one line to the log.
func Event(what string, more map[string]any) {
	mu.Lock()
	defer mu.Unlock()
	if more == nil {
		more = map[string]any{}
	}
	more["event"] = what
	b, err := json.Marshal(more)
	if err != nil {
		panic(err)
	}
	f, err := os.OpenFile(Get().Log, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if _, err := f.Write(append(b, '\n')); err != nil {
		panic(err)
	}
}

func Num(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("stand-in: no number: " + s)
	}
	return v
}

// Fnv is the 64-bit FNV-1a hash of the 32-byte big-endian forms of the numbers.
func Fnv(parts ...[]*big.Int) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, p := range parts {
		for _, v := range p {
			var b [32]byte
			v.FillBytes(b[:])
			for _, x := range b {
				h ^= uint64(x)
				h *= 0x100000001b3
			}
		}
	}
	return h
}

// Holds is the stand-in's inner statement: the first number of the proof is the hash of the key, the rest of the
// proof and the public inputs, and the key takes as many inputs.
func Holds(vk, proof, publics []*big.Int, nK int) bool {
	return nK == len(publics)+1 && len(proof) == 8 && proof[0].IsUint64() &&
		proof[0].Uint64() == Fnv(vk, proof[1:], publics)
}

func Strings(v []*big.Int) []string {
	s := make([]string, len(v))
	for i := range v {
		s[i] = v[i].String()
	}
	return s
}

// Assertion is one proof verification a circuit made.
type Assertion struct {
	Vk, Proof, Publics []*big.Int
	Ok                 bool
}

// Engine runs circuits. Judge is off where only the shape of the circuit is taken.
type Engine struct {
	Judge      bool
	FieldOf    *big.Int
	Assertions []Assertion
}

func (e *Engine) Field() *big.Int { return e.FieldOf }
func (e *Engine) Compiler() any   { return e }
