module github.com/consensys/gnark

go 1.22

require github.com/consensys/gnark-crypto v0.0.0

replace github.com/consensys/gnark-crypto => ../gnark-crypto
