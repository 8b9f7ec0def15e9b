package main

import (
	"verifharness/comp/bitset"
	"verifharness/seqlib"
)

func main() { seqlib.Main(bitset.New, bitset.Gens) }
