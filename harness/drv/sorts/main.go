package main

import (
	"verifharness/comp/sorts"
	"verifharness/seqlib"
)

func main() { seqlib.Main(sorts.New, sorts.Gens) }
