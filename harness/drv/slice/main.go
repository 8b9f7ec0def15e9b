package main

import (
	"verifharness/comp/slice"
	"verifharness/seqlib"
)

func main() { seqlib.Main(slice.New, slice.Gens) }
