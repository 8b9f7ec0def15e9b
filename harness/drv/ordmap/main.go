package main

import (
	"verifharness/comp/ordmap"
	"verifharness/seqlib"
)

func main() { seqlib.Main(ordmap.New, ordmap.Gens) }
