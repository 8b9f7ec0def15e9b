package main

import (
	"verifharness/comp/skipmap"
	"verifharness/seqlib"
)

func main() { seqlib.Main(skipmap.New, skipmap.Gens) }
