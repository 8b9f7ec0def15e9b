package main

import (
	"verifharness/comp/interval"
	"verifharness/seqlib"
)

func main() { seqlib.Main(interval.New, interval.Gens) }
