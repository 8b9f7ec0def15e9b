package main

import (
	"verifharness/comp/list"
	"verifharness/seqlib"
)

func main() { seqlib.Main(list.New, list.Gens) }
