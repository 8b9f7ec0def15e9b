package main

import (
	"verifharness/comp/branches"
	"verifharness/seqlib"
)

func main() { seqlib.Main(branches.New, branches.Gens) }
