package main

import (
	"verifharness/comp/stack"
	"verifharness/seqlib"
)

func main() { seqlib.Main(stack.New, stack.Gens) }
