package main

import (
	"verifharness/comp/deque"
	"verifharness/seqlib"
)

func main() { seqlib.Main(deque.New, deque.Gens) }
