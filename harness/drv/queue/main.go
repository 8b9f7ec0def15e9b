package main

import (
	"verifharness/comp/queue"
	"verifharness/seqlib"
)

func main() { seqlib.Main(queue.New, queue.Gens) }
