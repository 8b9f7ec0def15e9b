---- MODULE AesTrace ----
EXTENDS Aes
VARIABLES tid, l, st
INSTANCE SeqTrace
====
