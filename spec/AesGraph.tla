---- MODULE AesGraph ----
EXTENDS Aes
VARIABLE st
INSTANCE SeqGraph
====
