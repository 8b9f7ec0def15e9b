---- MODULE BcryptGraph ----
EXTENDS Bcrypt
VARIABLE st
INSTANCE SeqGraph
====
