---- MODULE BcryptTrace ----
EXTENDS Bcrypt
VARIABLES tid, l, st
INSTANCE SeqTrace
====
