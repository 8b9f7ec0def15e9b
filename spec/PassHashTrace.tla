---- MODULE PassHashTrace ----
EXTENDS PassHash
VARIABLES tid, l, st
INSTANCE SeqTrace
====
