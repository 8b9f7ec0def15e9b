---- MODULE StackTrace ----
EXTENDS Stack
VARIABLES tid, l, st
INSTANCE SeqTrace
====
