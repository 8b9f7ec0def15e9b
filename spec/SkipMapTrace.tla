---- MODULE SkipMapTrace ----
EXTENDS SkipMap
VARIABLES tid, l, st
INSTANCE SeqTrace
====
