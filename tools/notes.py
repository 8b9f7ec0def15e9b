"""Per-property texts of MANIFEST.json."""
CONC = ("TLA+ spec model-checked with TLC; histories of the real code, taken under a deterministic scheduler that enumerates interleavings "
        "(plus real goroutines and the race detector), validated against the spec by TLC")
CONC_NOTE = ("Exhaustive for the specification within the stated constants; for the code, every schedule of the small scenarios up to the stated number of "
             "preemptions and a random sample beyond, each recorded history decided by TLC. Trusts the source rewriter, the scheduler's stand-ins for sync, "
             "atomic, time and context (sequentially consistent), and TLC.")
GRAPH = "TLA+ spec; TLC enumerates its state graph, every transition is replayed into the real code and the results and projected state compared; long recorded random histories validated by TLC"
GRAPH_NOTE = ("Every transition of the bounded state graph is replayed through the real code along many paths; longer random histories are checked by TLC trace "
              "validation. Inputs outside the enumerated and sampled ranges are not covered. Trusts TLC and the driver.")
NOTES = {}
for i in ["C%02d" % n for n in range(1, 16)] + ["C17"]:
    NOTES[i] = {"technique": CONC, "note": CONC_NOTE}
NOTES["C16"] = {"technique": "TLA+ spec model-checked with TLC; histories of child processes that register handlers and send themselves real signals, validated against the spec by TLC",
                "note": "The specification is exhaustive for up to four registrations; the code is exercised with real signals under the kernel's and the Go runtime's own scheduling, on scripted and seeded random signal sequences."}

for i in ["C13"] + ["C%02d" % n for n in range(18, 36)]:
    NOTES[i] = {"technique": GRAPH, "note": GRAPH_NOTE}
NOTES["C31"]["note"] = GRAPH_NOTE + " The clock is virtual, substituted by rewriting the sources' time package."
for i in ("C32", "C33", "C34"):
    NOTES[i]["technique"] = "symbolic TLA+ spec; " + GRAPH[len("TLA+ spec; "):]
    NOTES[i]["note"] = GRAPH_NOTE + " Cryptographic strength itself is assumed; ciphertexts and hashes are abstract in the specification."
NOTES["C36"] = {"technique": "TLA+ spec of the walk with faults, checked with TLC, which also enumerates the trees; runs of the real commands with a stand-in go over these and random trees, validated against the spec by TLC",
                "note": "All trees of depth two over two pairs of names, random deeper ones, with failing, deleting and directory-closing commands and unreadable directories. Trusts the stand-in and TLC."}
NOTES["C37"] = {"technique": "TLA+ composition of the component specifications, whose state graph for small instances TLC enumerates and whose transitions are replayed into the real code; recorded histories of many instances, from one goroutine and (under the race detector) from several, validated by TLC",
                "note": "Two and three instances of a kind exhaustively within small sizes, larger mixtures sampled; goroutines run under the real scheduler with the race detector."}
