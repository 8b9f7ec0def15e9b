"""Sequential properties C13, C18-C31, C35."""
import json, os

from seq import *
from seq import _driver


def ints(xs):
    return "{" + ", ".join(str(x) for x in xs) + "}"


def C18(c):
    k = {"QVals": "{0, 1, 2}", "QCaps": c.q("{0, 1, 2, 3}", "{0, 1, 2, 3, 4}"), "QMax": c.q(4, 5)}
    graph(c, "Queue", k, "queue")
    record(c, "Queue", {"QVals": "{}", "QCaps": "{}", "QMax": 0}, "queue", "queue", c.q(300, 3000), huge=c.q(4, 24))


def C19(c):
    graph(c, "Stack", {"SVals": "{0, 1, 2}", "SMax": c.q(5, 7)}, "stack")
    record(c, "Stack", {"SVals": "{}", "SMax": 0}, "stack", "stack", c.q(300, 3000), huge=c.q(4, 24))


def C20(c):
    graph(c, "Deque", {"DVals": "{0, 1, 2}", "DBulk": "{}", "DLens": ints(range(c.q(6, 7)))}, "deque")
    # around the internal block boundary
    n = c.q(1, 2)
    graph(c, "Deque", {"DVals": "{}", "DBulk": "{1, 63, 64}", "DLens": ints(x for x in range(140) if min(abs(x - b) for b in (0, 64, 128)) <= n)},
          "deque", label="Deque blocks", walk=400)
    record(c, "Deque", {"DVals": "{}", "DBulk": "{}", "DLens": "{}"}, "deque", "deque", c.q(300, 3000), huge=c.q(4, 24))


def C21(c):
    graph(c, "ListSeq", {"LVals": "{0, 1, 2}", "LMax": c.q(4, 5)}, "list")
    record(c, "ListSeq", {"LVals": "{}", "LMax": 0}, "list", "list", c.q(300, 3000), huge=c.q(4, 24))


NOMAP = {"MKinds": "{}", "MMaps": 0, "MKeys": "{}", "MVals": "{}", "MIters": 0, "MReads": "FALSE"}


def C22(c):
    graph(c, "SkipMap", dict(NOMAP, MKinds=ints(range(13)), MMaps=1, MKeys=ints(range(c.q(4, 5))), MVals="{0, 1}", MReads="TRUE"), "skipmap")
    graph(c, "SkipMap", dict(NOMAP, MKinds="{0, 1}", MMaps=2, MKeys="{0, 1, 2}", MVals="{1}", MReads="TRUE"), "skipmap", label="SkipMap two maps")
    record(c, "SkipMap", NOMAP, "skipmap", "map", c.q(300, 3000), huge=c.q(3, 18))


def C23(c):
    for h, k, v in c.q([(2, 3, 1)], [(2, 3, 2), (3, 3, 1), (2, 4, 1)]):
        c.model_check("SkipListAlgo", "SPECIFICATION ASpec\nINVARIANTS Sorted Count\nPROPERTIES Refines\nVIEW View\nCONSTANTS\n H = %d\n K = %d\n ValSet = %s\nCHECK_DEADLOCK FALSE\n" % (h, k, ints(range(1, v + 1))),
                      label="SkipListAlgo height=%d keys=%d values=%d" % (h, k, v), timeout=1500)
    graph(c, "SkipMap", dict(NOMAP, MKinds="{0, 1}", MMaps=1, MKeys="{0, 1, 2}", MVals="{1, 2}", MIters=2), "skipmap", label="SkipMap iterators")
    graph(c, "SkipMap", dict(NOMAP, MKinds="{0}", MMaps=1, MKeys=ints(range(c.q(5, 6))), MVals="{1}", MIters=2), "skipmap", label="SkipMap keys")
    record(c, "SkipMap", NOMAP, "skipmap", "iter", c.q(300, 3000), huge=c.q(2, 12))


def C24(c):
    graph(c, "OrdMap", {"OKinds": ints(range(13)), "OKeys": ints(range(c.q(4, 5))), "OVals": "{0, 1}", "OScripts": "{0, 1, 3}"}, "ordmap")
    record(c, "OrdMap", {"OKinds": "{}", "OKeys": "{}", "OVals": "{}", "OScripts": "{}"}, "ordmap", "ord", c.q(300, 3000), huge=c.q(3, 18))


def C25(c):
    k = {"EVals": "{0, 1}", "EMax": c.q(4, 5), "EHandles": 1, "EEdit": "TRUE", "ERearr": "FALSE"}
    graph(c, "SliceEdit", k, "slice", label="SliceEdit edits")
    graph(c, "SliceEdit", dict(k, EMax=c.q(2, 3), EHandles=2), "slice", label="SliceEdit copies")
    record(c, "SliceEdit", dict(k, EVals="{}", EMax=0), "slice", "edit", c.q(400, 4000), huge=c.q(6, 36), hugegen="hugeedit")


def C26(c):
    k = {"EVals": c.q("{0, 1}", "{0, 1, 2}"), "EMax": c.q(3, 4), "EHandles": 1, "EEdit": "FALSE", "ERearr": "TRUE"}
    graph(c, "SliceEdit", k, "slice", label="SliceEdit rearranging")
    record(c, "SliceEdit", dict(k, EVals="{}", EMax=0), "slice", "rearr", c.q(400, 4000), huge=c.q(6, 36), hugegen="hugerearr")


def C27(c):
    graph(c, "BitSet", {"BKinds": "{0, 6}", "BPos": ints([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 64, 1000]), "BMany": c.q("FALSE", "TRUE")}, "bitset", label="BitSet bytes")
    graph(c, "BitSet", {"BKinds": ints(range(1, 6)), "BPos": ints([0, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 127, 1000]), "BMany": "FALSE"},
          "bitset", label="BitSet words", walk=60, timeout=900) if c.thorough else None
    graph(c, "BitSet", {"BKinds": ints([1, 2, 3]), "BPos": ints([0, 15, 16, 31, 32, 63, 64, 1000]), "BMany": "TRUE"}, "bitset", label="BitSet edges")
    record(c, "BitSet", {"BKinds": "{}", "BPos": "{}", "BMany": "FALSE"}, "bitset", "bits", c.q(288, 2880), huge=c.q(12, 48))


def C28(c):
    k = {"TKeys": "{0, 1, 2}", "TLen": c.q(4, 6), "TSearch": "FALSE"}
    graph(c, "SortSearch", k, "sorts", label="Sort", flat=True)
    graph(c, "SortSearch", dict(k, TKeys="{0, 2, 4}", TLen=c.q(5, 7), TSearch="TRUE"), "sorts", label="Search", flat=True)
    record(c, "SortSearch", dict(k, TKeys="{}", TLen=0), "sorts", "sort", c.q(500, 5000), huge=c.q(34, 180))


def C29(c):
    for k in c.q([(range(5), range(4), 3), ((0, 1, 3), (0, 1, 2), 4)], [(range(5), range(4), 4), ((0, 1, 3), (0, 1, 2), 5)]):
        c.model_check("IntervalSweep", "SPECIFICATION Spec\nINVARIANT Same\nCONSTANTS\n IOffs = %s\n IBands = %s\n ILen = %d\nCHECK_DEADLOCK FALSE\n" % (ints(k[0]), ints(k[1]), k[2]),
                      label="IntervalSweep %d intervals" % k[2], timeout=1500)
    graph(c, "Interval", {"IOffs": ints(range(5)), "IBands": ints(range(c.q(3, 4))), "ILen": 3}, "interval", flat=True)
    graph(c, "Interval", {"IOffs": ints([0, 1, 3]), "IBands": ints([0, 1, 2]), "ILen": c.q(4, 5)}, "interval", label="Interval longer", flat=True)
    record(c, "Interval", {"IOffs": "{}", "IBands": "{}", "ILen": 0}, "interval", "interval", c.q(500, 6000), huge=c.q(12, 72))


def C30(c):
    k = {"CDays": "{}", "CSecs": "{0, 1, 59, 60, 3599, 3600, 43261, 86399}", "CNs": "{}"}
    # years -9990 to 19980, in steps of a prime number of days
    c.model_check("CalendarMC", "SPECIFICATION Spec\nINVARIANT Fine\nCONSTANTS\n" + "".join("  %s = %s\n" % x for x in k.items()) +
                  "  CLow = 3650000\n  CHigh = 7300000\n  CStep = %d\n" % c.q(1193, 29), timeout=3000)
    days = (set(c.q([], range(0, 800)) or []) | {0, 1, 2, 3, 4, 5, 6, 30, 31, 58, 59, 60, 89, 90, 364, 365, 366, 730, 731, 789, 790, 1095, 1096, 11016, 11017, 18262, 25567, 47540, 47541, 719162, 2932896})
    graph(c, "Calendar", dict(k, CDays=ints(d for d in days | {719528, 2932897, 2932954, 2932955, 50000000}), CNs="{1, 2, 59, 61, 3600, 7000, 86400, 86401, 604800, 31536000, 123456789, 2000000000}"),
          "calendar", flat=True)
    record(c, "Calendar", dict(k, CSecs="{}"), "calendar", "cal", c.q(1000, 20000))


def C13(c):
    k = {"VTypes": '{"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint", "float32", "float64", "bool", "string", "bytes", "runes"}',
         "VTop": ints(c.q([7, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64], range(1, 65)))}
    graph(c, "Convert", k, "convert", flat=True)
    record(c, "Convert", {"VTypes": "{}", "VTop": "{}"}, "convert", "conv", c.q(1000, 20000))


def C35(c):
    graph(c, "Branches", {"BKinds": ints(range(7)), "BVals": "{0, 1}", "BHeld": c.q(2, 3), "BFuncs": c.q(4, 5)}, "branches")
    record(c, "Branches", {"BKinds": "{}", "BVals": "{}", "BHeld": 0, "BFuncs": 0}, "branches", "branches", c.q(500, 5000), huge=c.q(3, 18))


def C31(c):
    ov = c.instrument(["timex", "timex/diffx"])
    if not ov:
        raise Broken("timex cannot be put on a virtual clock")
    c.go_build("./drv/stopwatch", os.path.join(c.tmp, "stopwatch-seq"), overlay=ov)
    graph(c, "Stopwatch", {"WPass": c.q("{0, 1, 2, 3}", "{0, 1, 2, 3, 4}"), "WMax": 1, "WCustom": ints(range(5))}, "stopwatch")
    graph(c, "Stopwatch", {"WPass": c.q("{1}", "{1, 3}"), "WMax": 2, "WCustom": "{}"}, "stopwatch", label="Stopwatch two")
    record(c, "Stopwatch", {"WPass": "{}", "WMax": 0, "WCustom": "{}"}, "stopwatch", "watch", c.q(500, 5000))


def C32(c):
    k = {"AModes": '{"gcm", "cbc", "ctr"}', "AKeys": "{1, 2}", "ALens": "{0, 5, 16}", "AIds": "{1}", "AHeld": 2, "AGolden": "{1, 2, 3}"}
    graph(c, "Aes", k, "aes")
    if c.thorough:
        graph(c, "Aes", dict(k, ALens="{0, 16}", AKeys="{1, 2}", AModes='{"gcm", "cbc"}', AHeld=3, AGolden="{}"), "aes", label="Aes three")
    record(c, "Aes", {"AModes": "{}", "AKeys": "{}", "ALens": "{}", "AIds": "{}", "AHeld": 0, "AGolden": "{}"}, "aes", "aes", c.q(1500, 20000))


def C33(c):
    k = {"PWords": "{1, 2}", "PLevels": c.q("{0, 2}", "{0, 1, 2, 3, 4, 5}"), "PHeld": 2, "PGolden": c.q("{2, 4}", "{1, 2, 3, 4}"), "PPos": "{0, 1, 9, 17, 33, 64}"}
    c.model_check("PassHashGraph", "SPECIFICATION Spec\nCONSTANTS\n" + "".join("  %s = %s\n" % x for x in dict(k, PHeld=3).items()))
    graph(c, "PassHash", dict(k, PHeld=1), "passhash", label="PassHash levels", budget=c.q(20, 120), walk=12)
    graph(c, "PassHash", dict(k, PWords="{1}", PLevels="{}", PGolden="{4}"), "passhash", label="PassHash alterations", budget=c.q(20, 120), walk=12)
    record(c, "PassHash", {"PWords": "{}", "PLevels": "{}", "PHeld": 0, "PGolden": "{}", "PPos": "{}"}, "passhash", "passhash", c.q(400, 4000), budget=c.q(60, 600))


def C34(c):
    k = {"BIds": "{1}", "BLens": "{0, 5, 71, 72, 73, 100}", "BHeld": 2, "BGolden": "{1}"}
    c.model_check("BcryptGraph", "SPECIFICATION Spec\nCONSTANTS\n" + "".join("  %s = %s\n" % x for x in dict(k, BIds="{1, 2}").items()))
    graph(c, "Bcrypt", dict(k, BHeld=1), "bcrypt", label="Bcrypt lengths", budget=c.q(20, 120), walk=12)
    graph(c, "Bcrypt", dict(k, BLens="{20}"), "bcrypt", label="Bcrypt alterations", budget=c.q(20, 120), walk=12)
    record(c, "Bcrypt", {"BIds": "{}", "BLens": "{}", "BHeld": 0, "BGolden": "{}"}, "bcrypt", "bcrypt", c.q(400, 6000), budget=c.q(60, 600))


def independent(c, drv, run):
    """Runs run(); a failing history only counts if the failing operation gives something else when its instance is alone."""
    try:
        run()
        return
    except Violation as v:
        with open(v.replay) as f:
            d = json.load(f)["replay"]
        if "trace" in d:
            hist = d["trace"]["ev"][:d["explained_prefix"] + 1]
        elif "failure" in d:
            hist = d["failure"]["history"]
        else:
            raise
        last = hist[-1]
        if drv == "world":
            hist = [e for e in hist if e["o"]["i"] == last["o"]["i"]]
        ops = os.path.join(c.tmp, "alone.json")
        with open(ops, "w") as f:
            json.dump([e["o"] for e in hist], f)
        for k in range(4):
            r = c.run([os.path.join(c.tmp, drv + "-seq") if k else _driver(c, drv), "-mode", "script", "-graph", ops, "-out", ops + ".out", "-workers", "1"], timeout=300)
            if r.returncode:
                raise v
            with open(ops + ".out") as f:
                again = json.load(f)
            e = again[-1]
            if len(again) == len(hist) and e["k"] == last["k"] and (last["k"] != "op" or e["r"] == last.get("r")):
                c.log("the operation does the same when its instance is alone: a matter of the component's own property")
                os.remove(v.replay)
                return
        raise v


def C37(c):
    W = {"WComps": "{}", "WMany": 0, "WSize": 0}
    k = {"WComps": '{"queue", "stack", "deque", "list"}', "WMany": 2, "WSize": c.q(2, 3)}
    independent(c, "world", lambda: graph(c, "World", k, "world"))
    independent(c, "world", lambda: graph(c, "World", dict(k, WComps='{"skipmap", "ordmap", "bitset"}', WSize=2), "world", label="World maps"))
    if c.thorough:
        independent(c, "world", lambda: graph(c, "World", dict(k, WMany=3, WSize=2), "world", label="World three"))
    independent(c, "world", lambda: record(c, "World", W, "world", "world", c.q(300, 3000)))
    # from several goroutines, each with instances of its own, under the race detector
    independent(c, "world", lambda: record(c, "World", W, "world", "world", c.q(200, 2000), race=True))
    for module, drv, gen, n, k in (("Aes", "aes", "aes", 100, {"AModes": "{}", "AKeys": "{}", "ALens": "{}", "AIds": "{}", "AHeld": 0, "AGolden": "{}"}),
                                   ("Convert", "convert", "conv", 100, {"VTypes": "{}", "VTop": "{}"}),
                                   ("Calendar", "calendar", "cal", 100, {"CDays": "{}", "CSecs": "{}", "CNs": "{}"}),
                                   ("PassHash", "passhash", "passhash", 24, {"PWords": "{}", "PLevels": "{}", "PHeld": 0, "PGolden": "{}", "PPos": "{}"}),
                                   ("Bcrypt", "bcrypt", "bcrypt", 24, {"BIds": "{}", "BLens": "{}", "BHeld": 0, "BGolden": "{}"})):
        independent(c, drv, lambda: record(c, module, k, drv, gen, c.q(n, 10 * n), budget=c.q(10, 100), race=True))
