from vf import *
from conc import *


def C07(c):
    for mc in c.q([(2, 2, 4)], [(2, 2, 5), (3, 2, 5)]):
        c.model_check("Lock", "SPECIFICATION Spec\nCONSTANTS Thr = {%s}\n Ptr = {%s}\n MaxCalls = %d\nINVARIANTS Mutex HolderOK\nPROPERTIES NoLostUpdate EveryCallReturns\nCHECK_DEADLOCK FALSE\n" %
                      (",".join(str(i + 1) for i in range(mc[0])), ",".join(str(i) for i in range(mc[1])), mc[2]), label="Lock%s" % (mc,))
    algo(c, "LockAlgo", c.q([dict(Thr="{1,2}", Ptr="{1,2}", MaxCalls=4)], [dict(Thr="{1,2,3}", Ptr="{1,2}", MaxCalls=6), dict(Thr="{1,2}", Ptr="{1,2,3}", MaxCalls=6)]),
         "HeldOK Mutex", "AllReturn")
    tr, _ = collect(c, "lock", ["syncx/lockx"])
    check_traces(c, "LockTrace", TRACE_CFG, tr)


ALGO = "SPECIFICATION ASpec\nCONSTANTS %s\nINVARIANTS %s\nPROPERTIES Refines %s\nCHECK_DEADLOCK FALSE\n"


def algo(c, module, sizes, inv, props, cfgmore="", **more):
    """The algorithm the code uses, step by step, refines the specification the code is held to."""
    for k in sizes:
        c.model_check(module, ALGO % ("\n ".join("%s = %s" % x for x in k.items()), inv, props) + cfgmore,
                      label=module + " " + " ".join("%s=%s" % x for x in k.items() if x[0] != "Msgs"), timeout=1500, **more)


def decoupler(c, aspect):
    mc = c.q([(2, 1, 2, 3), (2, 2, 2, 3)], [(2, 1, 2, 4), (3, 2, 2, 4)])
    for thr, cap, nm, mw in mc:
        c.model_check("DecouplerMC", """SPECIFICATION Spec
CONSTANTS Thr = {%s}
 Pars <- ParSet
 MaxWrites = %d
 Msgs <- MsgSet
 DropN <- DN
 DropErr <- DE
INVARIANT TypeOK
PROPERTIES Fifo Returns
CHECK_DEADLOCK FALSE
""" % (",".join(str(i + 1) for i in range(thr)), mw), label="Decoupler thr=%d cap=%d" % (thr, cap),
                      files={"DecouplerMC.tla": """---- MODULE DecouplerMC ----
EXTENDS Decoupler
MsgSet == {[id |-> i, len |-> 1] : i \\in 1..%d} \\cup {[id |-> -1, len |-> 0]}
DN(i) == 100 + i
DE(i) == ""
ParSet == {[cap |-> %d, nildrop |-> b] : b \\in BOOLEAN}
====
""" % (nm, cap)})
    for cap in c.q([2], [1, 2, 3]):
        mod = "DecouplerAlgoMC"
        algo(c, mod, [dict(Thr="{1,2}" if cap != 1 else "{1,2,3}", MaxWrites=c.q(3, 4 if cap != 1 else 3))], "NoTear Room", "", files={mod + ".tla": """---- MODULE %s ----
EXTENDS DecouplerAlgo
MsgSet == {[id |-> i, len |-> 1] : i \\in 1..2} \\cup {[id |-> -1, len |-> 0]}
DN(i) == 100 + i
DE(i) == ""
ParSet == {[cap |-> %d, nildrop |-> b] : b \\in BOOLEAN}
====
""" % (mod, cap)}, cfgmore="CONSTANTS Msgs <- MsgSet\n Pars <- ParSet\n DropN <- DN\n DropErr <- DE\n")
    tr, _ = collect(c, "decouple", ["iox/decouplex"], aspect=aspect, maxhist=c.q(150, 800))
    cfg = lambda a: TRACE_CFG + 'CONSTANT Aspect = "%s"\n' % a
    check_traces(c, "DecouplerTrace", cfg(aspect), tr, strict=cfg("all"), others=[cfg("drop"), cfg("progress")] if aspect == "deliver" else [])


def C04(c):
    decoupler(c, "deliver")


def C05(c):
    decoupler(c, "drop")


def C06(c):
    decoupler(c, "progress")


def pool(c, aspect):
    mcs = c.q([(2, 2, 0, 2, 3, 3), (1, 1, 2, 2, 4, 3)], [(2, 2, 1, 3, 4, 4), (3, 2, 0, 3, 3, 4), (2, 1, 1, 3, 6, 5)])
    for thr, mx, pre, jobs, mt, mo in mcs:
        c.model_check("PoolMC", """SPECIFICATION Spec
CONSTANTS Thr = {%s}
 Jobs = {%s}
 Wk = {%s}
 Max = %d
 Pre = %d
 MaxTime = %d
 MaxOps = %d
INVARIANTS Limit OneWorkerPerJob JobsConsistent
PROPERTIES AcceptedHandled StopEmpties CallsReturn NoneAfterStop
CHECK_DEADLOCK FALSE
""" % (",".join(map(str, range(1, thr + 1))), ",".join(map(str, range(1, jobs + 1))), ",".join(map(str, range(1, mx + 1))), mx, pre, mt, mo),
                      label="Pool thr=%d max=%d pre=%d jobs=%d time=%d ops=%d" % (thr, mx, pre, jobs, mt, mo))
    one = dict(Thr="{1,2}", Jobs="{1,2}", Max=1, Pre=2, MaxTime=6, MaxOps=2)
    two = dict(Thr="{1}", Jobs="{1,2,3}", Max=2, Pre=0, MaxTime=3, MaxOps=3)
    algo(c, "PoolAlgo", c.q([one, two], [one, two, dict(one, MaxTime=4, MaxOps=3), dict(two, Thr="{1,2}"), dict(two, Pre=1, MaxOps=4, MaxTime=4)]),
         "CounterOK NoBlock", "AcceptedHandled StopEmpties CallsReturn")
    modes = ("ctl", "native", "race") if aspect == "jobs" else ("ctl", "race")
    tr, _ = collect(c, "pool", ["poolx/gopoolx"], aspect=aspect, maxhist=c.q(120, 600), modes=modes)
    cfg = lambda a: TRACE_CFG + 'CONSTANT Aspect = "%s"\nINVARIANT LimitT\n' % a
    check_traces(c, "PoolTrace", cfg(aspect), tr, strict=None if aspect == "jobs" else cfg("all"),
                 others=[cfg("limit"), cfg("jobs")] if aspect == "stop" else [])
    tr, st = collect(c, "poolbulk", ["poolx/gopoolx"], aspect=aspect, modes=("ctl",), budget=c.q(6, 40))
    if tr:
        check_traces(c, "PoolBulkTrace", TRACE_CFG + 'CONSTANT Aspect = "%s"\n' % aspect, tr)


def C01(c):
    pool(c, "jobs")


def C02(c):
    pool(c, "limit")


def C03(c):
    pool(c, "stop")


def sleeper(c, aspect):
    for thr, mt, mo, slow in c.q([(2, 3, 4, False), (2, 2, 3, True)], [(2, 4, 6, False), (3, 3, 4, False), (2, 3, 5, True)]):
        c.model_check("SleeperMC", """SPECIFICATION MSpec
CONSTANTS Thr = {%s}
 MaxTime = %d
 MaxOps = %d
 Slow = %s
INVARIANTS OneSleep Punctual
PROPERTIES EndsRight FreshSleep WokenReturns
CHECK_DEADLOCK FALSE
""" % (",".join(map(str, range(1, thr + 1))), mt, mo, str(slow).upper()), label="Sleeper thr=%d time=%d ops=%d slow=%s" % (thr, mt, mo, slow))
    algo(c, "SleeperAlgo", c.q([dict(Thr="{1,2}", MaxTime=3, MaxOps=4, Slow="FALSE")],
                               [dict(Thr="{1,2}", MaxTime=3, MaxOps=5, Slow="FALSE"), dict(Thr="{1,2}", MaxTime=3, MaxOps=4, Slow="TRUE"), dict(Thr="{1,2,3}", MaxTime=2, MaxOps=4, Slow="FALSE")]),
         "FlagOK", "WokenReturns")
    tr, _ = collect(c, "sleep", ["timex/sleepx"], aspect=aspect, maxhist=c.q(150, 800), modes=("ctl",) if aspect == "time" else ("ctl", "native", "race"))
    cfg = lambda a: TRACE_CFG + 'CONSTANT Aspect = "%s"\n' % a
    check_traces(c, "SleeperTrace", cfg(aspect), tr, strict=None if aspect == "time" else cfg("all"),
                 others=[cfg("time")] if aspect == "wake" else [])


def C08(c):
    sleeper(c, "wake")


def C09(c):
    sleeper(c, "time")


def C10(c):
    for thr, obj, vals in c.q([(3, 1, 2), (2, 2, 1)], [(4, 1, 2), (3, 2, 2)]):
        c.model_check("Lazy", "SPECIFICATION Spec\nCONSTANTS Thr = {%s}\n Obj = {%s}\n Val = {%s}\nPROPERTIES Once Lazily GetsReturn\nCHECK_DEADLOCK FALSE\n" %
                      tuple(",".join(map(str, range(1, n + 1))) for n in (thr, obj, vals)), label="Lazy thr=%d obj=%d" % (thr, obj))
    tr, _ = collect(c, "lazy", ["functionalx/lazyx"], maxhist=c.q(200, 1000))
    check_traces(c, "LazyTrace", TRACE_CFG, tr)


def C11(c):
    for thr, keys, vals in c.q([(2, 2, 1)], [(2, 2, 2), (3, 1, 1)]):
        c.model_check("SyncMap", "SPECIFICATION Spec\nCONSTANTS Thr = {%s}\n Keys = {%s}\n Vals = {%s}\nINVARIANT TypeOK\nPROPERTIES Local ReadsNeverChange Returns\nCHECK_DEADLOCK FALSE\n" %
                      tuple(",".join(map(str, range(1, n + 1))) for n in (thr, keys, vals)), label="SyncMap thr=%d keys=%d vals=%d" % (thr, keys, vals))
    tr, _ = collect(c, "syncmap", ["dsx/mapx/syncmapx"], maxhist=c.q(100, 500))
    check_traces(c, "SyncMapTrace", TRACE_CFG, tr)


def C12(c):
    for thr, pairs, convs, vals in c.q([(2, 2, 2, 1)], [(2, 2, 2, 2), (3, 1, 1, 1)]):
        c.model_check("ConvReg", "SPECIFICATION Spec\nCONSTANTS Thr = {%s}\n Pairs = {%s}\n Convs = {%s}\n Vals = {%s}\nPROPERTIES OwnPair Found NoBlock\nCHECK_DEADLOCK FALSE\n" %
                      tuple(",".join(map(str, range(1, n + 1))) for n in (thr, pairs, convs, vals)), label="ConvReg thr=%d pairs=%d convs=%d" % (thr, pairs, convs))
    tr, _ = collect(c, "conv", ["typex/convx"], maxhist=c.q(100, 500))
    check_traces(c, "ConvRegTrace", TRACE_CFG, tr)


def C14(c):
    for thr, mgrs, cl, ops in c.q([(2, 1, 2, 4)], [(2, 1, 3, 5), (3, 2, 2, 4)]):
        c.model_check("CloseMgrMC", "SPECIFICATION MSpec\nCONSTANTS Thr = {%s}\n Mgrs = {%s}\n Closers = {%s}\n Fails = {1}\n MaxOps = %d\nINVARIANTS OneAtATime Ordered OnlyFailures\nPROPERTIES ListGrows Returns\nCHECK_DEADLOCK FALSE\n" %
                      (tuple(",".join(map(str, range(1, n + 1))) for n in (thr, mgrs, cl)) + (ops,)), label="CloseMgr thr=%d mgrs=%d closers=%d ops=%d" % (thr, mgrs, cl, ops))
    tr, _ = collect(c, "closemgr", ["iox/managerx/closex"], maxhist=c.q(120, 600))
    check_traces(c, "CloseMgrTrace", TRACE_CFG, tr)


def C15(c):
    for thr, uses in c.q([(1, 3), (2, 2)], [(1, 5), (2, 4)]):
        c.model_check("UsingMC", "SPECIFICATION MSpec\nCONSTANTS Thr = {%s}\n Lists = {}\n MaxUses = %d\nINVARIANT NotEarly\nPROPERTIES AllClosed Returns\nCHECK_DEADLOCK FALSE\n" %
                      (",".join(map(str, range(1, thr + 1))), uses), label="Using thr=%d uses=%d" % (thr, uses))
    tr, _ = collect(c, "using", ["iox/usingx"], maxhist=c.q(20, 50))
    check_traces(c, "UsingTrace", TRACE_CFG, tr)


def C17(c):
    for thr, objs in c.q([(2, 2)], [(3, 3)]):
        c.model_check("ObjPool", "SPECIFICATION Spec\nCONSTANTS Thr = {%s}\n Objs = {%s}\nINVARIANT OneOwner\nPROPERTIES Handover PutReturns\nCHECK_DEADLOCK FALSE\n" %
                      tuple(",".join(map(str, range(1, n + 1))) for n in (thr, objs)), label="ObjPool thr=%d objs=%d" % (thr, objs))
    tr, _ = collect(c, "objpool", ["syncx/syncpoolx"], own_race=True, maxhist=c.q(150, 800))
    check_traces(c, "ObjPoolTrace", TRACE_CFG, tr)


def C16(c):
    c.model_check("KillSig", 'SPECIFICATION Spec\nCONSTANTS Regs = {%s}\n Kill = {"INT", "QUIT", "TERM"}\n Other = {"WINCH"}\nPROPERTIES OnlyForward RunsOnlyOnce Announced\nCHECK_DEADLOCK FALSE\n' %
                  c.q("1,2", "1,2,3,4"))
    b = c.go_build("./drv/killsig", os.path.join(c.tmp, "killsig"))
    out = os.path.join(c.tmp, "killsig.ndjson")
    r = c.run([b, "-seed", str(c.seed), "-tier", c.tier, "-out", out], timeout=600)
    if r.returncode != 0:
        raise Broken("driver killsig failed: " + r.stderr[-2000:])
    with open(out) as f:
        tr = [json.loads(x) for x in f]
    c.cov["executions"] = {"child processes": len(tr)}
    check_traces(c, "KillSigTrace", TRACE_CFG, tr)
