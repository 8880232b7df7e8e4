"""K01 (cache), T01 (worker pool), T02 (life of the servers), F01 (configurations)."""
import json, os
from . import lib


def K01(c):
    b = c.bin("h_sys")

    def go(args, what):
        c.judge("CacheTrace", lib.run(b, args, c.tmp, "".join(map(str, args[:1])) + "%d" % len(c.parts), timeout=1500), what, mode="ok", timeout=2000)

    for cfg in ["CacheGen5"] if c.deep else ["CacheGen4"]:
        ((f, n),) = c.generate("CacheGen", cfg)
        go(["seq", f], "all sequential histories")
    go(["seqrnd", 4000 if c.deep else 150], "long sequential histories")
    go(["sched", 20000 if c.deep else 1200], "scheduled interleavings of several threads")
    go(["free", 6000 if c.deep else 300], "threads running freely")
    go(["bulk", 200 if c.deep else 25, 60000 if c.deep else 5000], "sequential histories over many keys")
    go(["routine", 60 if c.deep else 12], "the cleaning routine")


def T01(c):
    b = c.bin("h_life")
    c.design("Pool", "PoolDeep" if c.deep else "Pool")
    for cfg in ["PoolGenDeep"] if c.deep else ["PoolGen", "PoolGen3"]:
        ((f, n),) = c.generate("PoolGen", cfg)
        c.judge("PoolTrace", lib.run(b, ["pool", f], c.tmp, "pool_" + cfg, timeout=1500), "scripts of jobs that block, end and fail")
    c.judge("PoolTrace", lib.run(b, ["flood", 200000 if c.deep else 20000], c.tmp, "flood", timeout=1500), "many jobs waiting for busy workers")
    c.judge("PoolTrace", lib.run(b, ["free", 6000 if c.deep else 500], c.tmp, "free", timeout=1500), "several threads handing over jobs")


def T02(c):
    b = c.bin("h_life")
    c.design("Lifecycle")
    ((f, n),) = c.generate("LifeGen", "LifeGenDeep" if c.deep else "LifeGen")
    c.judge("LifeTrace", lib.run(b, ["life", f], c.tmp, "life", timeout=3000), "failures and delays of the two servers")


def F01(c):
    b = c.bin("h_conf")
    ((f, n),) = c.generate("ConfGen", "ConfGenDeep" if c.deep else "ConfGen")
    c.judge("ConfTrace", lib.run(b, ["conf", f], c.tmp, "conf", timeout=1500), "configurations one or two values away from a valid one, damaged files")
    c.judge("ConfTrace", lib.run(b, ["rnd", 60000 if c.deep else 6000, f], c.tmp, "rnd", timeout=1500), "random configurations")
    bins, shim = lib.programs()
    b = c.bin("h_prog")
    ((f, n),) = c.generate("ProgGen", "ProgGenDeep" if c.deep else "ProgGen")
    r = lib.judge("ProgTrace", lib.run(b, ["prog", f, bins, shim, 24 if c.deep else 16], c.tmp, "prog", timeout=3000), c.tmp)
    # real time and sockets: a scenario is rejected if it is rejected again on its own
    again = os.path.join(c.tmp, "again.gen")
    with open(again, "w") as o:
        for i in r["bad"][:6]:
            o.write(json.dumps(r["cases"][i]["s"]) + "\n")
    c.assumptions.append("%d scenarios of the programs run; %d were run a second time by themselves" % (r["n"], len(r["bad"][:6])))
    what = "the programs run with generated configurations"
    c.traces += r["n"] - len(r["bad"])
    c.states += r["states"]
    c.transitions += r["transitions"]
    c.parts[what] = dict(traces=r["n"], **r["counts"])
    if r["bad"]:
        c.judge("ProgTrace", lib.run(b, ["prog", again, bins, shim, 3], c.tmp, "prog2", timeout=1500), what + " (again)")
