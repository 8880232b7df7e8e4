"""R01-R09 and L01: the resolver, driven by simulated name servers and a simulated clock."""
from . import lib

RULES = ("query send sendttl sendtc closer attempts servers bound again chain just ttl tc nx truth succ fail panic trace mute").split()


class _Res:
    """Histories recorded by h_res, judged by ResolverTrace with some of its rules."""

    k = 0

    def __init__(self, c, rules):
        self.c, self.b = c, c.bin("h_res")
        self.env = {r: "1" if r in rules.split() else "0" for r in RULES}

    def judge(self, args, what, seed=None):
        _Res.k += 1
        out = lib.run(self.b, args, self.c.tmp, "h%d" % _Res.k, timeout=1500, env={"VERIF_SEED": seed} if seed else None)
        return self.c.judge("ResolverTrace", out, what, env=dict(self.env, WORLDS=out + ".worlds"), done=True, timeout=3000)

    def rnd(self, fam, quick, deep, what, *args):
        """Random histories; in the thorough tier in portions with seeds of their own."""
        if not self.c.deep:
            self.judge([fam, quick, *args], what)
            return
        for s in range(max(1, deep // 1500)):
            self.judge([fam, min(deep, 1500), *args], what, seed=self.c.seed * 1000 + s)

    def gen(self, fam, module, cfgs, deep, what):
        for cfg in deep if self.c.deep else cfgs:
            ((f, n),) = self.c.generate(module, cfg)
            self.judge([fam, f], what)


HIST = "sequences of random lookups in random hierarchies of zones"
WORLD = "question sequences to generated hierarchies of zones"
ADV = "moves of malicious servers, then lookups of other names"


def _design(c, quick, deep):
    c.design("ResDesignMC", deep if c.deep else quick, heap="8g", timeout=3000)


def R01(c):
    _design(c, "ResShared", "ResSharedDeep")
    r = _Res(c, "truth succ fail nx chain query panic")
    r.gen("worlds", "ResGen", ["ResGen1", "ResGen2"], ["ResGen1Deep", "ResGen2Deep"], WORLD)
    r.rnd("hist", 300, 12000, HIST)
    r.rnd("hist", 300, 12000, HIST + ", with name servers elsewhere", "glueless")


def R02(c):
    _design(c, "ResEnds", "ResEndsDeep")
    r = _Res(c, "bound closer panic")
    r.rnd("fan", 36, 900, "servers that keep the resolver busy")
    r.gen("adv", "AdvGen", ["Adv1"], ["Adv2"], ADV)
    r.rnd("advrnd", 250, 9000, "random moves of malicious servers")
    r.rnd("chain", 250, 6000, "chains and circles of aliases")


def R03(c):
    _design(c, "ResTrust", "ResTrustDeep")
    for rule in ("Glue", "Closer", "Match"):
        c.refuted("ResDesignMC", "ResNo" + rule)
    r = _Res(c, "send just truth")
    r.gen("adv", "AdvGen", ["Adv1", "Adv2"], ["Adv1", "Adv2Deep", "Adv3Deep"], ADV)
    r.rnd("advrnd", 250, 12000, "random moves of malicious servers")


def R04(c):
    r = _Res(c, "ttl sendttl")
    r.gen("worlds", "ResGen", ["ResGen2"], ["ResGen2Deep"], WORLD)
    r.rnd("hist", 350, 12000, HIST)
    r.rnd("conc", 250, 9000, "interleaved lookups")


def R05(c):
    r = _Res(c, "attempts servers succ fail truth panic")
    r.gen("beh", "BehGen", ["Beh1", "Beh2", "Beh3"], ["Beh1Deep", "Beh2Deep", "Beh3Deep", "Beh4Deep"], "levels of servers that fail in generated ways")


def R06(c):
    r = _Res(c, "chain truth succ fail panic bound")
    r.rnd("chain", 900, 15000, "chains and circles of aliases")
    r.gen("worlds", "ResGen", ["ResGen1"], ["ResGen1Deep"], WORLD)
    r = _Res(c, "chain")
    r.rnd("advrnd", 400, 6000, "random moves of malicious servers")


def R07(c):
    r = _Res(c, "send just truth nx succ fail")
    r.rnd("spoof", 500, 12000, "forged and damaged datagrams instead of, or before, the proper reply")
    r.gen("beh", "BehGen", ["Beh2"], ["Beh1"], "levels of servers that fail in generated ways")
    r.gen("adv", "AdvGen", ["Adv1"], ["Adv2"], ADV)


def R08(c):
    _design(c, "ResShared", "ResSharedDeep")
    r = _Res(c, "truth succ fail just nx chain panic")
    r.rnd("conc", 600, 15000, "interleaved lookups")


def R09(c):
    r = _Res(c, "tc sendtc again")
    r.rnd("tc", 350, 9000, "truncated replies, with further lookups")
    r.rnd("hist", 200, 6000, HIST)
    r.gen("worlds", "ResGen", ["ResGen2"], ["ResGen2Deep"], WORLD)


def L01(c):
    r = _Res(c, "trace mute")
    r.rnd("pair", 500, 9000, "the same lookups under different tracing settings")
