"""N05 (zone files), N06 (zone consistency)."""
import json, os, re
from . import lib


def N06(c):
    b = c.bin("h_ns")
    for base in (1, 2):
        ((g, n),) = c.generate("ZoneGen", "ZoneGen%d%s" % (base, "Deeper" if c.deep else "Deep"), heap="6g")
        c.judge("LoadTrace", lib.run(b, ["load", g], c.tmp, "load%d" % base, timeout=800), "all zones near consistent zone %d" % base)
    _r = lib.run(b, ["ansrnd", 300 if c.deep else 40], c.tmp, "rnd")
    c.judge("ServerTrace", _r, "random consistent zones", env={"ZONES": _r + ".zones", "PROP": "LOADED"})


def cod(s):
    return list(s.encode("latin-1"))


def nm(s):
    return [cod(l) for l in s.strip(".").split(".") if l]


def b4(n):
    return [n >> 24, n >> 16 & 255, n >> 8 & 255, n & 255]


def frame(pool, mx, pre="", post="", hole=1, subs=(), files=(), lines=True, zone="e.", start=9):
    """A template of a load; files after the first by (name, text), subs by (zone, start, min, file)."""
    fs = [{"f": cod("f0"), "x": []}] + [{"f": cod(f), "x": cod(x)} for f, x in files]
    if hole != 1:
        fs[0]["x"] = fs[0]["x"] or cod(pre_main(files))
    L = dict(zone=nm(zone), start=b4(start), main=cod("f0"), files=fs,
             subs=[dict(zone=nm(z), start=b4(s), min=b4(m), f=cod(f)) for z, s, m, f in subs])
    return dict(L=L, hole=hole, pre=cod(pre), post=cod(post), pool=[cod(p) for p in pool], max=mx, lines=lines)


SOA = "e. 9 IN SOA e. m.e. 1 2 3 4 5\n"
HEAD = SOA + " NS n\n"


def pre_main(files):
    return HEAD


# whole entries
ENTRIES = ["a A 1.2.3.4\n", " A 1.2.3.5\n", "@ 7 A 1.2.3.6\n", "b.e. IN 8 TXT x\n", "c 6 IN CNAME d\n", "4 A 1.1.1.1\n",
           "$ORIGIN o.e.\n", "$ORIGIN e.\n", "$ORIGIN o\n", "$ORIGIN x.\n", "$ORIGIN @\n", "$ORIGIN\n", "$ORIGIN o.e. x\n",
           "$INCLUDE f1\n", "$INCLUDE f1 i\n", "$INCLUDE f1 i.e.\n", "$INCLUDE f1 i.x.\n", "$INCLUDE f9\n", "$INCLUDE\n", "$INCLUDE f1 i j\n",
           "$INCLUDE f0\n", "$INCLUDE f2\n", "$INCLUDE f1 s\n", "a.s A 1.2.3.4\n", "a.xs A 1.2.3.4\n", "s TXT n\n", "a.f. A 1.2.3.4\n", "e A 9.9.9.9\n",
           "a 4 A 1.2.3.4\n", "a 5 A 1.2.3.4\n", "a NS n\n", "e. NS n2\n", "a SOA e. m.e. 1 2 3 4 5\n", "m MX 10 a\n", "m MX 70000 a\n", "m MX a 10\n", "m MX 1\n",
           "p PTR q.r.\n", "h HINFO \"c p\" os\n", "h HINFO c\n", "t TXT \"a b\" c \\\"d\n", "t TXT (a ; x\n b\n ) c\n", "t TXT ( a\n", "t TXT a )\n", "( t TXT a )\n", "t (TXT) a\n",
           "\n", " \t\n", "; c\n", "  ; c\n", "w WKS 1.2.3.4 TCP\n", "a\n", "a A\n", "a A 1.2.3\n", "a A 1.2.3.256\n", "a A 1.2.3.4 5\n", "a CS A 1.2.3.4\n", "a IN NULL x\n", "a XX x\n",
           "$TTL 5\n", "x..y A 1.2.3.4\n", "l%s A 1.2.3.4\n" % ("l" * 63), "c CNAME %s\n" % ("k" * 63), "t TXT \"%s\"\n" % ("y" * 256), "t TXT %s\n" % ("z" * 255),
           "A A 1.1.1.1\n", "IN A 1.1.1.2\n", " IN A 1.1.1.3\n", "NS NS A\n", "x_y A 1.2.3.4\n", "- A 1.2.3.4\n"]
F1 = ("f1", "j 77 A 7.7.7.7\n TXT i\n$ORIGIN deep.e.\nk 88 A 7.7.7.8\n")
F2 = ("f2", "$INCLUDE f1 two\n@ A 6.6.6.6\n$INCLUDE f3\n")
SUBS = [("s.e.", 50, 20, "fs")]
FS = ("fs", "@ NS ns\nns A 5.5.5.5\n")
# the tokens of one line
TOKENS = [" 60", " IN", " CS", " A", " NS", " 1.2.3.4", " @", " n", " x.e.", " \"q\"", " TXT", " MX", " 4294967296", " a", " ;", " .", " 01"]
CHARS = ["a", " ", "\n", "\"", "\\", ";", "(", ")", "@", "$", "1", "."]
WEIRD = ["a", " ", "\n", "\r", "\x0b", "\x0c", "\x00", "\x7f", "\xc2\xa0", "\xe2\x80\xa8", "\xff", "\xc3\xa9", "\\", "\"", "(", "$", "\xe3\x80\x80", "\xc2\x85"]
SOAS = [s + "\n" for s in (
    "e. 9 IN SOA e. m.e. 1 2 3 4 5", "@ 9 IN SOA n m 1 2 3 4 5", " IN SOA n m 1 2 3 4 5", "E. IN 9 SOA n. m. 0 0 0 0 0", "e. 9 IN SOA n m 1 2 3 4 9", "e. 9 IN SOA n m 1 2 3 4 10",
    "e. IN SOA n m 1 2 3 4 9", "e. IN SOA n m 1 2 3 4 10", "e. 9 IN SOA n m 1 2 3 4", "e. 9 IN SOA n m 1 2 3 4 5 6", "e. 9 IN SOA n m a 2 3 4 5", "e. 9 IN SOA n 1 2 3 4 5", "e. 9 IN SOA",
    "a.e. 9 IN SOA n m 1 2 3 4 5", "f. 9 IN SOA n m 1 2 3 4 5", "e 9 IN SOA n m 1 2 3 4 5", "e. 9 CS SOA n m 1 2 3 4 5", "e. 9 IN A 1.2.3.4", "e. 9 IN NS n",
    "e. 9 IN SOA n m (1 ; serial\n 2\n 3\n ; nothing\n\n4\n 5)", "e. 9 IN SOA n m ( 1 2 3 4 5", "e. ( 9 IN SOA n m 1 2 ) 3 4 5", "e. 9 IN SOA n m 4294967295 4294967295 4294967295 4294967295 0",
    "e. 9 IN SOA n m 4294967296 2 3 4 5", "e. 9 IN SOA n m -1 2 3 4 5", "; c", "", " ; c", "$ORIGIN e.", "e. 4294967295 IN SOA n m 1 2 3 4 4294967295", "e. 9 IN SOA n \"m\" 1 2 3 4 5",
    "e. 9 IN SOA . @ 1 2 3 4 5", "e. 2147483647 IN SOA 1 2 3 4 5 6 7")]
NSS = ["e. NS n\n", "@ NS n\n", " NS n\n", "a NS n\n", " 9 NS n\n", " 4 NS n\n", "n A 1.1.1.1\n", "x.s NS n\n"]
SUBLINES = ["@ NS ns\n", " NS ns\n", "s.e. 20 NS ns\n", "@ 19 NS ns\n", "@ IN 30 NS ns.x.\n", "ns A 5.5.5.5\n", "ns 19 A 5.5.5.5\n", "ns 44 A 5.5.5.6\n", "ns.e. A 5.5.5.7\n", "x A 5.5.5.8\n",
            "ns TXT a\n", "ns CNAME x\n", "x NS ns\n", "@ SOA n m 1 2 3 4 5\n", "$ORIGIN s.e.\n", "$INCLUDE f1\n", "@ CS NS ns\n", "@ NS\n", "@ NS ns ns\n", "@ NS ( ns\n)\n", "; c\n", "ns A ( 5.5.5.5 ; c\n )\n",
            "@ A 5.5.5.5\n", "@ NS @\n", "NS.S.E. A 5.5.5.9\n", "@ NS ns.xs.e.\n"]


def frames(deep):
    fs = [F1, F2, ("f3", " 9 A 3.3.3.3\n"), FS]
    d = 1 if deep else 0
    out = [
        # 1: entries of the main file
        frame(ENTRIES, 3 if deep else 2, pre=HEAD, files=fs, subs=SUBS),
        # the same after other state
        frame(ENTRIES, 1 + d, pre=HEAD + "$ORIGIN o.e.\nz 66 A 1.2.3.4\n", post=" A 9.8.7.6\ny TXT z\n", files=fs, subs=SUBS),
        frame(ENTRIES, 1 + d, pre="", post="@ NS n\n", files=fs, subs=SUBS),
        # 2: one included file, its entries, and what follows it
        frame([e for e in ENTRIES if "f9" not in e], 1 + d, pre="", files=fs[1:2] + [("f1", "")] + fs[2:], hole=3, subs=SUBS),
        # 3: SOA line and NS records
        frame(SOAS, 1 + d, pre="", post="@ NS n\n", files=fs, subs=SUBS),
        frame(SOAS + NSS, 2 + d, pre="", files=fs, subs=SUBS),
        frame(NSS, 3 + d, pre=SOA, files=fs, subs=SUBS),
        # 4: sub zone file
        frame(SUBLINES, 2 + d, hole=2, files=[("fs", ""), F1], subs=SUBS),
        # 5: tokens of a line, characters of a line
        frame(TOKENS, 3 + d, pre=HEAD + "t", post="\nu A 1.1.1.1\n", lines=False),
        frame(TOKENS, 2 + d, pre=HEAD + "t MX 1", post="\n", lines=False),
        frame(CHARS, 3 + d, pre=HEAD + "t TXT a", post="b\nu A 1.1.1.1\n", lines=False),
        frame(CHARS, 3 + d, pre=HEAD, post="t TXT b\n", lines=False),
        frame(CHARS, 2 + d, pre=HEAD + "t TXT \"a", post="b\" c\n", lines=False),
        frame(CHARS, 2 + d, pre=HEAD + "t TXT (a\n", post="b ) c\n", lines=False),
        frame(CHARS, 2 + d, pre=HEAD + "$ORIGIN x", post="y.e.\nu A 1.1.1.1\n", lines=False),
        frame(CHARS, 2 + d, pre=HEAD + "t TXT x", post="", lines=False),
        frame(CHARS, 2 + d, pre="", post=HEAD, lines=False),
        # characters outside the specified ones: an outcome is all that is asked for
        frame(WEIRD, 2 + d, pre=HEAD + "t TXT a", post="b\nu A 1.1.1.1\n", lines=False),
        frame(WEIRD, 2 + d, pre=HEAD, post="t TXT b\n", lines=False),
        frame(WEIRD, 1 + d, pre=HEAD + "$ORIGIN", post="e.\n", lines=False),
        # services of WKS records
        frame([" 25", " smtp", " 53 25", " domain"], 2, pre=HEAD + "w WKS 1.2.3.4 TCP", post="\n", lines=False),
    ]
    out[3]["L"]["files"][0]["x"] = cod(HEAD + "$ORIGIN o.e.\nz 66 A 1.2.3.4\n$INCLUDE f1 inc\n A 9.8.7.6\nq TXT z\n")
    return out


def known(case):
    """The known finding: WKS records with services."""
    for f in case["L"]["files"]:
        if re.search(r"WKS\s+\S+\s+(TCP|UDP)[\s()]+[^\s();]", bytes(f["x"]).decode("latin-1")):
            return "wks-services"


def N05(c):
    b = c.bin("h_zf")
    ff = os.path.join(c.tmp, "frames")
    fs = frames(c.deep)
    with open(ff, "w") as f:
        for x in fs:
            f.write(json.dumps(x) + "\n")
    small = os.path.join(c.tmp, "frames0")
    with open(small, "w") as f:
        for x in frames(False):
            if x["lines"]:
                f.write(json.dumps(dict(x, max=min(x["max"], 2 if c.deep else 1))) + "\n")
    c.design("ZoneFileGen", "ZoneFileSound", env={"FRAMES": small}, timeout=800)
    ((g, n),) = c.generate("ZoneFileGen", env={"FRAMES": ff}, workers=8, heap="6g")
    c.judge("ZoneFileTrace", lib.run(b, ["gen", ff, g], c.tmp, "gen.t"), "all small texts", keyf=known, timeout=3000)
    c.judge("ZoneFileTrace", lib.run(b, ["rnd", 8000 if c.deep else 2500], c.tmp, "rnd.t"), "random texts", keyf=known, timeout=3000)
