"""C01, C02 (message codec), C04 (bit buffer), C05 (names)."""
from . import lib
from .resolver import _Res as Res


def C01(c):
    b = c.bin("h_codec")
    (gb, nb), (gm, nm) = c.generate("WireGen", "WireGenDeep" if c.deep else "WireGen", tags=("GEN", "GENM"), heap="6g")
    c.judge("CodecTrace", lib.run(b, ["bytes", gb], c.tmp, "gen_dec"), "messages of the specification, decoded")
    c.judge("CodecTrace", lib.run(b, ["msgs", gm], c.tmp, "gen_enc"), "messages of the specification, encoded and read back")
    c.judge("CodecTrace", lib.run(b, ["enc", 12000 if c.deep else 1500], c.tmp, "enc"), "random messages, encoded and read back")
    c.judge("CodecTrace", lib.run(b, ["foreign", 12000 if c.deep else 1500], c.tmp, "foreign"), "messages of another encoder")
    c.assumptions += ["WKS records without ports and character strings outside ASCII are compared as the bytes they carry"]


def C02(c):
    b = c.bin("h_codec")
    c.judge("CodecTrace", lib.run(b, ["exhaustive", 5 if c.deep else 4], c.tmp, "exh"), "all name encodings over a 9 byte alphabet")
    c.judge("CodecTrace", lib.run(b, ["damaged", 60000 if c.deep else 4000], c.tmp, "dam"), "damaged and arbitrary bytes")
    if c.deep:
        for s in range(2, 8):
            c.judge("CodecTrace", lib.run(b, ["damaged", 40000], c.tmp, "dam%d" % s, env={"VERIF_SEED": c.seed * 100 + s}), "damaged and arbitrary bytes")
            c.judge("CodecTrace", lib.run(b, ["foreign", 4000], c.tmp, "for%d" % s, env={"VERIF_SEED": c.seed * 100 + s}), "messages of another encoder")
    else:
        c.judge("CodecTrace", lib.run(b, ["foreign", 300], c.tmp, "foreign"), "messages of another encoder")


def C04(c):
    b = c.bin("h_codec")
    for cfg in (["BitsGenWide", "BitsGenDeep"] if c.deep else ["BitsGen"]):
        ((g, n),) = c.generate("BitsGen", cfg, heap="6g")
        c.judge("BitsTrace", lib.run(b, ["bits-file", g], c.tmp, cfg + ".t"), "all operation sequences to a depth")
    c.judge("BitsTrace", lib.run(b, ["bits", 40000 if c.deep else 3000], c.tmp, "rnd"), "long random operation sequences")
    c.judge("BitsTrace", lib.run(b, ["bitsbig", 160 if c.deep else 10], c.tmp, "big"), "buffers of more than 65536 bits")


def C05(c):
    b = c.bin("h_codec")
    c.judge("NamesTrace", lib.run(b, ["names", 20000 if c.deep else 3000], c.tmp, "names"), "comparisons of names")
    b = c.bin("h_ns")
    out = lib.run(b, ["ansrnd", 800 if c.deep else 30], c.tmp, "ans")
    for prop in ("N03", "N04"):
        c.judge("ServerTrace", out, "questions to the name server in any case", env={"ZONES": out + ".zones", "PROP": prop})
    r = Res(c, "truth succ fail nx chain panic")
    for how in ("glue", "glueless"):
        r.rnd("hist", 150, 6000, "lookups among servers that spell every name in a case of its own", how, "mixed")
