"""N01-N04 (the servers), C03 (transports)."""
import os
from . import lib


def _judge(c, out, what, prop=None):
    return c.judge("ServerTrace", out, what, env={"ZONES": out + ".zones", "PROP": prop or c.pid})


def _generated(c, b):
    ((g, n),) = c.generate("AnsGen", "AnsGenDeep" if c.deep else "AnsGenMid")
    _judge(c, lib.run(b, ["ans", g], c.tmp, "ans"), "every question to every generated zone")


def _random(c, b):
    _judge(c, lib.run(b, ["ansrnd", 2000 if c.deep else 60], c.tmp, "rnd"), "questions to random zones, directly and over UDP and TCP")


def _serve(c, b):
    _judge(c, lib.run(b, ["serve", 20000 if c.deep else 1500], c.tmp, "serve", timeout=800), "requests of every kind over UDP and TCP")
    if c.deep:
        for s in range(2, 6):
            _judge(c, lib.run(b, ["serve", 15000], c.tmp, "serve%d" % s, timeout=800, env={"VERIF_SEED": c.seed * 100 + s}), "requests of every kind over UDP and TCP")


def _resolver(c):
    b = c.bin("h_rs")
    _judge(c, lib.run(b, ["serve", 12000 if c.deep else 800], c.tmp, "rserve", timeout=800), "requests of every kind to the resolver's servers over UDP and TCP")


def N01(c):
    b = c.bin("h_ns")
    _serve(c, b)
    _random(c, b)
    _resolver(c)


N02 = N01


def N03(c):
    b = c.bin("h_ns")
    _generated(c, b)
    _random(c, b)


N04 = N03


def C03(c):
    b = c.bin("h_ns")
    c.judge("CutTrace", lib.run(b, ["cut", 6000 if c.deep else 700], c.tmp, "cut", timeout=800), "prepared replies over UDP and TCP")
    c.judge("CutTrace", lib.run(b, ["cutns", 100 if c.deep else 15], c.tmp, "cutns", timeout=800), "answers of the name server over UDP and TCP")
