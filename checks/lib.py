"""Shared machinery of the checks: building the harness, running TLC, judging recorded
traces with TLC in parallel, evidence and verdicts."""
import hashlib, json, os, re, shutil, subprocess, sys, time, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
SPEC = os.path.join(VERIF, "spec")
KNOWN = os.path.join(VERIF, "known_findings.txt")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8


_seen_failure = []


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------- build
def _stamp():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness", "Cargo.toml")):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build(binary):
    """Build one harness binary against the current tree of /repo; returns its path."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stampf = os.path.join(BUILD, "stamp")
        st = _stamp()
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        old = open(stampf).read() if os.path.exists(stampf) else ""
        hd = os.path.join(VERIF, "harness")
        if old != st:
            # cargo judges freshness by modification times, which copies may not preserve
            subprocess.run(["cargo", "clean", "--offline", "-p", "ariadne-dns", "-p", "harness"], cwd=hd, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--bin", binary], cwd=hd, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log(r.stdout[-4000:])
            raise ToolError("harness build failed")
        open(stampf, "w").write(st)
    return os.path.join(TARGET, "debug", binary)


def programs():
    """Build the repository's two programs, and the library that is put under them; returns
    the directory of the programs and the path of the library."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        bins, shim = os.path.join(BUILD, "bins"), os.path.join(BUILD, "preload.so")
        src = os.path.join(VERIF, "harness", "preload.c")
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log(r.stdout[-4000:])
            raise ToolError("preload library does not compile")
        stampf, st = os.path.join(BUILD, "stamp.bins"), _stamp()
        old = open(stampf).read() if os.path.exists(stampf) else ""
        # the sources are copied: nothing is written in the repository
        work = os.path.join(BUILD, "src")
        if old != st:
            shutil.rmtree(work, ignore_errors=True)
            os.makedirs(work)
            for n in ("Cargo.toml", "Cargo.lock", "build.rs"):
                if os.path.exists(os.path.join(REPO, n)):
                    shutil.copy(os.path.join(REPO, n), work)
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(work, "src"))
        env = dict(os.environ, CARGO_TARGET_DIR=bins, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        if old != st:
            subprocess.run(["cargo", "clean", "--offline", "-p", "ariadne-dns"], cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--bins"], cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log(r.stdout[-4000:])
            raise ToolError("the programs do not compile")
        open(stampf, "w").write(st)
    return os.path.join(bins, "debug"), shim


# --------------------------------------------------------------------------- TLC
def tlc(module, env=None, cfg=None, workers=1, heap="3g", timeout=800, keep=None, args=()):
    """Run TLC; returns dict(out, states, distinct, ok)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=BUILD)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", "-Xss256m", "-Xmx" + heap, gc, "-XX:+UseStringDeduplication", "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers",
           str(workers), "-metadir", meta, "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
        out = r.stdout
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out, re.M)
    gen, dis = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    ok = "Model checking completed. No error has been found." in out
    return dict(out=out, states=dis, transitions=gen, ok=ok, rc=r.returncode)


def design(module, cfg=None, workers=8, **kw):
    """Exhaustive check of a design model: an error here means the specification itself is
    inconsistent with the property, which is a defect of the machinery, not of the code."""
    r = tlc(module, cfg=cfg, workers=workers, **kw)
    if not r["ok"]:
        log(r["out"][-6000:])
        raise ToolError("design model %s/%s does not hold" % (module, cfg or module))
    log("design %s: %d states" % (cfg or module, r["states"]))
    return r


def refuted(module, cfg, **kw):
    """The design model without one of its rules must have a counterexample: the rule is needed."""
    r = tlc(module, cfg=cfg, workers=4, **kw)
    if "is violated." not in r["out"]:
        log(r["out"][-3000:])
        raise ToolError("design model %s/%s should not hold" % (module, cfg))
    log("design %s: refuted after %d states" % (cfg, r["states"]))
    return r


def split(trace, tmp, n, weight=None):
    """Distribute the lines of a trace over n files, balancing their size."""
    lines = [l for l in open(trace, errors="replace") if l.strip()]
    if not lines:
        raise ToolError("empty trace " + trace)
    n = max(1, min(n, (len(lines) + 49) // 50))
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    load = [0] * n
    part = [[] for _ in range(n)]
    for i in order:
        k = load.index(min(load))
        part[k].append(i)
        load[k] += len(lines[i]) + 200
    files = []
    for k in range(n):
        f = os.path.join(tmp, "%s.%d" % (os.path.basename(trace), k))
        with open(f, "w") as o:
            for i in sorted(part[k]):
                o.write(lines[i])
        files.append((f, len(part[k])))
    return files, lines


def judge(module, trace, tmp, env=None, heap="3g", timeout=800, procs=NPROC, mode="bad", done=False):
    """Validate a recorded trace (one case per line, with its number in field i) against a
    trace specification.  mode "bad": the module prints <<"BAD", i>> for a case that is no
    behaviour of the specification.  mode "ok": it prints <<"OK", i>> for a case that is.
    done: the module takes several steps per case and prints <<"DONE", cases>> at the end."""
    files, lines = split(trace, tmp, procs)

    def one(fk):
        f, k = fk
        e = dict(env or {})
        e["TRACE"] = f
        r = tlc(module, env=e, heap=heap, timeout=timeout)
        if not r["ok"] or (mode == "bad" and (('<<"DONE", %d>>' % k) not in r["out"] if done else r["states"] != k + 1)):
            if not _seen_failure:
                _seen_failure.append(1)
                log("\n".join([l for l in r["out"].splitlines() if not l.startswith(("Parsing", "Semantic proc"))][-40:])[-4000:])
            raise ToolError("TLC failed on %s with %s" % (module, f))
        return r

    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, files))
    bad, notes, okset, counts = [], [], set(), {}
    for r in rs:
        bad += [int(x) for x in re.findall(r'^<<"BAD", (\d+)>>', r["out"], re.M)]
        okset |= {int(x) for x in re.findall(r'^<<"OK", (\d+)>>', r["out"], re.M)}
        notes += re.findall(r'^<<"EXPECTED", .*$', r["out"], re.M)[:3]
        for x in re.findall(r'^<<"COUNT", (.*)>>$', r["out"], re.M):
            for a, b in json.loads(json.loads(x)).items():
                counts[a] = counts.get(a, 0) + b
    cases = {}
    for l in lines:
        try:
            v = json.loads(l)
            cases[v["i"]] = v
        except Exception:
            pass
    if mode == "ok":
        bad = [i for i in cases if i not in okset]
    return dict(bad=sorted(bad), cases=cases, n=len(lines), states=sum(r["states"] for r in rs),
                transitions=sum(r["transitions"] for r in rs), notes=notes, counts=counts)


# --------------------------------------------------------------------------- harness
def run(binp, args, tmp, name, timeout=600, env=None, files=None):
    """Run a harness sub-command that writes NDJSON cases to <tmp>/<name>."""
    out = os.path.join(tmp, name)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    p = subprocess.Popen([binp, args[0], out, *map(str, args[1:])], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", cwd=tmp)
    try:
        so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise ToolError("harness %s timed out" % args[0])
    if p.returncode != 0:
        cur = ""
        try:
            cur = open(out + ".cur").read().strip()
        except OSError:
            pass
        if cur:
            v = json.loads(cur.splitlines()[0])
            v["r"] = {"ok": False, "why": "abort"}
            # keep only complete lines already written
            ls = [l for l in open(out, errors="replace").read().split("\n")]
            if ls and not _isjson(ls[-1]):
                ls = ls[:-1]
            with open(out, "w") as f:
                for l in ls:
                    if l:
                        f.write(l + "\n")
                f.write(json.dumps(v, separators=(",", ":")) + "\n")
            log("harness died (%s) on a case" % p.returncode)
        else:
            log(so[-1500:], se[-3000:])
            raise ToolError("harness %s failed (%s)" % (args[0], p.returncode))
    return out


def _isjson(l):
    try:
        json.loads(l)
        return True
    except Exception:
        return False


# --------------------------------------------------------------------------- verdict
class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.deep = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        os.environ["VERIF_SEED"] = str(self.seed)
        os.environ["VERIF_TIER"] = tier
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=pid + "_", dir=BUILD)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.known, self.parts = [], [], [], {}
        self.assumptions = []
        self.knownset = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == pid:
                    self.knownset[m.group(2)] = m.group(3).strip()

    def bin(self, b):
        return build(b)

    def design(self, module, cfg=None, **kw):
        r = design(module, cfg, **kw)
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.parts[cfg or module] = {"states": r["states"], "transitions": r["transitions"]}
        return r

    def refuted(self, module, cfg, **kw):
        r = refuted(module, cfg, **kw)
        self.parts[cfg] = {"states": r["states"], "counterexample": "as expected"}

    def judge(self, module, trace, what, keyf=None, shrinkf=None, **kw):
        r = judge(module, trace, self.tmp, **kw)
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.traces += r["n"]
        p = self.parts.setdefault(what, {"traces": 0, "rejected": 0})
        p["traces"] += r["n"]
        p["rejected"] += len(r["bad"])
        for a, b in r["counts"].items():
            p["verdict_" + a] = p.get("verdict_" + a, 0) + b
        if r["cases"]:
            ks = sorted(r["cases"])
            for k in (ks[0], ks[len(ks) // 2]):
                s = json.dumps(r["cases"][k], separators=(",", ":"))
                if len(self.samples) < 8:
                    self.samples.append({"check": what, "case": s[:700]})
        for b in r["bad"]:
            self.fail(what, r["cases"].get(b), r["notes"], module, keyf)
        return r

    def fail(self, what, case, notes=None, module=None, keyf=None):
        if keyf and case is not None:
            k = keyf(case)
            if k in self.knownset:
                self.known.append((k, case))
                return
        self.viol.append(dict(what=what, module=module, case=case, notes=(notes or [])[:2]))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:8], parts=self.parts)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.viol))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted({k for k, _ in self.known}):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, self.knownset[k]))
        rc = 0
        if self.viol:
            rd = os.path.join(BUILD, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%d.json" % (self.pid, os.getpid()))
            with open(rp, "w") as f:
                json.dump(self.viol[:50], f, indent=1)
            v = self.viol[0]
            log("%d violation(s); first: %s" % (len(self.viol), json.dumps(v)[:3000]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            rc = 1
        else:
            print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.tier, self.states, self.traces, time.time() - self.t0))
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc


# --------------------------------------------------------------------------- generation
def _generate(self, module, cfg=None, tags=("GEN",), **kw):
    """Check a generator model with TLC and collect the behaviours it prints, as NDJSON files."""
    r = self.design(module, cfg, **kw)
    outs = []
    for t in tags:
        pre = '<<"%s", ' % t
        seen = set()
        f = os.path.join(self.tmp, "%s.%s.gen" % (cfg or module, t))
        with open(f, "w") as o:
            for l in r["out"].split("\n"):
                if l.startswith(pre) and l.endswith(">>"):
                    s = l[len(pre):-2]
                    if s in seen:
                        continue
                    seen.add(s)
                    o.write(json.loads(s) + "\n")
        if not seen:
            raise ToolError("generator %s printed nothing" % module)
        outs.append((f, len(seen)))
    return outs


Check.generate = _generate
