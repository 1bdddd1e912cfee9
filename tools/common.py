"""Building, running TLC and the harness, writing evidence."""
import atexit, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
WORKERS = "8"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def repo_digest():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def cargo_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             CARGO_TARGET_DIR=os.path.join(HARNESS, "target"))
    for k in list(e):
        if k.startswith("CARGO_PROFILE_") or k in ("RUSTFLAGS", "CARGO_BUILD_TARGET"):
            del e[k]
    return e


def build_harness(release=False):
    """The harness, linked against /repo's working tree as it is now."""
    os.makedirs(BUILD, exist_ok=True)
    mode = "release" if release else "debug"
    stamp = os.path.join(BUILD, "digest-" + mode)
    want = repo_digest()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    exe = os.path.join(HARNESS, "target", mode, "vh")
    if have != want:
        # cargo compares mtimes only; make it look at the files again
        fp = os.path.join(HARNESS, "target", mode, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("eth_trie_utils-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path",
           os.path.join(HARNESS, "Cargo.toml")] + (["--release"] if release else [])
    p = subprocess.run(cmd, env=cargo_env(), cwd=HARNESS, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(exe):
        raise ToolError("building the harness failed:\n" + p.stdout[-4000:])
    if repo_digest() == want:
        with open(stamp, "w") as f:
            f.write(want)
    return exe


def build_classes():
    out = os.path.join(BUILD, "classes")
    src = os.path.join(SPEC, "java", "TrieOverrides.java")
    cls = os.path.join(out, "TrieOverrides.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return out
    os.makedirs(out, exist_ok=True)
    p = subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", out, src],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("javac failed:\n" + p.stdout)
    return out


# ------------------------------------------------------------------- running
class Run:
    """One run of one check: scratch directory, counters, verdict, evidence."""

    last = None

    def __init__(self, prop, level="model_checking"):
        Run.last = self
        self.prop, self.level = prop, level
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
        atexit.register(shutil.rmtree, self.dir, True)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.counts = [], [], {}
        self.violations, self.total = [], 0
        self.known = {}
        self.assumptions = []

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, obj):
        with open(self.path(name), "w") as f:
            if isinstance(obj, str):
                f.write(obj)
            else:
                json.dump(obj, f, separators=(",", ":"))
        return self.path(name)

    # ---- TLC
    def tlc(self, module, cfg=None, env=None, timeout=800, out=None, workers=WORKERS,
            extra=(), count=True, refuted=None):
        """Runs TLC to completion. Returns the path of its output. With `refuted`, TLC has
        to end with this exit code instead (12: invariant, 13: property, 11: deadlock)."""
        classes = build_classes()
        out = self.path(out or module + ".out")
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-Djava.io.tmpdir=" + meta,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:TrieOverrides",
               "-cp", ":".join([TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar", classes]),
               "tlc2.TLC", "-workers", workers, "-metadir", meta, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(extra) + \
              [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, env=e, cwd=meta, stdout=f, stderr=subprocess.STDOUT,
                                   timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on %s" % module)
        tail = self.plain(out)
        if refuted is not None:
            shutil.rmtree(meta, ignore_errors=True)
            if p.returncode != refuted:
                raise ToolError("%s with %s was not refuted (exit %d, expected %d):\n%s" % (
                    module, env, p.returncode, refuted, tail[-3000:]))
            log("[%s] TLC %s: wrong design %s refuted, %.1fs" % (
                self.prop, module, env.get("DESIGN") or env.get("RESET"), time.time() - t))
            self.counts["designs_refuted"] = self.counts.get("designs_refuted", 0) + 1
            return out
        if p.returncode != 0 or "No error has been found" not in tail:
            raise ToolError("TLC did not accept %s (exit %d):\n%s" % (module, p.returncode, tail[-6000:]))
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", tail)
        gen, dist = (int(x.replace(",", "")) for x in m.groups())
        if count:
            self.states += dist
            self.transitions += gen
        shutil.rmtree(meta, ignore_errors=True)
        log("[%s] TLC %s: %d states, %d transitions, %.1fs" % (self.prop, cfg or module, dist, gen, time.time() - t))
        self.last = (gen, dist)
        return out

    @staticmethod
    def plain(path):
        with open(path, errors="replace") as f:
            return "".join(l for l in f if not l.startswith('"{'))[-20000:]

    @staticmethod
    def records(path):
        with open(path) as f:
            for l in f:
                if l.startswith('"{'):
                    yield json.loads(json.loads(l))

    # ---- harness
    def harness(self, cmd, *args, release=False, env=None, timeout=800, prop=None):
        exe = build_harness(release)
        res = self.path("res-%s-%d.json" % (cmd, time.time_ns()))
        e = dict(os.environ)
        e.update({"VERIF_SEED": str(SEED), "VERIF_TIER": TIER})
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        try:
            p = subprocess.run([exe, cmd, prop or self.prop, res] + [str(a) for a in args], env=e,
                               cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out: " + cmd)
        if p.returncode in (-11, -6, -4, -8, -7):
            # the library brought the process down (stack overflow, abort)
            self.violate("crash", {"mismatch": "the process died with signal %d" % -p.returncode,
                                   "command": cmd, "stderr": p.stderr[-2000:]})
            return {"counts": {}, "samples": [], "violations": [], "total": 0, "known": {}}
        if p.returncode != 0 or not os.path.exists(res):
            raise ToolError("harness failed (%s, exit %d):\n%s" % (cmd, p.returncode, p.stderr[-3000:]))
        r = json.load(open(res))
        for k, v in r["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.samples += r["samples"]
        self.violations += r["violations"]
        self.total += r["total"]
        for k, v in r["known"].items():
            self.known.setdefault(k, v)
        log("[%s] harness %s%s: %.1fs, %d mismatches, %s" % (
            self.prop, cmd, " (release)" if release else "", time.time() - t, r["total"], r["counts"]))
        return r

    def validate(self, episodes, length, module="TrieTrace", cmd="record", prop=None, cap=3,
                 env=None, release=False):
        """Records executions of the implementation and lets TLC validate them."""
        tr = self.path("trace-%s.json" % module)
        self.harness(cmd, tr, episodes, length, prop=prop, env=env, release=release)
        if self.violations and self.violations[-1]["what"] in ("crash", "panic"):
            return
        out = self.tlc(module, env={"TRACE": tr}, out=module + ".trace.out")
        bad = [b for b in self.records(out) if b.get("q") == "BAD"]
        with open(tr) as f:
            eps = json.load(f)
        # an episode is its list of events, or has them next to other observations
        hist = [e if isinstance(e, list) else e["ops"] for e in eps]
        steps = sum(len(h) for h in hist)
        want = steps + sum(1 if isinstance(e, list) else 3 for e in eps)
        if not bad and self.last[1] != want:
            raise ToolError("trace validation covered %d of %d steps" % (self.last[1], want))
        self.traces += len(eps)
        self.counts["trace_events"] = self.counts.get("trace_events", 0) + steps
        for b in bad[:cap]:
            e, h = eps[b["ep"] - 1], hist[b["ep"] - 1]
            self.violate("trace", {"episode": b["ep"], "event": b["i"],
                                   "rejected": h[b["i"] - 1] if 1 <= b["i"] <= len(h) else b.get("why"),
                                   "history": h[:b["i"]], **({} if e is h else {"recorded": e})})
        self.total += max(0, len(bad) - cap)
        if eps and hist[0]:
            self.samples.append({"kind": "validated trace", "first_events": hist[0][:3]})

    def violate(self, what, detail):
        self.total += 1
        if len(self.violations) < 5:
            self.violations.append({"what": what, "detail": detail})

    # ---- verdict
    def finish(self, exhaustive=None):
        known = load_known()
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6] or [{"note": "none recorded"}],
               "counts": self.counts, "notes": self.notes}
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": self.total}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for kid, (n, detail) in sorted(self.known.items()):
            k = known.get((self.prop, kid))
            if k is None:
                self.violate("unlisted finding " + kid, detail)
            else:
                print("KNOWN-FINDING: property=%s %s (%d occurrences)" % (self.prop, k, n))
        if self.total:
            d = os.path.join(BUILD, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (self.prop, TIER, SEED))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": SEED, "tier": TIER, "total": self.total,
                           "violations": self.violations}, f, indent=1)
            for v in self.violations[:3]:
                log(json.dumps(v)[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
            self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0


def load_known():
    """KNOWN_FINDINGS: `known: property=<id> id=<finding> <what fails>`."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.md")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out
