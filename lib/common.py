"""Driver shared by all checks: cases, worker processes, verdicts, replays, evidence, known findings.

A check module (checks/cNN.py) has
    PROP, RULE, KINDS (builds it needs), HARNESS (optional)
    def plan(tier) -> number of cases
    def case(env, i, rng) -> Out         one case; its oracle looks only at what the run did
    def finish(env, total) -> Out        optional, runs once after all cases
Verdicts of one case: held, violated, inconclusive (the run gave no answer, for example it timed out on
a loaded machine).  A violation is run again before it is believed.
"""
import collections, hashlib, importlib, json, multiprocessing, os, random, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

from build import build, BuildError, VERIF, REPO, SRC

Run = collections.namedtuple("Run", "rc out err timeout")
TIMEOUT = 20
SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=99",
}


def _limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Out:
    """What one case observed."""
    __slots__ = ("evals", "keys", "stats", "samples", "viol", "inconclusive")

    def __init__(self):
        self.evals = 0
        self.keys = set()          # identities of distinct non-trivial observations
        self.stats = collections.Counter()
        self.samples = []
        self.viol = []
        self.inconclusive = 0

    def ev(self, n=1):
        self.evals += n

    def key(self, k):
        self.keys.add(hashlib.blake2b(repr(k).encode(), digest_size=8).digest())

    def violation(self, what, **files):
        """files: name -> text/bytes saved with the replay"""
        self.viol.append((what, files))

    def merge(self, o, cap=6):
        self.evals += o.evals
        self.keys |= o.keys
        self.stats += o.stats
        if len(self.samples) < cap:
            self.samples.extend(o.samples[: cap - len(self.samples)])
        self.viol.extend(o.viol)
        self.inconclusive += o.inconclusive


class Env:
    def __init__(self, prop, tier, seed, builds):
        self.prop, self.tier, self.seed, self.builds = prop, tier, seed, builds
        self.dir = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def exe(self, kind="plain", name="pasm"):
        return os.path.join(self.builds[kind], name)

    def scratch(self):
        if self.dir is None or not os.path.isdir(self.dir):
            self.dir = tempfile.mkdtemp(prefix="w", dir=self.root)
        return self.dir

    def clean(self):
        d = self.scratch()
        for n in os.listdir(d):
            p = os.path.join(d, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)

    def run(self, args, kind="plain", cwd=None, timeout=None, name="pasm", stdin=None, environ=None):
        """Runs one of our builds. A run that times out is run once more with three times the limit."""
        cmd = [self.exe(kind, name)] + list(args)
        timeout = timeout or (TIMEOUT if kind == "plain" else 3 * TIMEOUT)
        for t in (timeout, 3 * timeout):
            e = dict(PATH="/usr/bin:/bin", LC_ALL="C", **(SAN if kind != "plain" else {}), **(environ or {}))
            if kind == "plain":
                resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.RLIM_INFINITY))
            # ends a run that never ends by itself, when the check is killed before it can do so
            resource.setrlimit(resource.RLIMIT_CPU, (int(time.process_time() + t + 20), resource.RLIM_INFINITY))
            p = subprocess.Popen(cmd, cwd=cwd or self.scratch(), stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
            resource.setrlimit(resource.RLIMIT_CPU, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            if kind == "plain":
                resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            try:
                out, err = p.communicate(stdin, timeout=t)
                return Run(p.returncode, out, err, False)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
        return Run(None, b"", b"", True)

    def write(self, name, data):
        p = os.path.join(self.scratch(), name)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("latin-1"))
        return p

    def read(self, name):
        p = os.path.join(self.scratch(), name)
        try:
            with open(p, "rb") as f:
                return f.read()
        except OSError:
            return None

    def remove(self, *names):
        for n in names:
            try:
                os.unlink(os.path.join(self.scratch(), n))
            except OSError:
                pass


# what a finished run was: ok, error (it said no), crash (signal or sanitizer), hang
def classify(r):
    if r.timeout:
        return "hang"
    if b"AddressSanitizer" in r.err or b"runtime error:" in r.err or b"UndefinedBehaviorSanitizer" in r.err:
        return "crash"
    if r.rc < 0 or r.rc == 99 or r.rc in (134, 136, 139):
        return "crash"
    return "ok" if r.rc == 0 else "error"


_G = {}


def _init(root):
    _limits()
    _G["env"].root = root
    _G["env"].dir = None
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _one(i):
    env, mod = _G["env"], _G["mod"]
    try:
        o = Out()
        r = mod.case(env, i, random.Random("%s/%d/%d" % (env.prop, env.seed, i)))
        o = r if isinstance(r, Out) else o
        if o.viol and not getattr(mod, "NO_RECHECK", False):
            r2 = mod.case(env, i, random.Random("%s/%d/%d" % (env.prop, env.seed, i)))
            if not r2.viol:
                o.stats["not reproduced"] += 1
                o.inconclusive += 1
                o.viol = []
        return i, o, None
    except Exception:
        return i, None, traceback.format_exc()


def load_known(prop):
    """lines of known_findings.txt for this property: [(key, text)]"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                res.append((key[4:] if key.startswith("key=") else key, text))
    return res


def main(prop, tier, seed):
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = importlib.import_module(prop.lower())
    assert mod.PROP == prop
    try:
        builds = build(getattr(mod, "KINDS", ("plain",)), {k: os.path.join(VERIF, v) for k, v in getattr(mod, "HARNESS", {}).items()})
    except BuildError as e:
        print("harness: build failed\n%s" % e)
        return 3
    env = Env(prop, tier, seed, builds)
    _G["env"], _G["mod"] = env, mod
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    root = tempfile.mkdtemp(prefix="pasmv-", dir=base)
    os.chmod(root, 0o777)
    env.root = root
    total = Out()
    fails = []
    known_seen = collections.Counter()
    try:
        n = mod.plan(tier)
        jobs = min(8, os.cpu_count() or 8)
        maxviol = 12
        kk = {k for k, _ in load_known(prop)}
        with multiprocessing.Pool(jobs, _init, (root,)) as pool:
            chunk = max(1, min(16, n // (jobs * 8) or 1))
            for i, o, err in pool.imap_unordered(_one, range(n), chunk):
                if err:
                    fails.append((i, err))
                    if len(fails) > 20:
                        break
                else:
                    total.merge(o)
                if sum(f.get("known_key") not in kk for _, f in total.viol) >= maxviol:
                    break
            pool.terminate()
        if hasattr(mod, "finish") and not fails:
            total.merge(mod.finish(env, total) or Out())
    finally:
        shutil.rmtree(root, ignore_errors=True)

    # known findings: identified by a key the check attaches, (key, what)
    known = dict(load_known(prop))
    viol = []
    for what, files in total.viol:
        k = files.pop("known_key", None)
        if k is not None and k in known:
            known_seen[k] += 1
        else:
            viol.append((what, files))
    for k, text in known.items():
        if known_seen[k]:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))

    if fails:
        print("harness: %d case(s) failed\n%s" % (len(fails), fails[0][1]))
    status = 0
    if viol:
        status = 1
        rd = os.path.join(VERIF, "replays", prop)
        shutil.rmtree(rd, ignore_errors=True)
        for k, (what, files) in enumerate(viol[:6]):
            d = os.path.join(rd, "%d" % k)
            os.makedirs(d)
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(d, VERIF)), flush=True)
            with open(os.path.join(d, "what.txt"), "w", errors="surrogateescape") as f:
                f.write(what + "\n")
            for name, data in files.items():
                if data is None:
                    continue
                name = name.replace("/", "_")
                if len(os.fsencode(name)) > 120:        # longer names are not always possible
                    name = "%s..%s" % (name[:20], name[-20:])
                mode = "wb" if isinstance(data, bytes) else "w"
                try:
                    with open(os.path.join(d, name), mode, **({} if mode == "wb" else {"errors": "surrogateescape"})) as f:
                        f.write(data)
                except (OSError, ValueError) as e:
                    print("  (%s was not saved: %s)" % (ascii(name), e))
            print("  " + what.replace("\n", "\n  ")[:1500].encode("utf-8", "backslashreplace").decode())
    elif fails:
        status = 3
    need = getattr(mod, "MIN_KEYS", 2)
    if status == 0 and (total.evals == 0 or len(total.keys) < need):
        print("harness: the run observed too little (%d evaluations, %d distinct)" % (total.evals, len(total.keys)))
        status = 3
    if status == 0 and total.inconclusive * 20 > max(total.evals, 1):
        print("harness: %d inconclusive of %d" % (total.inconclusive, total.evals))
        status = 3
    wall = round(time.time() - t0, 2)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evals, "distinct_nontrivial": len(total.keys), "rule": mod.RULE,
            "samples": total.samples[:6] or ["none"], "cases": n, "observed": dict(sorted(total.stats.items())),
            "inconclusive": total.inconclusive,
            "known_findings_seen": dict(known_seen),
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": wall, "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    print("%s %s seed=%d: %d evaluations, %d distinct, %d inconclusive, %d violation(s), %.1f s" % (
        prop, tier, seed, total.evals, len(total.keys), total.inconclusive, len(viol), wall))
    return status
