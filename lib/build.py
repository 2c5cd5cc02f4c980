"""Builds /repo's working tree (pasm and eolconvert) out of tree, keyed by the content of its sources.

Kinds: plain (-O2 -DNDEBUG), asan (-O1, AddressSanitizer + UndefinedBehaviorSanitizer, no recovery).
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PASM_REPO", "/repo")
SRC = os.path.join(REPO, "CMakePasm", "source")
EOL = os.path.join(REPO, "CMakePasm", "eolconvert")
CACHE = os.path.join(VERIF, ".build")

FLAGS = {
    "plain": ["-O2", "-g", "-DNDEBUG"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
}


class BuildError(Exception):
    pass


def _sources():
    out = []
    for root in (SRC, EOL):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cc", ".cpp", ".c", ".h", ".hpp", ".y", ".l")):
                    out.append(os.path.join(d, f))
    return out


def tree_hash(extra=()):
    h = hashlib.sha256()
    for f in _sources() + list(extra):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
        h.update(b"\0")
    h.update(repr(sorted(FLAGS.items())).encode())
    return h.hexdigest()[:20]


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def _compile_all(units, flags, incs, out, jobs=8):
    def one(u):
        o = os.path.join(out, os.path.basename(u) + ".o")
        _run(["g++", "-std=c++17", "-w", "-c"] + incs + flags + [u, "-o", o])
        return o
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, units))


def build(kinds=("plain",), harness=None):
    """Returns {kind: directory}. Each directory holds pasm, eolconvert and, if asked for, the harnesses:
    harness = {name: path of a .cc under /verif} linked with the objects of pasm other than main.cc."""
    harness = harness or {}
    key = tree_hash(sorted(harness.values()))
    base = os.path.join(CACHE, key)
    os.makedirs(CACHE, exist_ok=True)
    res = {}
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # keep the cache small
        olds = sorted((d for d in glob.glob(os.path.join(CACHE, "*")) if os.path.isdir(d) and d != base),
                      key=os.path.getmtime)
        for d in olds[:-5]:
            shutil.rmtree(d, ignore_errors=True)
        for kind in kinds:
            out = os.path.join(base, kind + ("-h" if harness else ""))
            done = os.path.join(out, "done")
            if not os.path.exists(done):
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                gen = os.path.join(out, "gen")
                os.makedirs(gen)
                _run(["bison", "-rall", "--defines=" + gen + "/pasm.tab.h", "-o", gen + "/pasm.tab.cc",
                      os.path.join(SRC, "pasm.y")], cwd=gen)
                _run(["flex", "-o", gen + "/pasm.flex.cc", os.path.join(SRC, "pasm.l")], cwd=gen)
                units = sorted(glob.glob(os.path.join(SRC, "*.cc"))) + [gen + "/pasm.tab.cc", gen + "/pasm.flex.cc"]
                incs = ["-I" + SRC, "-I" + gen]
                flags = FLAGS[kind]
                objs = _compile_all(units, flags, incs, out)
                _run(["g++"] + flags + objs + ["-o", os.path.join(out, "pasm")])
                eu = sorted(glob.glob(os.path.join(EOL, "*.cc")))
                eo = os.path.join(out, "eol")
                os.makedirs(eo)
                eobjs = _compile_all(eu, flags, ["-I" + EOL], eo)
                _run(["g++"] + flags + eobjs + ["-o", os.path.join(out, "eolconvert")])
                rest = [o for o in objs if not o.endswith("/main.cc.o")]
                for name, path in harness.items():
                    ho = os.path.join(out, name + ".o")
                    _run(["g++", "-std=c++17", "-w", "-c"] + incs + flags + [path, "-o", ho])
                    _run(["g++"] + flags + [ho] + rest + ["-o", os.path.join(out, name)])
                shutil.rmtree(gen, ignore_errors=True)
                for o in glob.glob(os.path.join(out, "*.o")) + glob.glob(os.path.join(eo, "*.o")):
                    os.unlink(o)
                open(done, "w").close()
            os.utime(base)
            res[kind] = out
    return res


if __name__ == "__main__":
    print(build(tuple(sys.argv[1:]) or ("plain", "asan")))
