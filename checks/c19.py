"""C19: random histories of dictionary operations in process (harness/dict.cc) against a map model, under AddressSanitizer."""
import re
from common import classify, Out

PROP = "C19"
KINDS = ("asan",)
HARNESS = {"h_dict": "harness/dict.cc"}
MIN_KEYS = 60
RULE = ("distinct (key kind, pool size class, growth steps, counts of operations) of whole histories in which every returned value, every pointer and every visit agreed with the model, "
        "no sanitizer report came and every block allocated was freed")
ASSUME = ["keys are compared without regard to letter case, deleting uncovers the entry stored before under the same key (the interface's comments)"]


def plan(tier):
    return 480 if tier == "quick" else 6000


def case(env, i, rng):
    o = Out()
    mode = "sp"[i % 4 == 3] + "bbms"[i // 4 % 4]
    ops = rng.choice((200, 2000, 12000, 12000)) if not env.thorough else rng.choice((200, 2000, 12000, 60000))
    args = [str(rng.randrange(1 << 40)), str(ops), mode]
    r = env.run(args, kind="asan", name="h_dict")
    st = classify(r)
    text = (r.out + r.err).decode("latin-1")
    if st == "hang":
        o.inconclusive += 1
        return o
    if st == "ok" and r.out.startswith(b"ok "):
        c = {k: int(v) for k, v in re.findall(r"(\w+)=(-?\d+)", text)}
        for k, v in c.items():
            if k not in ("maxkeys",):
                o.stats[k] += v
        o.ev(sum(c[k] for k in ("inserts", "finds", "absent", "deletes", "visits")))
        o.stats["histories"] += 1
        o.stats["histories with %s growth steps" % (c["growths"] if c["growths"] < 4 else "4 or more")] += 1
        o.key((mode, c["growths"], c["maxkeys"].bit_length(), c["inserts"], c["deletes"]))
        if i < 6:
            o.samples.append("h_dict %s: %s" % (" ".join(args), text.strip()))
        return o
    o.ev()
    o.violation("dictionary history %s: %s" % (" ".join(args), text.strip()[:600]), **{"cmd.txt": "h_dict " + " ".join(args) + "\n", "out.txt": text[:20000]})
    return o
