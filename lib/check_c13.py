"""C13: precision lookup and names."""
import re as _re
from stream import *


def annotate(path):
    """splits names into the numbers they contain (a tokenizer, no judgement)"""
    out = []
    for line in open(path):
        d = json.loads(line)
        if d["e"] in ("name", "namerun"):
            for v in d["v"]:
                v["nums"] = [int(x) for x in _re.findall(r"\d+", v["s"])]
                v["unknown"] = 1 if "unknown" in v["s"].lower() else 0
        out.append(json.dumps(d, separators=(",", ":")))
    open(path, "w").write("\n".join(out) + "\n")


def main():
    c = Check("C13")
    rng = c.rng
    variants = ["std", "o3lib"] + ([] if QUICK else ["clang", "o0", "nosse", "clanglib"])
    exes = build_many(variants)
    for v in variants:
        s = Script()
        s.stream(0, "i 1 1 0")
        top = 8192 if QUICK else 100000
        for a in range(0, top, 1024):
            s.case("range%d" % a, ["bits " + " ".join(map(str, range(a, a + 1024)))])
        edge = sorted({(1 << k) + d for k in range(33) for d in range(-3, 4) if 0 <= (1 << k) + d < 2 ** 32})
        edge += sorted({k * 65536 + lo for k in (1, 2, 255, 256, 32768, 65535) for lo in (0, 1, 2, 7, 8, 9, 12, 13, 16, 17, 20, 21, 24, 25, 65535)})
        s.case("edges", ["bits " + " ".join(map(str, edge))])
        s.case("random", ["bits " + " ".join(str(rng.getrandbits(32)) for _ in range(2000 if QUICK else 30000))])
        # all arguments, in 16 parts
        for q in range(16 if v == "std" or not QUICK else 0):
            s.case("all%d" % q, ["bitsrun %d %d" % (q << 28, (q + 1 << 28) - 1), "namerun %d %d" % ((q - 8) << 28, (q - 7 << 28) - 1)])
        names = [str(k) for k in list(range(-300, 600)) + [1000, 65536, 65537, 65544, 2 ** 31 - 1, -2 ** 31 + 1, -65528, 256 + 8, 256 + 24, 2 ** 24, 2 ** 24 + 16]]
        s.case("names", ["name " + " ".join(names)])
        for p in PRECS["F"]:
            s.case("ctor%d" % p, ["new 0 %s %d %d %d F" % (m, r, p, sse) for m in "UD" for r in (1, 2, 4, 8) for sse in (0, 1)])
        c.sample({"case": "edges", "ops": [s.cases["edges"][0][:300]]})
        run_stream_check(c, exes[v], s, None, aspects=[], name=v, module="Precision", parts=2, post=annotate)
        if c.violations:
            break
    return c.finish()
