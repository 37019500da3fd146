"""Try hand-written changes quickly: trial.py SPEC.py [NAME…]   (a measure of the checks, not a check)

SPEC defines T = [(name, "C05[,C11…]", [(file, old, new[, n]), …]), …]. Each change is made in a copy of /repo under /tmp, goes
through the stable tests, and then through the checks named; prints TESTFAIL, CAUGHT or MISSED for each."""
import json
import os
import subprocess
import sys
from multiprocessing import Pool, current_process

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
SH = {"f": "fibertree/core/fiber.py", "i": "fibertree/core/iterators.py", "t": "fibertree/core/tensor.py",
      "r": "fibertree/core/rank.py", "ra": "fibertree/core/rank_attrs.py", "p": "fibertree/core/payload.py",
      "cp": "fibertree/core/coord_payload.py", "m": "fibertree/core/metrics.py", "mc": "fibertree/model/compute.py",
      "mf": "fibertree/model/format.py", "mi": "fibertree/model/intersect.py", "mt": "fibertree/model/traffic.py",
      "c": "fibertree/codec/tensor_codec.py", "ct": "fibertree/codec/compression_types.py",
      "cf": "fibertree/codec/formats/compression_format.py", "cu": "fibertree/codec/formats/uncompressed.py",
      "cl": "fibertree/codec/formats/coord_list.py", "cb": "fibertree/codec/formats/bitvector.py"}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def one(t):
    name, props, edits = t
    wt = f"/tmp/tr_{os.getpid()}_{name}"
    sh(f"rm -rf {wt}; cp -a /repo {wt}; rm -rf {wt}/.git")
    try:
        for f, old, new, *n in edits:
            p = os.path.join(wt, SH.get(f, f))
            s = open(p).read()
            want = n[0] if n else 1
            if not s.count(old) or s.count(old) != want and want:
                return name, f"BADSPEC {s.count(old)} occurrences of {old!r}"
            if isinstance(new, tuple):      # the k-th occurrence only
                k, new = new
                parts = s.split(old)
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
        out = f"{wt}.json"
        # the tests use fixed names in /tmp, so they get a lock
        sh(f"sed 's#/repo#{wt}#g; s#/opt/vp/report.xml#{wt}.xml#' /opt/vp/test.sh > {wt}.sh; flock /tmp/tr.lock bash {wt}.sh {out}")
        try:
            missing = sorted(set(BASE["stable"]) - set(json.load(open(out))["passed"]))
        except OSError:
            return name, "TESTFAIL (no result)"
        if missing:
            return name, f"TESTFAIL {len(missing)} {missing[0]}"
        res = []
        for c in props.split(","):
            r = sh(f"VERIF_REPO={wt} VERIF_JOBS=4 VF_STOP_FIRST=1 python3 {VERIF}/run.py {c}")
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            hint = r.stdout.splitlines()[2].strip()[:110] if v and len(r.stdout.splitlines()) > 2 else ""
            res.append(f"{c} " + (f"CAUGHT {hint}" if r.returncode == 1 and v else f"MISSED rc {r.returncode} {r.stderr[-200:]}"))
        return name, "; ".join(res)
    finally:
        sh(f"rm -rf {wt} {wt}.json {wt}.xml {wt}.sh")


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    todo = [t for t in ns["T"] if len(sys.argv) < 3 or t[0] in sys.argv[2:]]
    with Pool(4) as pool:
        for name, r in pool.imap_unordered(one, todo, 1):
            print(f"{name:34s} {r}", flush=True)
