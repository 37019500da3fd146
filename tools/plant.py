"""Create and validate a planted bug: plant.py SPEC.py  (SPEC defines ID, PROP, EDITS=[(file, old, new[, n])], DEMO, NEEDS, BREAKS)

Works in a scratch worktree; writes seeded/<ID>/ only when the stable tests pass with the patch and the demo tells the two trees
apart. Prints which of the checks given by CHECKS (default: the property's own) catch it."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def main(path):
    spec = {}
    exec(open(path).read(), spec)
    pid, wt = spec["ID"], f"/tmp/wt_{spec['ID']}"
    sh(f"rm -rf {wt}; git -C /repo worktree prune; git -C /repo worktree add -q --detach {wt} HEAD")
    try:
        for e in spec["EDITS"]:
            f, old, new = e[:3]
            p = os.path.join(wt, f)
            s = open(p).read()
            n = s.count(old)
            want = e[3] if len(e) > 3 else 1
            assert n >= 1 and (n == want or want == 0), f"{pid}: {f}: {n} occurrences of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {wt} diff").stdout
        assert diff.strip()
        # every changed line must be one of the original repository
        base, cur = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip(), None
        for ln in diff.splitlines():
            if ln.startswith("--- a/"):
                cur = set(sh(f"git -C /repo show {base}:{ln[6:]}").stdout.splitlines())
            elif ln.startswith("-") and ln[1:].strip():
                assert ln[1:] in cur, f"{pid}: not an original line: {ln}"
        out = f"/tmp/{pid}.json"
        t = sh(f"sed 's#/repo#{wt}#g; s#/opt/vp/report.xml#/tmp/report_{pid}.xml#' /opt/vp/test.sh > /tmp/test_{pid}.sh; bash /tmp/test_{pid}.sh {out}")
        d = json.load(open(out))
        missing = sorted(set(BASE["stable"]) - set(d["passed"]))
        if missing:
            print(f"{pid}: tests fail: {missing[:5]}")
            return 1
        demo = f"/tmp/demo_{pid}"
        os.makedirs(demo, exist_ok=True)
        open(f"{demo}/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        open(f"{demo}/demo.py", "w").write(spec["DEMO"].lstrip("\n"))
        a = sh(f"cd /repo && bash {demo}/demo.sh")
        b = sh(f"cd {wt} && bash {demo}/demo.sh")
        if a.returncode != 0 or b.returncode == 0:
            print(f"{pid}: demo: clean rc {a.returncode}, patched rc {b.returncode}\n{a.stdout}{a.stderr[-1500:]}\n--\n{b.stdout}{b.stderr[-800:]}")
            return 1
        dst = f"{VERIF}/seeded/{pid}"
        os.makedirs(dst, exist_ok=True)
        open(f"{dst}/patch.diff", "w").write(diff)
        for n in ("demo.sh", "demo.py"):
            open(f"{dst}/{n}", "w").write(open(f"{demo}/{n}").read())
        json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                  open(f"{dst}/meta.json", "w"), indent=1)
        for c in spec.get("CHECKS", [spec["PROP"]]):
            r = sh(f"VERIF_REPO={wt} python3 {VERIF}/run.py {c}")
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            print(f"{pid}: {c} rc {r.returncode} {'CAUGHT ' + str(len(v)) if r.returncode == 1 and v else 'MISSED'}"
                  f"  [{r.stdout.splitlines()[2].strip()[:160] if v else ''}]")
    finally:
        out = f"/tmp/{pid}.json"
        sh(f"rm -rf {wt} /tmp/demo_{pid} /tmp/test_{pid}.sh /tmp/report_{pid}.xml {out}; git -C /repo worktree prune")


if __name__ == "__main__":
    for p in sys.argv[1:]:
        try:
            main(p)
        except AssertionError as e:
            print("ASSERT", e)
