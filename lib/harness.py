"""Workload runner: forks workers, executes deterministic cases, collects what the monitors saw,
decides the three-valued verdict and writes the evidence file."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LINE_BUDGET = 20_000_000
CASE_TIMEOUT = 40
QUICK_SCALE = float(os.environ.get("VF_SCALE", "2.5"))
MAX_VIOL_PER_WORKER = 4


class Violated(Exception):
    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class CaseTimeout(BaseException):
    pass


class BudgetExceeded(BaseException):
    pass


def h64(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Ctx:
    """Handed to one case."""

    def __init__(self, prop, gen, index, seed, tier, scratch, counters, keys, samples, known, known_seen):
        self.prop, self.gen, self.i, self.seed, self.tier = prop, gen, index, seed, tier
        self.rng = random.Random(f"{seed}/{prop}/{gen}/{index}")
        self.scratch = scratch
        self.counters = counters
        self._keys, self._samples = keys, samples
        self._known, self._known_seen = known, known_seen
        self.desc = None
        self.log = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def key(self, *obj):
        """Record a distinct, non-trivial case/state."""
        self._keys.add(h64(obj))

    def describe(self, desc):
        self.desc = desc
        if len(self._samples.setdefault(self.gen, [])) < 1:
            self._samples[self.gen].append(str(desc)[:600])

    def op(self, *what):
        self.log.append(" ".join(str(w) for w in what)[:400])

    def fail(self, kind, msg):
        raise Violated(kind, msg)

    def check(self, cond, kind, msg=""):
        if not cond:
            raise Violated(kind, msg() if callable(msg) else msg)

    def finding(self, fid, failed, msg):
        """A probe of one specific input.  failed: still broken."""
        self.count("probes")
        if not failed:
            return
        if fid in self._known:
            self._known_seen[fid] = msg
        else:
            raise Violated("finding:" + fid, msg)


def _load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(path):
        for e in json.load(open(path)).get("findings", []):
            if e["property"] == prop and e.get("status", "known") == "known":
                out[e["id"]] = e["what"]
    return out


def _run_case(mod, ctx, fn):
    fn(ctx)


def _exec(mod, prop, gen, fn, index, seed, tier, scratch, st, timeout=CASE_TIMEOUT, trace_budget=None):
    """Returns None or a violation dict."""
    mk = lambda: Ctx(prop, gen, index, seed, tier, scratch, st["counters"], st["keys"], st["samples"],
                     st["known"], st["known_seen"])
    ctx = mk()

    def viol(kind, msg):
        return {"property": prop, "gen": gen, "index": index, "seed": seed, "tier": tier, "kind": kind,
                "message": str(msg)[:6000], "case": str(ctx.desc)[:6000], "log": ctx.log[-80:]}

    def on_alarm(sig, frm):
        raise CaseTimeout()

    before = getattr(mod, "before_case", None)
    signal.signal(signal.SIGALRM, on_alarm)
    try:
        if before:
            before(ctx)
        signal.setitimer(signal.ITIMER_REAL, timeout, 10)     # again, should the library swallow the first one
        try:
            fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return None
    except Violated as e:
        return viol(e.kind, e.msg)
    except CaseTimeout:
        pass
    except (Exception, SystemExit) as e:              # noqa: an operation on a legal input raised (or ended the program)
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if "/fibertree/" in f.filename]
        where = f"{os.path.basename(loc[-1].filename)}:{loc[-1].name}" if loc else "harness"
        return viol(f"exception:{type(e).__name__}@{where}",
                    "unexpected exception on a legal input\n" + "".join(traceback.format_exception(e))[-4000:])
    # timed out: rerun under a deterministic logical budget
    ctx = mk()
    n = [0]

    def tracer(frame, event, arg):
        if "/fibertree/" not in frame.f_code.co_filename:
            return tracer if event == "call" else None
        n[0] += 1
        if n[0] > LINE_BUDGET:
            raise BudgetExceeded()
        return tracer

    try:
        if before:
            before(ctx)
        signal.setitimer(signal.ITIMER_REAL, 180, 10)
        sys.settrace(tracer)
        try:
            fn(ctx)
        finally:
            sys.settrace(None)
            signal.setitimer(signal.ITIMER_REAL, 0)
        return None
    except BudgetExceeded:
        return viol("step-budget", f"more than {LINE_BUDGET} library lines executed in one case")
    except CaseTimeout:
        st["inconclusive"].append(f"{gen}/{index}: wall-clock watchdog")
        return None
    except Violated as e:
        return viol(e.kind, e.msg)
    except (Exception, SystemExit) as e:
        return viol(f"exception:{type(e).__name__}", "".join(traceback.format_exception(e))[-3000:])


def _watch_lines():
    """Record which lines of the library run: {file: set of lines}.  A location is switched off after its first hit."""
    lines, mon = {}, getattr(sys, "monitoring", None)
    if mon is None:
        return lines
    try:
        mon.use_tool_id(mon.COVERAGE_ID, "vf")
    except ValueError:
        return lines

    def hit(code, line):
        f = code.co_filename
        k = f.rfind("/fibertree/")
        if k >= 0:
            lines.setdefault(f[k + 1:], set()).add(line)
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, hit)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return lines


def _worker(w, W, mod, prop, plan, seed, tier, deadline, conn, stop=None):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    base = tempfile.mkdtemp(prefix=f"vf_{prop}_{w}_")
    os.chdir(base)
    st = {"counters": {}, "keys": set(), "samples": {}, "inconclusive": [], "known": _load_known(prop),
          "known_seen": {}}
    viols, done, capped = [], 0, False
    lines = _watch_lines()
    try:
        # interleave generators so a time cap does not starve the later ones
        for rnd in range(64):
            for gen, fn, n in plan:
                lo, hi = n * rnd // 64, n * (rnd + 1) // 64
                for i in range(lo, hi):
                    if i % W != w:
                        continue
                    if time.time() > deadline:
                        capped = True
                        break
                    if stop is not None and stop.is_set():
                        raise StopIteration
                    v = _exec(mod, prop, gen, fn, i, seed, tier, base, st)
                    done += 1
                    if v:
                        viols.append(v)
                        if stop is not None:
                            stop.set()
                        if len(viols) >= MAX_VIOL_PER_WORKER:
                            raise StopIteration
                if capped:
                    break
            if capped:
                break
    except StopIteration:
        pass
    except BaseException as e:
        st["inconclusive"].append("worker died: " + "".join(traceback.format_exception(e))[-1500:])
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)
    conn.send({"viols": viols, "done": done, "capped": capped, "counters": st["counters"], "keys": st["keys"],
               "samples": st["samples"], "inconclusive": st["inconclusive"], "known_seen": st["known_seen"],
               "lines": lines})
    conn.close()


def run(mod, prop, tier, seed, replay=None):
    t0 = time.time()
    plan = []
    for name, (fn, q, t) in mod.GENERATORS.items():
        if os.environ.get("VF_ONLY", name) != name:     # for development
            continue
        # (floors are for a third of the quick plan, so a run cut short by its time cap still says something)
        plan.append((name, fn, min(t, int(q * QUICK_SCALE)) if tier == "quick" else t))
    if replay:
        r = json.load(open(replay))
        fn = mod.GENERATORS[r["gen"]][0]
        st = {"counters": {}, "keys": set(), "samples": {}, "inconclusive": [], "known": _load_known(prop),
              "known_seen": {}}
        base = tempfile.mkdtemp(prefix=f"vf_{prop}_r_")
        cwd = os.getcwd()
        os.chdir(base)
        v = _exec(mod, prop, r["gen"], fn, r["index"], r["seed"], r["tier"], base, st)
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)
        print(json.dumps(v, indent=1) if v else "replay: no violation")
        if v:
            print(v["message"])
        return 1 if v else 0

    W = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    deadline = t0 + (420 if tier == "quick" else 800)
    mpc = mp.get_context("fork")
    stop = mpc.Event() if os.environ.get("VF_STOP_FIRST") else None      # mutation sweeps only
    procs = []
    for w in range(W):
        a, b = mpc.Pipe(False)
        p = mpc.Process(target=_worker, args=(w, W, mod, prop, plan, seed, tier, deadline, b, stop))
        p.start()
        b.close()
        procs.append((p, a))
    counters, keys, samples, inconcl, viols, known_seen, lines = {}, set(), {}, [], [], {}, {}
    done, capped = 0, False
    for w, (p, a) in enumerate(procs):
        try:
            if a.poll(max(1, deadline + 60 - time.time())):
                r = a.recv()
            else:
                raise EOFError
        except EOFError:
            inconcl.append(f"worker {w} lost")
            p.kill()
            p.join()
            continue
        p.join()
        done += r["done"]
        capped |= r["capped"]
        for k, n in r["counters"].items():
            counters[k] = counters.get(k, 0) + n
        keys |= r["keys"]
        for g, s in r["samples"].items():
            samples.setdefault(g, s)
        inconcl += r["inconclusive"]
        viols += r["viols"]
        known_seen.update(r["known_seen"])
        for f, s in r["lines"].items():
            lines.setdefault(f, set()).update(s)

    if os.environ.get("VF_COV"):
        json.dump({f: sorted(s) for f, s in lines.items()}, open(os.environ["VF_COV"], "w"))
    floors = getattr(mod, "FLOORS", {})
    if not viols:
        for k, n in floors.items():
            if counters.get(k, 0) < n:
                inconcl.append(f"monitor counter {k}={counters.get(k, 0)} below floor {n}")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": done, "distinct_nontrivial": len(keys), "rule": mod.RULE,
                       "samples": [f"{g}: {s[0]}" for g, s in samples.items() if s],
                       "library_lines_executed": {f: len(s) for f, s in sorted(lines.items())},
                       "monitor_counters": dict(sorted(counters.items())),
                       "generators": {n: c for n, _, c in plan}, "time_capped": capped,
                       "known_findings_seen": sorted(known_seen), "inconclusive": inconcl[:20]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for fid, msg in sorted(known_seen.items()):
        print(f"KNOWN-FINDING: property={prop} {fid}: {_load_known(prop)[fid]}")
    print(f"{prop} {tier} seed={seed}: cases={done} distinct={len(keys)} wall={ev['wall_s']}s "
          f"violations={len(viols)}{' (time capped)' if capped else ''}")
    if viols:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in viols:
            if v["kind"] in seen:
                continue
            seen.add(v["kind"])
            path = os.path.join(rdir, f"{prop}_{h64((v['gen'], v['index'], v['kind'])).hex()}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"   [{v['gen']}/{v['index']}] {v['kind']}: {v['message'][-700:]}")
        return 1
    if inconcl:
        print("INCONCLUSIVE: " + "; ".join(inconcl[:5]))
        return 3
    return 0
