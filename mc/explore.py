"""Work-unit runner, choice explorer, statistics, evidence and replay files."""
import hashlib
import json
import mmap
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.msg, self.case = msg, case


class CaseTimeout(BaseException):
    pass


class Divergence(Violation):
    pass


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        b = bytes(x)
        return b.hex() if len(b) <= 160 else "%s...(%d bytes)" % (b[:40].hex(), len(b))
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    """Statistics and verdicts of one work unit."""
    CASE_LIMIT_S = 90.0

    def __init__(self, tier, shm=None):
        self.tier, self.shm = tier, shm
        self.thorough = tier == "thorough"
        self.executions = self.transitions = 0
        self.states, self.outcomes, self.samples, self.case = set(), Counter(), [], None

    def begin(self, case):
        """Start of one execution on the real code; `case` identifies it."""
        self.case = case
        self.executions += 1
        if self.shm is not None:
            b = json.dumps(jsonable(case)).encode()[:4000]
            self.shm[0:4 + len(b)] = struct.pack("<I", len(b)) + b
        signal.setitimer(signal.ITIMER_REAL, self.CASE_LIMIT_S)

    def rearm(self):
        """A further execution of the same case: its time starts anew."""
        signal.setitimer(signal.ITIMER_REAL, self.CASE_LIMIT_S)

    def step(self, n=1):
        self.transitions += n

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def outcome(self, key):
        self.outcomes[str(key)] += 1

    def sample(self, x, cap=3):
        if len(self.samples) < cap:
            self.samples.append(jsonable(x))

    def check(self, cond, msg, *args):
        if not cond:
            self.fail(msg % args if args else msg)

    def fail(self, msg):
        raise Violation(msg, jsonable(self.case))


class Chooser:
    """Replays a prefix of choices, then takes 0; records every choice point."""

    def __init__(self, prefix=()):
        self.prefix, self.points, self.choices = list(prefix), [], []

    def choose(self, n, label=""):
        i = len(self.choices)
        if i < len(self.prefix):
            c, pn, pl = self.prefix[i]
            if pn is not None and (pn, pl) != (n, label):
                raise Divergence("replaying the same choices diverged at point %d: %r then %r" % (i, (pn, pl), (n, label)))
            if c >= n:
                raise Divergence("recorded choice %d out of range %d at %r" % (c, n, label))
        else:
            c = 0
        self.points.append((n, label))
        self.choices.append(c)
        return c

    def trace(self):
        return [(c, n, l) for c, (n, l) in zip(self.choices, self.points)]


def explore(run, bound=None, max_runs=None):
    """Depth-first enumeration of all choice sequences of run(chooser) with at most `bound` non-default choices."""
    stack, runs = [[]], 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        run(ch)
        runs += 1
        if max_runs is not None and runs > max_runs:
            raise RuntimeError("exploration cap hit")
        if len(ch.choices) < len(prefix):
            raise Divergence("replaying the same choices ended early (%d of %d points)" % (len(ch.choices), len(prefix)))
        tr = ch.trace()
        dev = sum(1 for c in ch.choices[:len(prefix)] if c)
        for i in range(len(tr) - 1, len(prefix) - 1, -1):
            if bound is not None and dev + 1 > bound:
                continue
            n, label = tr[i][1], tr[i][2]
            for alt in range(n - 1, 0, -1):
                stack.append(tr[:i] + [(alt, n, label)])
    return runs


# ---------------------------------------------------------------------------------------------------- runner
def _on_alarm(signum, frame):
    raise CaseTimeout()


def _child(mod, unit, tier, wfd, shm):
    signal.signal(signal.SIGALRM, _on_alarm)
    ctx = Ctx(tier, shm)
    res = {"violation": None}
    try:
        try:
            mod.run_unit(unit, ctx)
        except Violation as v:
            res["violation"] = {"msg": v.msg, "case": v.case if v.case is not None else jsonable(ctx.case)}
        except CaseTimeout:
            res["violation"] = {"msg": "execution does not finish within %ds" % ctx.CASE_LIMIT_S, "case": jsonable(ctx.case)}
        except BaseException as e:  # an exception that escaped from the code under test into the driver
            res["violation"] = {"msg": "unexpected %s: %s" % (type(e).__name__, e), "case": jsonable(ctx.case),
                                "traceback": traceback.format_exc()}
        signal.setitimer(signal.ITIMER_REAL, 0)
        res.update(executions=ctx.executions, transitions=ctx.transitions, states=ctx.states,
                   outcomes=ctx.outcomes, samples=ctx.samples)
        data = pickle.dumps(res)
        data = struct.pack("<Q", len(data)) + data
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off:off + 65536])
    finally:
        os._exit(0)


class _Proc:
    def __init__(self, mod, idx, unit, tier):
        self.idx, self.unit, self.buf, self.t0 = idx, unit, bytearray(), time.time()
        self.shm = mmap.mmap(-1, 4096)
        self.r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r)
            os.setpgid(0, 0)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not os.environ.get("MC_DEBUG"):
                os.dup2(dn, 2)
            try:
                _child(mod, unit, tier, w, self.shm)
            finally:
                os._exit(1)
        os.close(w)

    def complete(self):
        return len(self.buf) >= 8 and len(self.buf) - 8 >= struct.unpack("<Q", self.buf[:8])[0]

    def end(self):
        """Ends whatever the unit left running (processes it started share its group)."""
        for f in (os.killpg, os.kill):
            try:
                f(self.pid, signal.SIGKILL)
            except OSError:
                pass

    def result(self, status):
        if self.complete():
            return pickle.loads(bytes(self.buf[8:]))
        n = struct.unpack("<I", self.shm[0:4])[0]
        case = self.shm[4:4 + n].decode(errors="replace") if n else None
        try:
            case = json.loads(case)
        except Exception:
            pass
        why = ("killed by signal %d" % os.WTERMSIG(status)) if os.WIFSIGNALED(status) else "ended abnormally"
        return {"violation": {"msg": "process running the code under test " + why, "case": case}, "executions": 0,
                "transitions": 0, "states": set(), "outcomes": Counter(), "samples": []}


def run_units(mod, units, tier, nproc, unit_limit, stop_on_violation=True):
    """Runs every unit in its own forked process. Yields (index, unit, result)."""
    todo, live = list(enumerate(units))[::-1], {}
    try:
        while todo or live:
            while todo and len(live) < nproc:
                i, u = todo.pop()
                p = _Proc(mod, i, u, tier)
                live[p.r] = p
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for fd in ready:
                p = live[fd]
                data = os.read(fd, 1 << 20)
                if data:
                    p.buf += data
                    if not p.complete():
                        continue
                del live[fd]
                os.close(fd)
                if p.complete():
                    p.end()
                _, status = os.waitpid(p.pid, 0)
                p.end()
                yield p.idx, p.unit, p.result(status)
            now = time.time()
            for p in list(live.values()):
                if now - p.t0 > unit_limit:
                    p.end()
    finally:
        for p in live.values():
            p.end()
            os.close(p.r)
            os.waitpid(p.pid, 0)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("property") == prop and e.get("status") == "known":
                    out.append(e)
    return out


def main(prop, tier, seed, replay=None):
    import importlib
    from . import env
    t0 = time.time()
    mod = importlib.import_module("mc.props." + prop.lower())
    evpath = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    nproc = int(os.environ.get("MC_PROCS", "0")) or max(2, min(8, os.cpu_count() or 2))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True)
    totals = dict(executions=0, transitions=0)
    states, outcomes, samples, unreproduced, violations = set(), Counter(), [], [], []
    try:
        env.S.load()
        if hasattr(mod, "setup"):
            mod.setup()
        units = mod.units(tier)
    except Exception as e:
        units = []
        violations.append({"msg": "the code under test cannot be loaded: %s: %s" % (type(e).__name__, e),
                           "case": None, "unit": None, "traceback": traceback.format_exc()})
    if replay is not None:
        rp = json.load(open(replay))
        units = [u for u in units if json.dumps(u, sort_keys=True) == json.dumps(rp["unit"], sort_keys=True)] or [rp["unit"]]
    limit = getattr(mod, "UNIT_LIMIT_S", 700 if tier == "quick" else 6 * 3600)
    done = 0
    for idx, unit, res in run_units(mod, units, tier, nproc, limit):
        done += 1
        totals["executions"] += res["executions"]
        totals["transitions"] += res["transitions"]
        states |= res["states"]
        outcomes.update(res["outcomes"])
        if len(samples) < 6:
            samples.extend({"unit": jsonable(unit), "case": s} for s in res["samples"][:2])
        v = res["violation"]
        if v is None:
            continue
        # confirm in a fresh process before trusting it
        confirmed = None
        for _ in range(2):
            for _, _, r2 in run_units(mod, [unit], tier, 1, limit):
                if r2["violation"] is not None:
                    confirmed = r2["violation"]
            if confirmed:
                break
        if confirmed:
            confirmed["unit"] = unit
            violations.append(confirmed)
            break
        unreproduced.append({"unit": jsonable(unit), "msg": v["msg"]})
    cov.update(states=len(states), transitions=totals["transitions"], traces_validated_against_impl=totals["executions"],
               units=len(units), units_completed=done, distinct_outcomes=len(outcomes),
               outcomes=dict(outcomes.most_common(20)), samples=samples[:6], exhaustive=not violations and done == len(units),
               bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
               how_validated="every execution runs the real code of %s; there is no separate model to bind" % env.REPO)
    level = getattr(mod, "LEVEL", "model_checking")
    if level == "fault_enumeration":
        cov = {"evaluations": totals["executions"], "distinct_nontrivial": len(states), "rule": mod.RULE,
               "samples": cov["samples"], "exhaustive": cov["exhaustive"], "io_steps": totals["transitions"],
               "units": len(units), "distinct_outcomes": len(outcomes), "outcomes": cov["outcomes"], "bounds": cov["bounds"]}
    if unreproduced:
        cov["unreproduced"] = unreproduced
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
              "the third-party package tweetnacl is replaced by a stand-in (not installed)",
              "libsodium/PyNaCl primitives are trusted"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if replay is None:
        with open(evpath, "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d transitions, %d states, %d outcomes, %d/%d units, %.1fs" % (
        prop, tier, totals["executions"], totals["transitions"], len(states), len(outcomes), done, len(units), time.time() - t0))
    for e in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    if not violations:
        if not replay and os.path.exists(os.path.join(VERIF, "evidence", "replay", prop + ".json")):
            os.unlink(os.path.join(VERIF, "evidence", "replay", prop + ".json"))
        if not replay and totals["executions"] == 0:
            print("nothing was explored")
            return 2
        return 0
    v = violations[0]
    path = os.path.join(VERIF, "evidence", "replay", prop + ".json")
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "unit": jsonable(v["unit"]) if v["unit"] is not None else None,
                   "case": v["case"], "message": v["msg"], "traceback": v.get("traceback"),
                   "replay": "/opt/venv/bin/python check.py %s --tier %s --replay %s" % (prop, tier, path)}, f, indent=1)
    print("violated: %s" % v["msg"])
    print("case: %s" % json.dumps(v["case"])[:1500])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
