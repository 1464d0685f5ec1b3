"""Exhaustive bounded exploration runner.

A check is a set of *families*. A family is a finite list of cases (plain JSON-able values, fully
enumerated from an alphabet and a bound) and a function deciding one case. A case may itself
contain an exhaustive depth-first search over the choices of a controlled environment
(`explore`). Workers are forked processes; a crash or a hang of the code under test is attributed
to the case being executed and reported as a violation of it."""
import os, sys, json, time, hashlib, traceback, signal, argparse, multiprocessing as mp, gc, random
from multiprocessing import connection
from . import env


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Stop(Exception):
    pass


class ReplayDivergence(Exception):
    pass


class Chooser:
    """Environment choices of one execution. choice 0 is the default; others cost one deviation."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []     # (index, arity, tag)

    def choose(self, n, tag=""):
        k = len(self.trace)
        i = self.prefix[k] if k < len(self.prefix) else 0
        if not 0 <= i < n:
            raise ReplayDivergence(f"choice {k}: {i} out of {n} ({tag})")
        self.trace.append((i, n, tag))
        return i


def explore(run, ctx, bound=None, cap=None):
    """Run `run(chooser)` for every choice sequence with at most `bound` deviations."""
    stack = [()]
    n = 0
    while stack:
        pre = stack.pop()
        if cap is not None and n >= cap:
            ctx.capped += 1
            break
        ch = Chooser(pre)
        ctx.choices = pre
        run(ch)
        n += 1
        ctx.execs += 1
        if len(ch.trace) < len(pre):
            raise ReplayDivergence("execution shorter than its prefix")
        dev = sum(1 for c, _, _ in ch.trace[:len(pre)] if c)
        base = [c for c, _, _ in ch.trace]
        if bound is not None and dev >= bound:
            continue
        for k in range(len(ch.trace) - 1, len(pre) - 1, -1):
            for alt in range(1, ch.trace[k][1]):
                stack.append(tuple(base[:k]) + (alt,))
    ctx.choices = None
    return n


class Ctx:
    def __init__(self, case):
        self.case = case
        self.viol = []
        self.outcomes = set()
        self.states = set()
        self.transitions = 0
        self.execs = 0
        self.traces = 0
        self.capped = 0
        self.skipped = 0
        self.trivial = False
        self.choices = None
        self.extra = {}

    def fail(self, sig, msg):
        """record a violation. sig: short stable signature (what kind of failure)"""
        self.viol.append((str(sig), str(msg)[:1500], list(self.choices) if self.choices else None))
        if len(self.viol) > 20:
            raise Stop()

    def check(self, cond, sig, msg=""):
        if not cond:
            self.fail(sig, msg() if callable(msg) else msg)
        return bool(cond)

    def outcome(self, obj):
        self.outcomes.add(h64(obj))

    def state(self, obj):
        self.states.add(h64(obj))

    def count(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n


class Family:
    def __init__(self, name, cases, run, cpp=False, timeout=120, note=""):
        self.name, self.cases, self.run, self.cpp, self.timeout, self.note = name, cases, run, cpp, timeout, note


def _exec_case(fam, case):
    ctx = Ctx(case)
    try:
        fam.run(case, ctx)
    except Stop:
        pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-1] if tb else "?"
        ctx.fail(f"exception:{type(e).__name__}@{where}", "".join(traceback.format_exception(e))[-1400:])
    if ctx.execs == 0:
        ctx.execs = 1
    return ctx


def _pack(ctx):
    return dict(viol=ctx.viol, outcomes=ctx.outcomes, states=ctx.states, transitions=ctx.transitions, execs=ctx.execs,
                traces=ctx.traces, capped=ctx.capped, skipped=ctx.skipped, trivial=ctx.trivial, extra=ctx.extra)


def _worker(fams, index, nxt, cur, wid, conn, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    gc.freeze()
    n = len(index)
    k = 0
    while not stop.value:
        with nxt.get_lock():
            j = nxt.value
            nxt.value += 1
        if j >= n:
            break
        fi, ci = index[j]
        cur[2 * wid] = j
        cur[2 * wid + 1] = time.monotonic()
        ctx = _exec_case(fams[fi], fams[fi].cases[ci])
        conn.send((j, _pack(ctx)))
        k += 1
        if k % 25 == 0:
            gc.collect()
    cur[2 * wid] = -1
    conn.send((None, None))
    conn.close()


class Runner:
    def __init__(self, pid, level, rule, families, assumptions=(), budget_quick=400, budget_thorough=6000, exhaustive_note=""):
        self.pid, self.level, self.rule, self.make = pid, level, rule, families
        self.assumptions = list(assumptions)
        self.budget = {"quick": budget_quick, "thorough": budget_thorough}
        self.note = exhaustive_note

    # ------------------------------------------------------------------
    def main(self, argv=None):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
        ap.add_argument("--replay")
        ap.add_argument("--family")
        ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 8))
        ap.add_argument("--verbose", action="store_true")
        a = ap.parse_args(argv)
        if a.replay:
            a.replay = os.path.join(env.CWD, a.replay)
        self.tier = a.tier
        self.seed = int(os.environ.get("VERIF_SEED", "0") or 0)
        random.seed(self.seed)
        if a.replay:
            return self.replay(a.replay)
        t0 = time.time()
        fams = self.make(self.tier)
        if a.family:
            fams = [f for f in fams if f.name.startswith(a.family)]
        need_cpp = any(f.cpp for f in fams)
        try:
            self.load(need_cpp)
        except Exception as e:
            # the tree under test does not build / import: nothing can hold
            p = self.write_replay("load", None, None, f"code under test cannot be loaded: {e!r}")
            print(f"VIOLATION property={self.pid} replay={p}")
            print("  ", repr(e)[:500])
            self.evidence(t0, [], {}, 1, True, {})
            return 1
        fams, res, dead, complete = self.run_all(fams, a.procs, t0)
        return self.report(fams, res, dead, complete, t0, a.verbose)

    scripted = False

    def load(self, cpp):
        if cpp and self.scripted:
            from . import script
            script.load_scripted()
        env.load(cpp=cpp)

    def run_all(self, fams, procs, t0):
        # interleave families so that a time cap hits all of them evenly; order is otherwise fixed
        index = []
        pos = [(ci / max(1, len(f.cases)), fi, ci) for fi, f in enumerate(fams) for ci in range(len(f.cases))]
        for _, fi, ci in sorted(pos):
            index.append((fi, ci))
        deadline = t0 + self.budget[self.tier]
        ctxm = mp.get_context("fork")
        nxt = ctxm.Value("q", 0)
        stop = ctxm.Value("i", 0)
        cur = ctxm.Array("d", [-1.0] * (2 * procs), lock=False)
        res, dead = {}, []
        nviol = 0
        workers = {}

        def spawn(w):
            cur[2 * w] = -1
            r, s = ctxm.Pipe(False)
            p = ctxm.Process(target=_worker, args=(fams, index, nxt, cur, w, s, stop), daemon=True)
            p.start()
            s.close()
            workers[w] = (p, r)
        for w in range(min(procs, max(1, len(index)))):
            spawn(w)
        capped_time = False
        while workers:
            conns = {r: w for w, (p, r) in workers.items()}
            ready = connection.wait(list(conns), timeout=1.0)
            for r in ready:
                w = conns[r]
                p = workers[w][0]
                try:
                    j, pk = r.recv()
                except EOFError:
                    p.join()
                    j = int(cur[2 * w])
                    del workers[w]
                    if j >= 0 and j not in res:
                        fi, ci = index[j]
                        dead.append((fi, ci, f"crash:exit{p.exitcode}", f"process running this case died with exit code {p.exitcode}"))
                        nviol += 1
                        if nviol < 8 and not stop.value:
                            spawn(w)
                    continue
                if j is None:
                    p.join()
                    del workers[w]
                    continue
                res[j] = pk
                nviol += 1 if pk["viol"] else 0
            now = time.time()
            if nviol >= 40:
                stop.value = 1
            if now > deadline and not stop.value:
                stop.value = 1
                capped_time = True
            for w in list(workers):
                j = int(cur[2 * w])
                if j < 0 or j in res:
                    continue
                lim = fams[index[j][0]].timeout
                if time.monotonic() - cur[2 * w + 1] > lim:
                    p, r = workers.pop(w)
                    p.kill()
                    p.join()
                    if j in res:
                        continue
                    fi, ci = index[j]
                    dead.append((fi, ci, "timeout", f"case did not finish within {lim} s (it takes far less on a correct tree)"))
                    nviol += 1
                    if nviol < 6 and not stop.value:
                        spawn(w)
        out = {}
        for j, pk in res.items():
            out[index[j]] = pk
        return fams, out, dead, (not capped_time and len(res) + len(dead) >= len(index))

    # ------------------------------------------------------------------
    def write_replay(self, fam, case, choices, msg):
        d = os.path.join(env.VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        body = dict(property=self.pid, family=fam, case=case, choices=choices, message=msg, tier=getattr(self, "tier", "quick"))
        try:
            s = json.dumps(body, indent=1)
        except TypeError:
            s = json.dumps(dict(body, case=repr(case)), indent=1)
        p = os.path.join(d, hashlib.sha256(s.encode()).hexdigest()[:12] + ".json")
        open(p, "w").write(s)
        return p

    def known(self):
        p = os.path.join(env.VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p))["findings"] if k["property"] == self.pid]

    def report(self, fams, res, dead, complete, t0, verbose):
        known = self.known()
        hit = {}
        viol = []
        for (fi, ci), pk in sorted(res.items()):
            for sig, msg, ch in pk["viol"]:
                viol.append((fi, ci, sig, msg, ch))
        for fi, ci, sig, msg in dead:
            viol.append((fi, ci, sig, msg, None))
        new = []
        for fi, ci, sig, msg, ch in viol:
            case = fams[fi].cases[ci]
            k = next((k for k in known if k["family"] == fams[fi].name and k["signature"] == sig
                      and (k.get("case") is None or k["case"] == json.loads(json.dumps(case)))), None)
            if k is not None:
                hit.setdefault(k["id"], k)
            else:
                new.append((fi, ci, sig, msg, ch))
        for k in hit.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        for k in known:
            if k["id"] not in hit and complete:
                print(f"note: known finding {k['id']} was not observed on this tree")
        shown = set()
        for fi, ci, sig, msg, ch in new:
            key = (fi, sig)
            if key in shown and not verbose:
                continue
            shown.add(key)
            if len(shown) > 6:
                break
            p = self.write_replay(fams[fi].name, fams[fi].cases[ci], ch, f"{sig}: {msg}")
            print(f"VIOLATION property={self.pid} replay={p}")
            print(f"   family={fams[fi].name} {sig}: {msg[:600]}")
        cov = self.evidence(t0, fams, res, len(new), complete, hit)
        print(f"{self.pid} tier={self.tier} " + " ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, (int, bool)))
              + f" wall={time.time() - t0:.1f}s violations={len(new)}")
        sys.stdout.flush()
        return 1 if new else 0

    def evidence(self, t0, fams, res, nviol, complete, hit):
        outs, states = set(), set()
        execs = trans = traces = capped = skipped = nontriv = 0
        extra = {}
        perfam = {}
        for (fi, ci), pk in res.items():
            f = perfam.setdefault(fams[fi].name, dict(cases=0, executions=0, outcomes=set(), states=set(), transitions=0))
            f["cases"] += 1
            f["executions"] += pk["execs"]
            f["transitions"] += pk["transitions"]
            f["outcomes"] |= pk["outcomes"]
            f["states"] |= pk["states"]
            outs |= pk["outcomes"]
            states |= pk["states"]
            execs += pk["execs"]
            trans += pk["transitions"]
            traces += pk["traces"]
            capped += pk["capped"]
            skipped += pk["skipped"]
            for k, v in pk["extra"].items():
                extra[k] = extra.get(k, 0) + v
        samples = []
        for fi, f in enumerate(fams):
            done = sorted(ci for (a, ci) in res if a == fi)
            if done:
                ci = done[len(done) // 2]
                samples.append({"family": f.name, "case": f.cases[ci]})
        samples = json.loads(json.dumps(samples[:6], default=repr))
        cov = {"evaluations": execs, "distinct_nontrivial": len(outs), "rule": self.rule, "cases": len(res),
               "exhaustive": bool(complete and capped == 0), "capped_searches": capped, "skipped_cases": skipped,
               "samples": samples}
        if self.level == "model_checking":
            cov.update(states=len(states), transitions=trans, traces_validated_against_impl=traces)
        cov["families"] = {k: {a: (len(b) if isinstance(b, set) else b) for a, b in v.items()} for k, v in sorted(perfam.items())}
        for fi, f in enumerate(fams):
            if f.note and f.name in cov["families"]:
                cov["families"][f.name]["what"] = f.note
        cov.update(extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol,
              "known_findings_observed": sorted(hit)}
        d = os.path.join(env.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}.json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
        return cov

    # ------------------------------------------------------------------
    def replay(self, path):
        r = json.load(open(path))
        fams = self.make(r.get("tier", "quick"))
        f = next(f for f in fams if f.name == r["family"])
        self.load(f.cpp)
        case = r["case"]
        match = [c for c in f.cases if json.loads(json.dumps(c)) == case]
        ctx = _exec_case(f, match[0] if match else case)
        for sig, msg, ch in ctx.viol:
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"   {sig} choices={ch}: {msg}")
        print("reproduced" if ctx.viol else "not reproduced")
        return 1 if ctx.viol else 0


class ScriptedRunner(Runner):
    """Uses the build of the C++ engine whose random engine is the explorer (deterministic-mode
    runs are unaffected: no draw is reachable there)."""
    scripted = True
