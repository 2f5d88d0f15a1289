"""Obligations of a check: exploration of undecided branches, verdicts, evidence, replay files."""
import json
import os
import re
import sys
import time
import traceback

from . import core as C
from . import lib as L
from .core import CTX, ProgramError, Unsupported
from .interp import ProgramRaise

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Fail:
    def __init__(self, ob, rule, text, sites=()):
        self.ob, self.rule, self.text = ob, rule, text
        self.sites = [s for s in sites if s]

    def construct(self):
        """the construct of the program the finding is keyed by: file and function, no line numbers"""
        for s in self.sites:
            return f"{s[0]}:{s[2]}"
        return self.ob


class Ob:
    """one run of one obligation (one configuration, one path)"""

    def __init__(self, name, tier):
        self.name, self.tier = name, tier
        self.fails = []
        self.facts = 0
        self.interp = L.load()

    def get(self, dotted):
        return L.resolve(self.interp, dotted)

    def eq(self, what, got, want, rule="value"):
        mm = L.compare(what, got, want)
        self.facts += 1
        for m in mm:
            self.fails.append(Fail(self.name, rule, m.text(), [s for s, _ in m.frontier]))
        return not mm

    def require(self, cond, text, rule="rule", site=None):
        self.facts += 1
        if not cond:
            self.fails.append(Fail(self.name, rule, text, [site] if site else []))
        return bool(cond)

    def fail(self, text, rule="rule", site=None):
        self.require(False, text, rule, site)

    def no_event(self, *kinds, what=""):
        """none of the given events occurred on this path"""
        self.facts += 1
        seen = set()
        for e in CTX.events:
            if e.kind in kinds and (e.kind, e.site) not in seen:
                seen.add((e.kind, e.site))
                self.fails.append(Fail(self.name, e.kind, f"{what}{e.msg}\n  at {C.fmt_site(e.site)}", [e.site]))


class Outcome:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.pruned = 0
        self.facts = 0
        self.fails = []
        self.error = None
        self.nodes = 0
        self.functions = set()
        self.sites = 0
        self.notes = set()
        self.skipped = None
        self.wall = 0.0


# facts that do not depend on fingerprints
STRUCTURAL = {"raises", "mutation", "oob", "host-np", "host-bool", "host-int", "host-random", "host-effect", "io", "bar", "shape",
              "key", "key-reuse", "provenance", "interface", "api"}
MAX_PATHS = 64
SOFT = {"ValueError", "TypeError", "AssertionError", "RuntimeError", "Exception", "ArithmeticError"}


def run_paths(name, fn, tier, seed, out):
    """all the paths of one obligation under one seed -> list of failures"""
    pending, fails, completed, level = [[]], [], 0, 0
    while pending:
        dec = pending.pop()
        C.reset(seed)
        CTX.decisions = dec
        out.paths += 1
        if out.paths > MAX_PATHS:
            raise Unsupported("too many paths")
        ob = Ob(name, tier)
        pruned = False
        try:
            fn(ob)
        except ProgramRaise as e:
            explicit = type(e.exc).__name__ in SOFT or isinstance(e.exc, Exception)
            if explicit and any(True for _ in CTX.taken) and dec:
                # explicit rejection of some inputs on an abstract condition: those inputs are outside the domain
                pruned = True
                out.notes.add(f"inputs rejected by the program: {e}")
            else:
                ob.fails.append(Fail(name, "raises", f"the program raises {e}", [e.site]))
        except ProgramError as e:
            ob.fails.append(Fail(name, "raises", f"the program cannot run: {e}", [e.site]))
        except (TypeError, ValueError, IndexError, AttributeError) as e:
            # a result taken apart by the check itself: it does not have the documented structure
            fr = traceback.extract_tb(e.__traceback__)
            if not fr or os.path.basename(os.path.dirname(fr[-1].filename)) != "checks":
                raise
            if type(e) is AttributeError and "'NoneType'" not in str(e) and "tuple" not in str(e):
                raise
            ob.fails.append(Fail(name, "shape", f"the result does not have the documented structure: {e} "
                                                f"({fr[-1].line.strip()})", [CTX.site]))
        for d, what, site in CTX.taken[len(dec):]:
            pass
        for i in range(len(dec), len(CTX.taken)):
            pending.append([t[0] for t in CTX.taken[:i]] + [False])
        level = max(level, CTX.roots)
        if pruned:
            out.pruned += 1
            continue
        completed += 1
        out.facts += ob.facts
        out.nodes += CTX.nid
        out.functions |= CTX.stats["functions"]
        out.sites += len(CTX.stats["sites"])
        for f in ob.fails:
            if dec or CTX.taken:
                f.text += "\n  on the path where " + "; ".join(f"{w} is {d}" for d, w, _ in CTX.taken[:6])
        fails += ob.fails
    if not completed:
        fails.append(Fail(name, "raises", "the program rejects every input of this configuration: " +
                          "; ".join(sorted(out.notes))[:300]))
    return fails, level


def refuted(name, fn, tier, seed, out, t0):
    fails, score, passed, best = None, 0.0, 0, 3
    for k in range(64):
        CTX.roots = 0
        r, level = run_paths(name, fn, tier, seed + 7919 * k, out)
        if not r:
            # signs are those of one evaluation: an equality that uses them has to hold in several
            passed += 1
            if not CTX.signs_used or passed >= 6:
                return []
            continue
        if passed and level:
            continue
        if fails is None or level < best:
            fails, best = r, level
        if all(f.rule in STRUCTURAL for f in r):
            break
        score += (0.5, 0.125, 0.0)[level]
        if score >= 1 or time.time() - t0 > 100:
            break
    return fails if fails is not None else []


def run_obligation(name, fn, tier, seed, fixed=()):
    out = Outcome(name)
    t0 = time.time()
    try:
        # an equality is refuted only by independent evaluations of the fingerprints: two in which all roots behave as roots of
        # positive reals, or eight in which some branch is arbitrary; evaluations in which a root does not exist in the field
        # refute nothing by themselves
        C.ASKED.clear()
        out.fails = refuted(name, fn, tier, seed, out, t0)
        # the program asks for the representation of its arguments or for the setting: the answer must not matter
        if not out.fails:
            for what, site in sorted(C.ASKED.items()):
                if what in fixed:
                    continue
                for v in C.SURROUNDINGS[what][1:]:
                    C.SURR[what] = v
                    try:
                        fails = refuted(name, fn, tier, seed, out, t0)
                    finally:
                        C.SURR[what] = C.SURROUNDINGS[what][0]
                    for f in fails:
                        f.text += f"\n  when the answer to the question about {what} asked at {C.fmt_site(site)} is {v!r}"
                        f.sites.append(site)
                    out.fails += fails
    except (Unsupported, L.AnchorLost) as e:
        site = CTX.site
        out.error = f"{type(e).__name__}: {e} at {C.fmt_site(site)}"
    except RecursionError as e:
        out.error = f"RecursionError: {e}"
    except Exception as e:  # defect of the analysis itself
        out.error = f"internal {type(e).__name__}: {e} at {C.fmt_site(CTX.site)}\n" + traceback.format_exc(limit=-6)
    out.wall = time.time() - t0
    return out


# Obligations at large sizes repeat, at sizes suggested by constants of the sources, what smaller ones decide.  They run last and
# within what is left of the time and memory of a check; one that does not fit is reported as not explored.
LARGE = 60
SOFT_S, HARD_S, SOFT_B = 600, 840, 3 * 2 ** 30
_FOUND = None


def size(name):
    return max([int(x) for x in re.findall(r"(?<![\w.])\d+(?![\w.])", name)] or [0])


def _worker(args):
    modname, name, tier, seed, t0 = args
    import importlib
    large = size(name) >= LARGE
    skip = Outcome(name)
    if large and (os.environ.get("SA_LARGE") == "0" or time.time() - t0 > SOFT_S):
        skip.skipped = "no time left"
        return skip
    if large and _FOUND is not None and _FOUND.value:
        skip.skipped = "a violation was found at a smaller size"
        return skip
    mod = importlib.import_module(modname)
    obs = dict(mod.obligations(tier))
    try:
        o = L.big_stack(lambda: run_obligation(name, obs[name], tier, seed, getattr(mod, "FIXED", ())), t0 + (SOFT_S if large else HARD_S),
                        SOFT_B if large else None)
    except L.OutOfBudget as e:
        if large:
            skip.skipped = str(e)
        else:
            skip.error = str(e)
        return skip
    if o.fails and _FOUND is not None:
        _FOUND.value = 1
    return o


def parallel(tasks, jobs):
    """the outcomes of all tasks; when the system ends a worker, what is left is done again by fewer of them"""
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    global _FOUND
    ctx = mp.get_context("fork")
    _FOUND = ctx.Value("i", 0)
    done = {}
    for n in (jobs, 2, 1):
        left = [t for t in tasks if t not in done]
        if not left:
            break
        with ProcessPoolExecutor(n, mp_context=ctx) as pool:
            futures = {t: pool.submit(_worker, t) for t in left}
            for t, f in futures.items():
                try:
                    done[t] = f.result()
                except BrokenProcessPool:
                    pass
    for t in tasks:
        if t not in done:
            done[t] = Outcome(t[1])
            done[t].error = "the analysis was ended by the system (memory)"
    return [done[t] for t in tasks]


# A check speaks for the obligations it decided.  Those it could not decide are printed and recorded in the evidence; when they
# are more than this share of the explored ones the check gives no answer at all (exit 2).  SA_STRICT=1: any of them is enough.
SHARE = 0.4


def undecided(errors, outs):
    if os.environ.get("SA_STRICT") == "1":
        return bool(errors)
    return len(errors) > SHARE * max(1, sum(1 for o in outs if not o.skipped))


def run_check(pid, tier="quick", seed=1, only=None, jobs=None, quiet=False):
    import importlib
    modname = f"sa.checks.{pid.lower()}"
    mod = importlib.import_module(modname)
    t0 = time.time()
    obs = list(dict(mod.obligations(tier)).items())
    if only:
        obs = [(n, f) for n, f in obs if n == only]
    names = [n for n, _ in obs]
    jobs = jobs or int(os.environ.get("SA_JOBS", "0")) or min(8, os.cpu_count() or 1, max(1, len(names) // 3))
    global _FOUND
    names.sort(key=lambda n: (size(n) >= LARGE, size(n) if size(n) >= LARGE else 0))
    tasks = [(modname, n, tier, seed, t0) for n in names]
    if jobs > 1 and len(tasks) > 1:
        outs = parallel(tasks, jobs)
    else:
        outs = [_worker(t) for t in tasks]
    known = load_known(pid)
    viol, errors, used = [], [], set()
    for o in outs:
        if o.error:
            errors.append(f"{o.name}: {o.error}")
        for f in o.fails:
            k = next((k for k in known if k["rule"] == f.rule and k["construct"] == f.construct()
                      and k.get("obligation", o.name) == o.name), None)
            if k is None:
                viol.append(f)
            else:
                used.add(k["text"])
    functions = sorted(f"{p}:{q}" for p, q in (set().union(*[o.functions for o in outs]) if outs else []))
    lost = len(obs) < getattr(mod, "FLOOR", 1) and not only
    for k in sorted(used):
        print(f"KNOWN-FINDING: property={pid} {k}")
    wall = time.time() - t0
    rc = 0
    if viol:
        rc = 1
    elif lost or sum(o.facts for o in outs) == 0 or undecided(errors, outs):
        rc = 2
    if not only:
        write_evidence(pid, mod, tier, seed, outs, functions, viol, errors, wall)
    if viol:
        path = os.path.join(VERIF, "evidence", f"{pid}.replay.txt")
        write_replay(path, pid, viol, tier, seed)
        shown = set()
        for f in viol[:12]:
            if (f.rule, f.construct()) in shown:
                continue
            shown.add((f.rule, f.construct()))
            if not quiet:
                print(f"[{pid}] {f.ob} ({f.rule})\n  " + f.text.replace("\n", "\n  "))
        print(f"VIOLATION property={pid} replay={path}")
    for e in errors[:8]:
        print(f"[{pid}] no verdict: {e}", file=sys.stderr)
    if lost:
        print(f"[{pid}] analysis broken: {len(obs)} obligations, at least {mod.FLOOR} expected", file=sys.stderr)
    if not quiet:
        print(f"[{pid}] {len(obs)} obligations, {sum(1 for o in outs if not o.fails and not o.error and not o.skipped)} hold, "
              f"{len(viol)} violations, {len(errors)} without verdict, {sum(1 for o in outs if o.skipped)} not explored, {sum(o.paths for o in outs)} paths, "
              f"{len(functions)} functions analysed, {wall:.1f} s")
    return rc


def load_known(pid):
    """entries `finding: property=<id> rule=<rule> construct=<file:function> [obligation=<name>] -- <text>`"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("finding: "):
            continue
        head, _, text = line[len("finding: "):].partition(" -- ")
        kv = dict(x.split("=", 1) for x in head.split(" ") if "=" in x)
        if kv.get("property") == pid:
            kv["text"] = text
            out.append(kv)
    return out


def write_evidence(pid, mod, tier, seed, outs, functions, viol, errors, wall):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    notes = sorted(set().union(*[o.notes for o in outs])) if outs else []
    cov = {
        "explanation": mod.EXPLAIN.strip(),
        "rule": mod.RULE.strip(),
        "obligations": len(outs),
        "discharged": sum(1 for o in outs if not o.fails and not o.error and not o.skipped),
        "not_explored": [f"{o.name}: {o.skipped}" for o in outs if o.skipped],
        "facts_compared": sum(o.facts for o in outs),
        "paths": sum(o.paths for o in outs),
        "paths_rejected_by_the_program": sum(o.pruned for o in outs),
        "value_graph_nodes": sum(o.nodes for o in outs),
        "functions_analysed": functions,
        "without_verdict": errors,
        "samples": [{"obligation": o.name, "paths": o.paths, "facts": o.facts, "nodes": o.nodes,
                     "verdict": "violated" if o.fails else "none" if o.error else "not explored" if o.skipped else "holds"} for o in outs],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUME", [])) + notes, "wall_s": round(wall, 3), "violations": len(viol)}
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def write_replay(path, pid, viol, tier, seed):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(f"property {pid}: {len(viol)} violated facts\n\n")
        for v in viol:
            f.write(f"obligation: {v.ob}\nrule: {v.rule}\nconstruct: {v.construct()}\n{v.text}\n"
                    f"again: cd {VERIF} && VERIF_SEED={seed} VERIF_TIER={tier} ./check {pid} --only '{v.ob}'\n\n")


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if "--only" in argv:
        only = argv[argv.index("--only") + 1]
    if "--thorough" in argv:
        tier = "thorough"
    return run_check(pid, tier, seed, only)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
