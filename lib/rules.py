"""Check runner and the vocabulary the property modules use.

A property module defines `PREFIXES` (translation units it needs, None = all)
and `check(ck)`, which analyses the program and records obligations and
violations on `ck`.  A rule that loses its anchors raises AnalysisBroken: the
check then ends with exit 2, which is neither pass nor violation.
"""
import gc
import json
import os
import signal
import sys
import time
import traceback

import absint
import facts
from absint import Budget, Engine, Unsupported, show, show_loc
from dom import ONE, ZERO, add, c, ge, mk_eq0, mk_ge0, not_, op, strip_t, sub
from facts import AnalysisBroken

VERIF = facts.VERIF


class Path:
    """one partition of the analysed function"""

    def __init__(self, eng, kind, st, val):
        self.eng = eng
        self.kind = kind
        self.st = st
        self.val = val

    @property
    def ok(self):
        """True / False / None for a Status/Result returning function"""
        v = self.val
        if v is None:
            return None
        if v[0] in ("ok", "okv"):
            return True
        if v[0] == "err":
            return False
        return self.st.facts.truth(op("isok", v))

    def okval(self):
        v = self.val
        if v[0] == "okv":
            w = v[1]
            return w
        return op("val", v)

    def calls(self, *names):
        out = []
        for e in flat_events(self.st.events):
            if e.kind in ("call",) and (not names or any(name_is(e.fn, n) for n in names)):
                out.append(e)
        return out

    def events(self, *kinds):
        return [e for e in flat_events(self.st.events) if not kinds or e.kind in kinds]

    def cond(self):
        f = self.st.facts
        out = [show(("ge0", l)) for l in f.lins]
        out += ["!(%s)" % show(x) for x in f.neqs]
        out += ["%s%s" % ("" if b else "!", show(a)) for a, b in f.atoms.items()]
        return out

    def read(self, loc, t=None):
        return self.eng.read(self.st, loc, t)


def name_is(fn, n):
    return fn == n or (fn or "").endswith("::" + n)


def flat_events(events):
    """events with loop bodies in place (each body path once)"""
    out = []
    for e in events:
        if e.kind == "loop":
            lid, bodies, its = e.extra
            for b in bodies:
                out += flat_events(b)
            out.append(e)
        else:
            out.append(e)
    return out


class Check:
    def __init__(self, pid, module):
        self.pid = pid
        self.module = module
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.prog = None
        self.viol = []
        self.counts = {}
        self.fnset = {}
        self.npaths = 0
        self.notes = []
        self.instances = []
        self.undecided = []

    # ---- program access
    def fn(self, name, nparams=None, pick=None, file=None, many=False):
        """the definition(s) of a function; broken when it is gone"""
        fs = [f for f in self.prog.fns(name) if not f.get("dep")]
        if nparams is not None:
            fs = [f for f in fs if len(f.get("params") or []) == nparams]
        if file:
            fs = [f for f in fs if file in f["file"]]
        if pick:
            fs = [f for f in fs if pick(f)]
        if not fs:
            raise AnalysisBroken("anchor function %s is gone" % name)
        if many:
            return fs
        return fs[0]

    def has_fn(self, name):
        return any(not f.get("dep") for f in self.prog.fns(name))

    def record(self, name):
        r = self.prog.records.get(name)
        if r is None:
            raise AnalysisBroken("anchor class %s is gone" % name)
        return r

    def engine(self, **kw):
        return Engine(self.prog, **kw)

    def run(self, f, eng=None, this=None, args=None, setup=None, st=None, **kw):
        eng = eng or self.engine(**kw)
        self.fnset[f.get("id")] = f
        try:
            res = eng.run(f, this=this, args=args, setup=setup, st=st)
        except (Budget, Unsupported) as x:
            raise AnalysisBroken("%s: %s" % (f["fn"], x))
        for i in eng.inlined:
            g = self.prog.by_id.get(i)
            if g is not None:
                self.fnset[i] = g
        paths = [Path(eng, k, s, v) for k, s, v in res]
        self.npaths += len(paths)
        if not paths:
            self.bad("R0-return", f, None, f["fn"] + "|no path", "no path of the function reaches its end")
        return paths

    # ---- recording
    def oblig(self, rule, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n

    def ok(self, rule):
        self.oblig(rule)

    def bad(self, rule, f, line, key, msg, path=None):
        if isinstance(path, Path):
            path = path.cond()
        """f: function dict (or file path); key identifies the instance"""
        file = f["file"] if isinstance(f, dict) else f
        fn = f["fn"] if isinstance(f, dict) else ""
        self.viol.append({"rule": rule, "file": rel(file), "line": line or (f.get("line") if isinstance(f, dict) else 0),
                          "function": fn, "key": key, "message": msg, "path": (path or [])[:30]})

    def require(self, cond, rule, f, line, key, msg, path=None):
        self.oblig(rule)
        if not cond:
            self.bad(rule, f, line, key, msg, path.cond() if isinstance(path, Path) else path)
        return cond

    # ---- specification by cases
    def cases(self, rule, f, paths, cases):
        """cases: list of (name, [guard terms], outcome function(path, facts) ->
        None when fine or a message).  For every path and case that are
        jointly possible the outcome must hold."""
        hit = set()
        for p in paths:
            for name, guards, out in cases:
                st2 = p.st.copy()
                feas = True
                for g in guards:
                    if not st2.facts.assume(g, True):
                        feas = False
                        break
                if not feas:
                    continue
                hit.add(name)
                self.oblig(rule)
                q = Path(p.eng, p.kind, st2, p.val)
                msg = out(q)
                if msg:
                    self.bad(rule, f, f.get("line"), "%s|%s" % (f["fn"], name), "case '%s': %s" % (name, msg), q.cond())
        for name, guards, out in cases:
            if name not in hit:
                raise AnalysisBroken("%s: no path for case '%s'" % (f["fn"], name))


def rel(p):
    r = facts.REPO.rstrip("/") + "/"
    return p[len(r):] if p.startswith(r) else p


def teq(p, a, b):
    """are the two terms equal on this path"""
    if a == b:
        return True
    if a is None or b is None:
        return False
    if a[0] in ("c", "lin", "v", "in", "op", "ge0", "eq0", "not") and b[0] in ("c", "lin", "v", "in", "op", "ge0", "eq0", "not"):
        d = sub(a, b)
        if p.st.facts.truth(mk_eq0(d)) is True:
            return True
    # same boolean under the path's facts
    if not (p.eng.is_boolish(a) or p.eng.is_boolish(b)) or any(x[0] == "c" and x[1] not in (0, 1) for x in (a, b)):
        return False
    ta, tb = p.st.facts.truth(a), p.st.facts.truth(b)
    if ta is not None and tb is not None and (p.eng.is_boolish(a) or a[0] == "c") and (p.eng.is_boolish(b) or b[0] == "c"):
        return ta == tb
    return False


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.rstrip("\n")
        if not line or line.startswith("#") or line.startswith("fixed:"):
            continue
        # property=<id> key=<rule|key> :: text
        head, _, text = line.partition(" :: ")
        d = dict(x.split("=", 1) for x in head.split(" ", 1)[0:1])
        key = head.split(" key=", 1)[1]
        out.append((d["property"], key, text))
    return out


def main(pid, modname):
    sys.setrecursionlimit(30000)
    gc.set_threshold(200000, 50, 100)
    mod = __import__(modname)
    ck = Check(pid, mod)
    start = time.time()

    def late(*_):
        # enough time spent: stop with what was found, or without an answer
        if ck.viol or time.time() - start > 600:
            raise AnalysisBroken("out of time")
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 90, 30)
    try:
        ck.prog = facts.load(getattr(mod, "PREFIXES", None), getattr(mod, "CLIENTS", ()))
        errs = [(t, n) for t, n in ck.prog.errors]
        if errs:
            raise AnalysisBroken("sources that do not parse: %s" % errs[:5])
        mod.check(ck)
        if not ck.counts:
            raise AnalysisBroken("no obligations were generated")
        floor = getattr(mod, "MIN_OBLIGATIONS", 1)
        if sum(ck.counts.values()) < floor:
            raise AnalysisBroken("only %d obligations (expected at least %d)" % (sum(ck.counts.values()), floor))
    except AnalysisBroken as x:
        if not ck.viol:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, x))
            return 2
        ck.notes.append("analysis incomplete: %s" % x)
    except Exception as x:      # an error of the check, never a verdict
        if not ck.viol:
            traceback.print_exc()
            print("ANALYSIS-BROKEN property=%s internal error %r" % (pid, x))
            return 2
        ck.notes.append("analysis incomplete: %r" % x)
    signal.setitimer(signal.ITIMER_REAL, 0)
    return finish(ck)


def outcomes(ck):
    """(number of outcomes of conditions in the analysed functions that some path took, [outcomes that none took])"""
    seen, missing, done = 0, [], set()

    def walk(n, f):
        nonlocal seen
        if isinstance(n, list):
            for x in n:
                walk(x, f)
            return
        if not isinstance(n, dict) or id(n) in done:
            return
        done.add(id(n))
        k = n.get("k")
        cond = n.get("c") if k in ("if", "cond", "while", "for", "do") else n.get("x") if k == "bin" and n.get("op") in ("&&", "||") else None
        if isinstance(cond, dict) and cond.get("cv") is None and cond.get("k") not in ("int", "bool"):
            got = absint.OUTCOMES.get(id(cond), ())
            for b in (True, False):
                if b in got:
                    seen += 1
                else:
                    missing.append("%s:%s %s %s" % (rel(f["file"]), cond.get("l") or n.get("l") or f.get("line"), f["fn"].replace("paimon::", ""), "true" if b else "false"))
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, f)
    for f in ck.fnset.values():
        if f["file"].startswith(facts.REPO):
            walk(f.get("body"), f)
    return seen, sorted(set(missing))


def finish(ck):
    pid = ck.pid
    known = {k: t for p, k, t in load_known() if p == pid}
    new = []
    seen_known = set()
    for v in ck.viol:
        k = v["rule"] + "|" + v["key"]
        v["id"] = k
        if k in known:
            seen_known.add(k)
        else:
            new.append(v)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    fns = sorted({f["fn"] for f in ck.fnset.values()})
    files = sorted({rel(f["file"]) for f in ck.fnset.values() if f["file"].startswith(facts.REPO)})
    rules = getattr(ck.module, "RULES", {})
    cov = {
        "explanation": (getattr(ck.module, "EXPLANATION", "") or ck.module.__doc__ or "").strip(),
        "functions_analysed": len(ck.fnset),
        "paths_analysed": ck.npaths,
        "obligations": sum(ck.counts.values()),
        "obligations_by_rule": dict(sorted(ck.counts.items())),
        "rules": rules,
        "translation_units": len(ck.prog.tus) if ck.prog else 0,
        "files": files[:60],
        "functions": fns[:150],
        "known_findings_seen": len(seen_known),
    }
    seen, missing = outcomes(ck)
    cov["branch_outcomes"] = {"seen": seen, "not_seen": len(missing), "where_not_seen": missing[:60]}
    if os.environ.get("VERIF_COV"):
        for m in missing:
            print("not seen:", m)
    if ck.instances:
        cov["instances"] = ck.instances[:200]
    if ck.notes:
        cov["notes"] = ck.notes[:40]
    ev = {
        "property": pid, "tier": ck.tier, "seed": ck.seed, "level": "other", "coverage": cov,
        "wall_s": round(time.time() - ck.t0, 2),
        "assumptions": getattr(ck.module, "ASSUMPTIONS", [
            "declarations of third-party libraries are what the analysed headers/stubs say; assertions are not assumed",
            "integer arithmetic of signed types does not overflow unless a rule says otherwise"]),
        "violations": [{k: v[k] for k in ("rule", "file", "line", "function", "message", "path", "id")} for v in new][:40],
    }
    evdir = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    out = os.path.join(evdir, pid + ".json")
    tmp = out + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, out)
    for v in new[:15]:
        print("%s:%s: [%s] %s: %s" % (v["file"], v["line"], v["rule"], v["function"], v["message"]))
        for x in v["path"][:8]:
            print("      on: %s" % x)
        print("      id: %s" % v["id"])
    print("%s: %d functions, %d paths, %d obligations, %d violations, %d known, %.1f s" % (
        pid, len(ck.fnset), ck.npaths, sum(ck.counts.values()), len(new), len(seen_known), time.time() - ck.t0))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, out))
        return 1
    return 0
