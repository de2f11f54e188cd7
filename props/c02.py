"""State shared between threads is only touched under its lock, and queue operations are atomic.

For every class with a lock the fields that its methods change are found, and every entry point (public methods, thread
bodies, methods left to friends, destructors of classes with threads) is analysed with the set of held locks at each
access.  Clients (inst/c02.cpp) exercise the shared queue with another thread at each lock acquisition."""
import conc
import seq
from dom import ONE, ZERO, c, op
from rules import AnalysisBroken, show
from specs import cells_of, value

PREFIXES = ["common/executor/", "common/metrics/", "common/factories/", "common/fs/resolving", "common/utils/path_util"]
CLIENTS = ["c02"]
MIN_OBLIGATIONS = 200
RULES = {
    "R1-lockset": "a field that methods change is only accessed with the lock of its object held, and no method returns with it held",
    "R2-queue": "the queue gives out every element once, first in first out; looking changes nothing; an empty queue gives nothing",
    "R3-atomic": "with another thread at any lock acquisition every operation answers as in one of the two orders",
    "R4-again": "no lock is taken by a thread that holds it",
}
CLASSES = ("paimon::DefaultExecutor", "paimon::MetricsImpl", "paimon::FactoryCreator", "paimon::ResolvingFileSystem", "paimon::ThreadsafeQueue<long>")
K = "paimon::client02::"


def model(items, what, v=None):
    """answer and remaining elements"""
    items = list(items)
    if what in ("Push", "PushMove"):
        return -1, items + [v]
    if what == "Pop":
        return (items[0], items[1:]) if items else (-1, items)
    if what == "Front":
        return (items[0] if items else -1), items
    if what == "Size":
        return len(items), items
    return int(not items), items


def check(ck):
    eng = ck.engine(seq=True, max_depth=40)
    eng.join = False
    th = conc.Threads(ck, eng, K)

    def run(what, n, rule, wants, text):
        f = ck.fn(K + what)
        a = [c(n), c(11), c(12), c(13)] + ([c(50)] if what.startswith("Push") else [])
        ps = ck.run(f, eng, args=a, st=eng.new_state())
        if th.at and not th.fired:
            return
        for p in ps:
            key = "%s|%d|%s" % (what, n, text)
            null = p.st.ghost.get("null")
            if not ck.require(null is None, rule, f if null is None else null[0], null and null[1], key + "|null", "a null pointer is followed", p):
                continue
            v = p.val
            if "bad:" in show(v) or any(e.kind == "bad_index" for e in p.st.events):
                ck.bad(rule, f, None, key + "|bad", "%s %s looks into an empty queue" % (what, text), p)
                continue
            if not (v[0] == "op" and v[1] == "pair"):
                raise AnalysisBroken("%s gives %s" % (what, show(v)))
            x = value(p, v[2])
            cs = cells_of(p, v[3])
            if cs is None or x[0] != "c":
                raise AnalysisBroken("%s gives %s" % (what, show(v)))
            left = []
            for y in cs:
                y = seq.load(eng, p.st, y)
                if y[0] != "c":
                    raise AnalysisBroken("element %s is not known" % show(y))
                left.append(y[1])
            ck.require((x[1], left) in wants, rule, f, None, key,
                       "%s on a queue of %d elements %s gives %d and leaves %s, expected %s" % (what, n, text, x[1], left, " or ".join("%d leaving %s" % w for w in wants)), p)
    for what in ("Push", "PushMove", "Pop", "Front", "Size", "Empty"):
        for n in range(4):
            items = [11, 12, 13][:n]
            run(what, n, "R2-queue", [model(items, what, 50)], "")
            for other, oa in (("OtherPush", [c(70)]), ("OtherPop", [])):
                o = "Push" if other == "OtherPush" else "Pop"
                wants = [model(model(items, o, 70)[1], what, 50)]
                a, b = model(items, what, 50)
                wants.append((a, model(b, o, 70)[1]))
                for k in range(1, 8):
                    th.at, th.fired, th.other, th.args = k, 0, ck.fn(K + other), oa
                    # a pointer into the queue does not outlive the element
                    if what == "Front" and o == "Pop" and k > 1:
                        break
                    run(what, n, "R3-atomic", wants, "while another thread is in %s at lock %d" % (other, k))
                    if not th.fired:
                        break
                th.at = None
    for k, t in sorted(th.dead.items(), key=str):
        ck.bad("R4-again", ck.fn(K + "Pop"), None, "again|%s" % show(k[0]), t)
    ck.ok("R4-again")
    for cls in CLASSES:
        n, fields = conc.lockset(ck, "R1-lockset", cls)
        ck.instances.append({"class": cls, "fields": fields, "accesses": n})
