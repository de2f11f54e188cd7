"""The executor runs every accepted task exactly once and ends.

Clients (inst/c10.cpp, public interface only) create an executor, submit tasks and destroy it.  The bodies of the worker
threads are analysed on the states the clients leave: a script says which thread moves next, a waiting worker only moves
after a notification, and the destructor's joins run the workers to their end.  Other threads' operations take effect at
each lock acquisition in turn."""
import conc
import itertools
import seq
from dom import NULL, ONE, ZERO, c, op
from rules import AnalysisBroken, Path, show
from specs import cells_of, loc_of, value

PREFIXES = ["common/executor/"]
CLIENTS = ["c10"]
MIN_OBLIGATIONS = 200
RULES = {
    "R1-run": "every task accepted before destruction runs exactly once, before destruction is complete; tasks start in the order of submission",
    "R2-ignore": "an empty task and a task submitted during destruction are ignored",
    "R3-wake": "a waiting worker is woken by every submission and by destruction",
    "R4-end": "destruction waits for every worker and every worker ends",
    "R5-locks": "the task list is only touched with its lock held; no task runs with the lock held; no lock is taken twice",
    "R6-create": "an executor has the asked number of workers; the global executor is one object",
}
K = "paimon::client10::"


class Stuck(Exception):
    def __init__(self, rule, text):
        Exception.__init__(self, text)
        self.rule = rule


class Spin(Exception):
    """a worker goes round without effect until another thread has moved"""

    def __init__(self, st):
        Exception.__init__(self)
        self.st = st


class W:
    """threads of one executor; states are kept single-path"""

    def __init__(self, ck):
        self.ck = ck
        h = {K + "Ran": self.ran, "std::condition_variable::wait": self.wait, "std::condition_variable::notify_one": self.notify,
             "std::condition_variable::notify_all": self.notify, "std::thread::join": self.join, "std::thread::detach": self.detach,
             "std::thread::joinable": self.joinable, "std::function::operator bool": self.callable,
             "std::function::operator=": self.set_function, "std::function::swap": self.swap_function, "std::function::operator()": self.call_function,
             "std::thread::hardware_concurrency": self.cores, "std::this_thread::yield": self.skip, "std::this_thread::sleep_for": self.skip}
        self.eng = ck.engine(seq=True, max_depth=40, handlers=h)
        self.eng.join = False
        self.eng.recursion = 30
        self.eng.unroll = 20
        self.eng.on_lock = self.locked
        self.held = {}
        self.dead = set()
        self.blocked = []
        self.at_lock = None     # (k, action)
        self.at_task = {}       # task id -> action
        self.current = None
        self.steps = 0

    # ---- calls
    def call(self, s, f, this, args):
        """one call by another thread: the only outcome, or None when the thread waits for ever"""
        eng = self.eng
        s2 = s.copy()
        locks, scopes = s.locks, s.scopes
        s2.locks, s2.scopes = (), ()
        stack, file = eng.stack, eng.file
        eng.stack = []
        mark = len(self.blocked)
        try:
            res = eng.run_body(f, s2, this, args, None, {"k": "call", "a": [], "l": 0})
        except Spin as x:
            res = []
            del self.blocked[mark:]
            self.blocked.append(x.st)
        finally:
            eng.stack, eng.file = stack, file
        stuck = self.blocked[mark:]
        del self.blocked[mark:]
        if not res and not stuck:
            raise Stuck("R4-end", "%s goes round without waiting or ending" % f.get("fn"))
        if len(res) + len(stuck) != 1:
            raise AnalysisBroken("%s: %d outcomes" % (f.get("fn"), len(res) + len(stuck)))
        n = res[0][1] if res else stuck[0]
        n.locks, n.scopes = locks, scopes
        conc.assign(s, n)
        return bool(res)

    def client(self, s, name, *args):
        f = self.ck.fn(K + name)
        self.ck.fnset[f["id"]] = f
        if not self.call(s, f, None, list(args)):
            raise Stuck("R4-end", "%s waits for ever" % name)

    # ---- stand-ins of the thread library
    def skip(self, eng, e, st, fr):
        return [(st, op("void"))]

    def cores(self, eng, e, st, fr):
        return [(st, c(2))]

    def callable(self, eng, e, st, fr):
        out = []
        for s, l in eng.lv(e["obj"], st, fr):
            v = eng.read(s, l, e["obj"].get("t"))
            if v is not None and v[0] == "lam":
                out.append((s, ONE))
            elif v == NULL or v is not None and v[0] == "op" and v[1] in ("empty", "moved", "list"):
                out.append((s, ZERO))
            else:
                raise AnalysisBroken("function object %s is not known" % show(v))
        return out

    def set_function(self, eng, e, st, fr):
        """assignment of a function object; moving from one empties it"""
        out = []
        for s, l in eng.lv(e["obj"], st, fr):
            a = e["a"][0]
            for s2, l2 in eng.lv(a, s, fr):
                v = eng.read(s2, l2, a.get("t"))
                if v is not None and v[0] == "ref":
                    v = eng.read(s2, v[1], a.get("t"))
                if a.get("k") == "call" and a.get("fn") == "std::move" and l2 != l:
                    s2.store[l2] = op("empty", ("s", "std::function"))
                s2.store[l] = v if v is not None else op("empty", ("s", "std::function"))
                out.append((s2, ("ref", l)))
        return out

    def call_function(self, eng, e, st, fr):
        out = []
        for s, l in eng.lv(e["obj"], st, fr):
            v = eng.read(s, l, e["obj"].get("t"))
            if v == NULL or v is not None and v[0] == "op" and v[1] in ("empty", "list"):
                raise Stuck("R2-ignore", "an empty function is called")
        return eng.call_lambda(e, st, fr)

    def notify(self, eng, e, st, fr):
        kind = e["fn"].rsplit("_", 1)[-1]
        w = st.ghost.get("waiting", frozenset())
        if kind == "all":
            st.ghost["woken"] = st.ghost.get("woken", frozenset()) | w
        elif w - st.ghost.get("woken", frozenset()):
            # any one of the waiting threads: the one that moves next in the script
            st.ghost["tokens"] = st.ghost.get("tokens", 0) + 1
        return [(st, op("void"))]

    def wait(self, eng, e, st, fr):
        out = []
        if len(e["a"]) < 2:
            # inside a loop that tests: the thread starts over when it is woken
            for s, l in eng.lv(e["a"][0], st, fr):
                s.locks = tuple(x for x in s.locks if x[2] != l)
                s.ghost["waiting"] = s.ghost.get("waiting", frozenset()) | {self.current}
                self.blocked.append(s)
            return []
        for s, l in eng.lv(e["a"][0], st, fr):
            ce = {"k": "call", "fn": "lambda::operator()", "oper": "()", "obj": e["a"][1], "a": [], "t": "bool", "l": e.get("l", 0)}
            for s2, v in eng.call_lambda(ce, s, fr):
                for s3, b in eng.branch(s2, eng.as_bool(v, "bool")):
                    self.steps += 1
                    if self.steps > 4000:
                        raise AnalysisBroken("too many steps of the workers")
                    spin = s3.ghost.get("last_wait")
                    now = self.fields(s3)
                    s3.ghost["last_wait"] = now
                    if b and spin != now:
                        out.append((s3, ONE))
                    else:
                        # waits, or goes round until another thread has finished
                        s3.locks = tuple(x for x in s3.locks if x[2] != l)
                        if not b:
                            s3.ghost["waiting"] = s3.ghost.get("waiting", frozenset()) | {self.current}
                        self.blocked.append(s3)
        return out

    def fields(self, s):
        return tuple(sorted((str(k), str(x)) for k, x in s.store.items() if k[0] == "F" and k[1] == self.this))

    def swap_function(self, eng, e, st, fr):
        out = []
        for s, l in eng.lv(e["obj"], st, fr):
            for s2, l2 in eng.lv(e["a"][0], s, fr):
                v, x = eng.read(s2, l, e["obj"].get("t")), eng.read(s2, l2, e["a"][0].get("t"))
                s2.store[l], s2.store[l2] = x, v
                out.append((s2, op("void")))
        return out

    def ran(self, eng, e, st, fr):
        out = []
        for s, vs in eng.evs(e["a"], st, fr):
            i = vs[0][1]
            s.ghost["ran"] = s.ghost.get("ran", ()) + (i,)
            if s.locks:
                self.held[i] = e.get("l", 0)
            act = self.at_task.get(i)
            if act:
                act(s)
            s.ghost["last_wait"] = None
            out.append((s, op("void")))
        return out

    def locked(self, eng, s, m, mode):
        if any(x[0] == m for x in s.locks[:-1]):
            self.dead.add("a worker or client takes the lock it already holds")
        if self.current is not None:
            now = (self.current, self.fields(s), s.ghost.get("ran"))
            last, k = s.ghost.get("last_lock", (None, 0))
            s.ghost["last_lock"] = (now, k + 1 if last == now else 0)
            if last == now and k >= 3:
                s.locks = s.locks[:-1]
                raise Spin(s)
        if self.at_lock and self.watching:
            self.acq += 1
            if self.acq == self.at_lock[0]:
                act = self.at_lock[1]
                w, self.watching = self.watching, False
                mine = s.locks
                s.locks = s.locks[:-1]
                try:
                    act(s)
                finally:
                    self.watching = w
                s.locks = mine
                self.fired += 1
    watching = False
    acq = 0
    fired = 0

    def worker_of(self, s, l):
        v = self.eng.read(s, l, "std::thread")
        if not (v is not None and v[0] == "op" and v[1] == "thread"):
            raise AnalysisBroken("thread object %s is not known" % show(v))
        return v

    def joinable(self, eng, e, st, fr):
        return [(s, c(int(l not in s.ghost.get("joined", ())))) for s, l in eng.lv(e["obj"], st, fr)]

    def detach(self, eng, e, st, fr):
        raise Stuck("R4-end", "a worker is detached: nobody waits for it")

    def join(self, eng, e, st, fr):
        out = []
        for s, l in eng.lv(e["obj"], st, fr):
            if s.locks:
                raise Stuck("R4-end", "a worker is joined with the lock held, it cannot end")
            if l in s.ghost.get("joined", ()):
                raise Stuck("R4-end", "a worker is joined twice")
            s.ghost["joined"] = s.ghost.get("joined", ()) + (l,)
            # let every worker move until this one ends
            for _ in range(6):
                if self.idx(s, l) in s.ghost.get("ended", ()):
                    break
                moved = False
                for i in range(len(self.threads)):
                    moved = self.move(s, i) or moved
                if not moved:
                    break
            if self.idx(s, l) not in s.ghost.get("ended", ()):
                raise Stuck("R4-end" if self.idx(s, l) not in s.ghost.get("waiting", ()) else "R3-wake",
                            "the destructor waits for a worker that never ends")
            out.append((s, op("void")))
        return out

    def idx(self, s, l):
        return self.threads.index(l)

    # ---- scripts
    def make(self, n):
        f = self.ck.fn(K + "Make")
        ps = self.ck.run(f, self.eng, args=[c(n)], st=self.eng.new_state())
        if len(ps) != 1:
            raise AnalysisBroken("creating an executor has %d paths" % len(ps))
        p = ps[0]
        self.this = loc_of(self.eng, p.val)
        self.threads = [l for l, v in p.st.store.items() if v is not None and v[0] == "op" and v[1] == "thread" and l[0] == "T" and l in self.eng.celltype]
        self.threads = [x[1] for k, v in p.st.store.items() if k[0] == "F" and k[1] == self.this and v is not None and v[0] == "op" and v[1] == "seq"
                        for x in v[2:] if x[0] == "ref" and x[1][-1] == "std::thread"]
        self.ptr = p.val
        return p

    def move(self, s, i):
        """worker i runs until it ends or waits; False when it cannot move"""
        if i in s.ghost.get("ended", ()):
            return False
        if i in s.ghost.get("waiting", ()):
            if i in s.ghost.get("woken", ()):
                pass
            elif s.ghost.get("tokens", 0):
                s.ghost["tokens"] -= 1
            else:
                return False
            s.ghost["woken"] = s.ghost.get("woken", frozenset()) - {i}
            s.ghost["waiting"] = s.ghost["waiting"] - {i}
        if i in s.ghost.get("busy", ()):
            return False
        v = self.worker_of(s, self.threads[i])
        old, self.current = self.current, i
        s.ghost["busy"] = s.ghost.get("busy", frozenset()) | {i}
        before = s.ghost.get("last_wait")
        s.ghost["last_wait"] = None
        try:
            done = self.enter(s, v)
        finally:
            self.current = old
        s.ghost["busy"] = s.ghost["busy"] - {i}
        s.ghost["last_wait"] = before
        if done:
            s.ghost["ended"] = s.ghost.get("ended", frozenset()) | {i}
        return True

    def enter(self, s, v):
        fn = v[2]
        if fn[0] == "lam":
            lam, dfr = self.eng.lams[fn[1]]
            s2 = s.copy()
            return self.call_body(s, lam["def"], dfr)
        if fn[0] == "addr" and fn[1][0] == "G" and fn[1][1].startswith("fn:") and len(v) > 3:
            f = self.ck.fn(fn[1][1][3:])
            self.ck.fnset[f["id"]] = f
            return self.call(s, f, loc_of(self.eng, v[3]), list(v[4:]))
        raise AnalysisBroken("thread body %s is not known" % show(fn))

    def call_body(self, s, body, dfr):
        eng = self.eng
        run = eng.run_body
        eng.run_body = lambda f, s2, this, vs, fr, e, parent=None: run(f, s2, dfr.this, vs, fr, e, parent=dfr) if f is body else run(f, s2, this, vs, fr, e, parent=parent)
        try:
            return self.call(s, body, dfr.this, [])
        finally:
            eng.run_body = run


def check(ck):
    w = W(ck)
    mk = ck.fn(K + "Make")
    for n in (1, 2, 3):
        w.make(n)
        ck.require(len(w.threads) == n, "R6-create", mk, None, "Make|%d" % n, "an executor of %d workers starts %d" % (n, len(w.threads)))
    md = ck.fn(K + "MakeDefault")
    for p in ck.run(md, w.eng, st=w.eng.new_state()):
        this = loc_of(w.eng, p.val)
        n = [x for k, v in p.st.store.items() if k[0] == "F" and k[1] == this and v is not None and v[0] == "op" and v[1] == "seq" for x in v[2:] if x[0] == "ref" and x[1][-1] == "std::thread"]
        ck.require(len(n) == 4, "R6-create", md, None, "MakeDefault", "the default executor starts %d workers instead of 4" % len(n), p)
    sh = ck.fn(K + "Shared")
    for p in ck.run(sh, w.eng, st=w.eng.new_state()):
        v = value(p, p.val)
        if v[0] != "c":
            raise AnalysisBroken("the identity of the global executor is not known: %s" % show(v))
        ck.require(v[1] == 1, "R6-create", sh, None, "Shared", "two requests for the global executor get different objects", p)

    dtor = ck.fn(K + "Destroy")
    work = entry_fn(ck, w)

    def play(n, script, text, want=None, order=True, at_lock=None, at_task=None, optional=()):
        """one history: the steps are add/null/nested/work/destroy"""
        p = w.make(n)
        s = p.st
        w.at_lock, w.at_task, w.acq, w.fired, w.steps, w.blocked, w.held = at_lock, at_task or {}, 0, 0, 0, [], {}
        w.watching = True
        s.ghost["last_wait"] = None
        exp = []
        key = "%d|%s" % (n, text)
        try:
            for step in script:
                k = step[0]
                if k == "add":
                    w.client(s, "Add", w.ptr, c(step[1]))
                    exp.append(step[1])
                elif k == "null":
                    w.client(s, "AddNull", w.ptr)
                elif k == "nested":
                    w.client(s, "AddNested", w.ptr, c(step[1]), c(step[2]))
                    exp.append(step[1])
                elif k == "work":
                    w.move(s, step[1])
                elif k == "destroy":
                    destroy(w, s)
        except Stuck as x:
            w.watching = False
            ck.require(False, x.rule, work, None, key, "%s: %s" % (text, x))
            return w.fired
        w.watching = False
        if at_lock and not w.fired:
            return 0
        ran = list(s.ghost.get("ran", ()))
        exp = exp if want is None else want
        must = [x for x in exp if x not in optional]
        if order:
            ok = [x for x in ran if x not in optional] == must
        else:
            ok = sorted(x for x in ran if x not in optional) == sorted(must)
        ok = ok and all(ran.count(x) <= 1 for x in optional) and not [x for x in ran if x not in exp and x not in optional]
        lost = [x for x in must if x not in ran]
        rule = "R3-wake" if lost and s.ghost.get("waiting") and not ok else "R2-ignore" if set(ran) - set(exp) - set(optional) else "R1-run"
        ck.require(ok, rule, work, None, key, "%s: the tasks %s ran, expected %s" % (text, ran, exp))
        ck.require(not w.held, "R5-locks", work, None, key + "|held", "%s: task %s runs with the lock held" % (text, sorted(w.held)))
        if ("destroy",) in script:
            ck.require(len(s.ghost.get("joined", ())) == len(w.threads), "R4-end", dtor, None, key + "|join",
                       "%s: the destructor waits for %d of %d workers" % (text, len(s.ghost.get("joined", ())), len(w.threads)))
        return w.fired

    def destroy(w, s):
        d = ck.fn("paimon::" + w.this[2].rsplit("::", 1)[-1] + "::~" + w.this[2].rsplit("::", 1)[-1])
        ck.fnset[d["id"]] = d
        if not w.call(s, d, w.this, []):
            raise Stuck("R4-end", "the destructor waits for ever")
        s.ghost["destroyed"] = True

    A, N, D = (lambda i: ("add", i)), ("null",), ("destroy",)
    Wk = lambda i: ("work", i)
    for n in (1, 2, 3):
        play(n, [D], "destroying an idle executor")
        play(n, [Wk(i) for i in range(n)] + [D], "destroying an executor whose workers wait")
        for k in (1, 2, 3):
            adds = [A(i + 1) for i in range(k)]
            play(n, adds + [D], "%d tasks submitted and destroyed at once" % k)
            play(n, adds + [Wk(i) for i in range(n)] + [D], "%d tasks, worked off" % k)
            play(n, [Wk(i) for i in range(n)] + adds + [Wk(i) for i in range(n)], "%d tasks for waiting workers" % k)
            play(n, [Wk(i) for i in range(n)] + adds + [D], "%d tasks for waiting workers, destroyed" % k)
            play(n, [N] + adds + [N, D], "empty tasks around %d tasks" % k)
            seqn = []
            for i in range(k):
                seqn += [Wk(i % n), A(i + 1), Wk(i % n)]
            play(n, seqn + [D], "%d tasks submitted one after the other" % k)
        play(n, [Wk(i) for i in range(n)] + [N] + [Wk(i) for i in range(n)], "an empty task for waiting workers")
        play(n, [("nested", 1, 2)] + [Wk(i) for i in range(n)] + [D], "a task that submits another", want=[1, 2])
        play(n, [("nested", 1, 2), D], "a task that submits another during destruction", want=[1], optional=(2,))
        play(n, [A(1), ("nested", 2, 4), A(3)] + [Wk(0)], "a task that submits another between tasks", want=[1, 2, 3, 4])
    # a second worker moves while a task runs
    for n in (2, 3):
        other = lambda s: w.move(s, 1)
        both = lambda s: [w.move(s, i) for i in range(1, n)]
        for k in (1, 2, 3):
            adds = [A(i + 1) for i in range(k)]
            for t in range(1, k + 1):
                play(n, adds + [Wk(0), D], "%d tasks, the other workers move during task %d" % (k, t), at_task={t: both})
                play(n, adds + [D], "%d tasks, the other workers move during task %d of the destruction" % (k, t), at_task={t: both})
    # two waiting workers, two tasks: neither task has to wait for the other
    for order in ([], [A(7), Wk(0)]):
        seen = []

        def second(s):
            w.move(s, 1)
            seen.append(s.ghost.get("ran", ()))
        play(2, [Wk(0), Wk(1)] + order + [A(1), A(2), Wk(0), D], "two tasks for two waiting workers", at_task={1: second})
        ck.require(all(2 in x for x in seen), "R3-wake", work, None, "both|%d" % len(order),
                   "a second task waits for the end of the first although a worker waits for tasks")
    # another thread at each lock acquisition
    for n in (1, 2):
        for script, text, want in (([A(1), A(2), Wk(0), D], "two tasks", [1, 2]), ([Wk(0), A(1), Wk(0), D], "a task for a waiting worker", [1]),
                                   ([A(1), Wk(0)], "a task worked off", [1])):
            for k in range(1, 12):
                fired = play(n, script + ([] if D in script else [D]), "%s while another thread submits at lock %d" % (text, k), want=want,
                             order=False, at_lock=(k, lambda s: w.client(s, "Add", w.ptr, c(9))), optional=(9,))
                if not fired:
                    break
            if n == 2:
                for k in range(1, 12):
                    if not play(n, script + ([] if D in script else [D]), "%s while the second worker moves at lock %d" % (text, k), want=want,
                                order=True, at_lock=(k, lambda s: w.move(s, 1))):
                        break
    # a submission during the destruction is refused, whichever lock it comes before
    for k in range(1, 12):
        def late(s):
            w.client(s, "Add", w.ptr, c(9))
        if not play(1, [A(1), D], "a task submitted at lock %d" % k, want=[1], order=False, at_lock=(k, late), optional=(9,)):
            break
    stopped(ck, w, play)
    for t in sorted(w.dead):
        ck.bad("R5-locks", work, None, "again", t)
    conc.lockset(ck, "R5-locks", w.this[2])


def entry_fn(ck, w):
    v = w.worker_of(w.make(1).st, w.threads[0])
    if v[2][0] == "addr":
        return ck.fn(v[2][1][1][3:])
    return ck.fn(K + "Make")


def stopped(ck, w, play):
    """a task that is submitted when the destructor has begun and all workers have ended must not be kept waiting for"""
    p = w.make(1)
    s = p.st
    s.ghost["last_wait"] = None
    w.at_lock, w.at_task, w.steps, w.blocked = None, {}, 0, []
    d = ck.fn("paimon::" + w.this[2].rsplit("::", 1)[-1] + "::~" + w.this[2].rsplit("::", 1)[-1])
    try:
        w.call(s, d, w.this, [])
        before = {k: v for k, v in s.store.items() if k[0] == "F" and k[1] == w.this}
        w.client(s, "Add", w.ptr, c(5))
        q = [x for k, v in s.store.items() if k[0] == "F" and k[1] == w.this and v is not None and v[0] == "op" and v[1] == "seq" for x in v[2:]
             if x[0] == "ref" and x[1][-1].startswith("std::function")]
        ck.require(not q, "R2-ignore", d, None, "late", "a task is accepted although destruction has begun")
    except Stuck as x:
        ck.require(False, x.rule, d, None, "late", str(x))
