"""Operating system model: a small tree of files, stdio streams and directory handles as part of the abstract state.

Calls answer from the tree, so a property can speak about what a caller observes.  A run can have one call fail (`fault`), and a path can be
watched: every content it ever had is kept.  Contents are lists of byte terms.  Meaning of the calls: POSIX / C standard."""
import mem as _mem
from absint import Unsupported
from dom import NULL, ONE, ZERO, c, op

ENOENT, EIO, EACCES, EEXIST, ENOTDIR, EISDIR, ENOTEMPTY, EBADF, EINVAL = 2, 5, 13, 17, 20, 21, 39, 9, 22
NEG = c(-1)
MODES = {"reg": 0o100644, "dir": 0o040755, "fifo": 0o010644, "sock": 0o140755, "blk": 0o060644, "chr": 0o020644}


class OS:
    """immutable record kept in the ghost state"""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def but(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return OS(**d)


def start(st, fs, denied=(), fault=None, chunk=1 << 30, watch=None, hookfault=None, sizes=None, meanwhile=None, inter=None):
    st.store[("G", "errno")] = c(EBADF)  # left over from something else
    st.ghost["os"] = OS(fs=dict(fs), denied=frozenset(denied), fault=fault, chunk=chunk, watch=watch, seen=(fs.get(watch),), log=(), n=0, files={}, dirs={}, ids=0,
                        hookfault=hookfault, hooks=0, bad=(), sizes=dict(sizes or {}), failed=None, meanwhile=meanwhile, inter=inter, other=None, blocked=False)


def of(s):
    return s.ghost["os"]


def put(s, **kw):
    o = of(s).but(**kw)
    if o.watch is not None and o.fs.get(o.watch) != o.seen[-1]:
        o = o.but(seen=o.seen + (o.fs.get(o.watch),))
    s.ghost["os"] = o


def bad(s, text):
    put(s, bad=of(s).bad + (text,))


def errno(s, n):
    s.store[("G", "errno")] = c(n)


def cstr(eng, s, v):
    """text of a C string"""
    if v[0] == "s":
        return v[1]
    if v[0] != "ptr":
        raise Unsupported("path %s" % (v,))
    n = _mem.extent(eng, s, v[1])
    out = []
    for b in _mem.get(eng, s, v[1], v[2], n - v[2]):
        x = _mem.const(eng, s, b)
        if x is None:
            raise Unsupported("path with unknown bytes")
        if x == 0:
            break
        out.append(x)
    return bytes(out).decode("latin1")


def tick(eng, s, name, *args):
    """count the call; the error number to fail with, or None"""
    if of(s).inter is not None and of(s).inter[0] == of(s).n + 1:      # another thread's whole operation just before
        of(s).inter[1](eng, s)
    o = of(s)
    n = o.n + 1
    if o.meanwhile is not None and o.meanwhile[0] == n:      # somebody else changes the tree just before
        d = dict(o.fs)
        d.update(o.meanwhile[1])
        put(s, fs={k: v for k, v in d.items() if v is not None})
    f = o.fault if o.fault is not None and o.fault[0] == n else None
    put(s, n=n, log=o.log + ((name,) + args,), failed=name if f else o.failed)
    return f[1] if f else None


def parent(p):
    return p.rsplit("/", 1)[0] if "/" in p else ""


def trim(p):
    return p.rstrip("/") if len(p) > 1 else p


def lookup(s, p):
    """(entry, errno)"""
    o = of(s)
    if p == "":
        return None, ENOENT
    if p in o.denied or any(p.startswith(d + "/") for d in o.denied):
        return None, EACCES
    q = trim(p)
    if q == "/" or q == "":
        return ("dir",), 0
    e = o.fs.get(q)
    if e is None:
        u = parent(q)
        while u:
            x = o.fs.get(u)
            if x is not None and x[0] != "dir":
                return None, ENOTDIR
            u = parent(u)
        return None, ENOENT
    if p != q and e[0] != "dir":
        return None, ENOTDIR
    return e, 0


def children(s, p):
    q = trim(p)
    return sorted(k for k in of(s).fs if parent(k) == q and k != q)


def call(f):
    def h(eng, e, st, fr):
        out = []
        eng.callees.add(e["fn"])
        for s, vs in _mem._args(eng, e, st, fr):
            out.append((s, f(eng, s, vs, e)))
        return out
    return h


def fail(s, n, v=NEG):
    errno(s, n)
    return v


@call
def h_access(eng, s, vs, e):
    p = cstr(eng, s, vs[0])
    f = tick(eng, s, "access", p)
    if f:
        return fail(s, f)
    x, n = lookup(s, p)
    return ZERO if x else fail(s, n)


def fill_stat(eng, s, loc, x, p):
    o = of(s)
    size, mtime = o.sizes.get(trim(p), (c(len(x[1])) if x[0] == "reg" else c(4096), c(1700000000)))
    s.store[("F", loc, "st_mode")] = c(MODES[x[0]])
    s.store[("F", loc, "st_size")] = size
    s.store[("F", ("F", loc, "st_mtim"), "tv_sec")] = mtime
    s.store[("F", ("F", loc, "st_mtim"), "tv_nsec")] = ZERO


@call
def h_stat(eng, s, vs, e):
    p = cstr(eng, s, vs[0])
    f = tick(eng, s, "stat", p)
    if f:
        return fail(s, f)
    x, n = lookup(s, p)
    if not x:
        return fail(s, n)
    if vs[1][0] != "addr":
        raise Unsupported("stat into %s" % (vs[1],))
    fill_stat(eng, s, vs[1][1], x, p)
    return ZERO


def newid(s):
    put(s, ids=of(s).ids + 1)
    return of(s).ids


@call
def h_opendir(eng, s, vs, e):
    p = cstr(eng, s, vs[0])
    f = tick(eng, s, "opendir", p)
    if f:
        return fail(s, f, NULL)
    x, n = lookup(s, p)
    if not x or x[0] != "dir":
        return fail(s, n or ENOTDIR, NULL)
    i = newid(s)
    d = dict(of(s).dirs)
    d[i] = ([".", ".."] + [k.rsplit("/", 1)[1] for k in children(s, p)], 0, True)
    put(s, dirs=d)
    return ("addr", ("T", "DIR#%d" % i, "DIR"))


def handle(eng, s, v, what):
    if v[0] == "addr" and v[1][0] == "T" and str(v[1][1]).startswith(what + "#"):
        return int(v[1][1].split("#")[1])
    if v == NULL or v == ZERO:
        bad(s, "%s on a null handle" % what)
        return None
    raise Unsupported("handle %s" % (v,))


@call
def h_readdir(eng, s, vs, e):
    i = handle(eng, s, vs[0], "DIR")
    f = tick(eng, s, "readdir", i)
    if i is None or not of(s).dirs[i][2]:
        bad(s, "a directory handle is used after it was closed")
        return NULL
    if f:
        return fail(s, f, NULL)
    names, k, _ = of(s).dirs[i]
    if k >= len(names):
        return NULL
    d = dict(of(s).dirs)
    d[i] = (names, k + 1, True)
    put(s, dirs=d)
    l = ("T", "dirent#%d" % newid(s), "dirent")
    s.store[("F", l, "d_name")] = ("ptr", _mem.block_of(eng, s, [c(b) for b in names[k].encode()] + [ZERO]), 0)
    return ("addr", l)


@call
def h_closedir(eng, s, vs, e):
    i = handle(eng, s, vs[0], "DIR")
    f = tick(eng, s, "closedir", i)
    if i is None or not of(s).dirs[i][2]:
        bad(s, "a directory handle is closed twice")
        return NEG
    d = dict(of(s).dirs)
    d[i] = d[i][:2] + (False,)
    put(s, dirs=d)
    return fail(s, f) if f else ZERO


def h_remover(kind):
    @call
    def h(eng, s, vs, e):
        p = cstr(eng, s, vs[0])
        f = tick(eng, s, kind, p)
        if f:
            return fail(s, f)
        x, n = lookup(s, p)
        if not x:
            return fail(s, n)
        if x[0] == "dir":
            if kind == "unlink":
                return fail(s, EISDIR)
            if children(s, p):
                return fail(s, ENOTEMPTY)
        elif kind == "rmdir":
            return fail(s, ENOTDIR)
        d = dict(of(s).fs)
        del d[trim(p)]
        put(s, fs=d)
        return ZERO
    return h


@call
def h_mkdir(eng, s, vs, e):
    p = cstr(eng, s, vs[0])
    f = tick(eng, s, "mkdir", p)
    if f:
        return fail(s, f)
    x, n = lookup(s, p)
    if x:
        return fail(s, EEXIST)
    if n != ENOENT:
        return fail(s, n)
    u = parent(trim(p))
    if u and not lookup(s, u)[0]:
        return fail(s, ENOENT)
    d = dict(of(s).fs)
    d[trim(p)] = ("dir",)
    put(s, fs=d)
    return ZERO


@call
def h_rename(eng, s, vs, e):
    a, b = cstr(eng, s, vs[0]), cstr(eng, s, vs[1])
    f = tick(eng, s, "rename", a, b)
    if f:
        return fail(s, f)
    x, n = lookup(s, a)
    if not x:
        return fail(s, n)
    y, n = lookup(s, b)
    if not y and n != ENOENT:
        return fail(s, n)
    a, b = trim(a), trim(b)
    u = parent(b)
    if u and not lookup(s, u)[0]:
        return fail(s, ENOENT)
    if y and y[0] == "dir" and x[0] != "dir":
        return fail(s, EISDIR)
    if y and y[0] != "dir" and x[0] == "dir":
        return fail(s, ENOTDIR)
    if y and y[0] == "dir" and children(s, b):
        return fail(s, ENOTEMPTY)
    d = {}
    for k, v in of(s).fs.items():
        if k == a:
            d[b] = v
        elif k.startswith(a + "/"):
            d[b + k[len(a):]] = v
        elif k != b:
            d[k] = v
    put(s, fs=d)
    for i, h in of(s).files.items():
        if h["path"] == a:
            setf(s, i, path=b)
    return ZERO


@call
def h_link(eng, s, vs, e):
    a, b = cstr(eng, s, vs[0]), cstr(eng, s, vs[1])
    f = tick(eng, s, "link", a, b)
    if f:
        return fail(s, f)
    x, n = lookup(s, a)
    if not x or x[0] == "dir":
        return fail(s, n or EACCES)
    y, n = lookup(s, b)
    if y or n != ENOENT:
        return fail(s, EEXIST if y else n)
    if parent(b) and not lookup(s, parent(b))[0]:
        return fail(s, ENOENT)
    put(s, fs=dict(of(s).fs, **{b: x}))
    return ZERO


# ------------------------------------------------------------------ stdio
def setf(s, i, **kw):
    d = dict(of(s).files)
    d[i] = dict(d[i], **kw)
    put(s, files=d)


def getf(eng, s, v, what):
    i = handle(eng, s, v, "FILE")
    if i is None:
        return None, None
    h = of(s).files[i]
    if not h["open"]:
        bad(s, "%s on a closed file" % what)
        return None, None
    return i, h


@call
def h_fopen(eng, s, vs, e):
    p, m = cstr(eng, s, vs[0]), cstr(eng, s, vs[1])
    f = tick(eng, s, "fopen", p, m)
    if f:
        return fail(s, f, NULL)
    x, n = lookup(s, p)
    w = m[0] in "wa"
    if x and x[0] == "dir" and w:
        return fail(s, EISDIR, NULL)
    if not x and (not w or n != ENOENT or parent(p) and not lookup(s, parent(p))[0]):
        return fail(s, n, NULL)
    d = dict(of(s).fs)
    if w and (m[0] == "w" or not x):
        d[p] = ("reg", ())
        put(s, fs=d)
    i = newid(s)
    fl = dict(of(s).files)
    fl[i] = {"path": trim(p), "mode": m[0], "pos": len(d[p][1]) if m[0] == "a" else 0, "buf": (), "open": True, "err": False, "eof": False, "synced": True}
    put(s, files=fl)
    return ("addr", ("T", "FILE#%d" % i, "FILE"))


def content(s, h):
    x = of(s).fs.get(h["path"])
    return x[1] if x is not None and x[0] == "reg" else ()


@call
def h_fileno(eng, s, vs, e):
    i, h = getf(eng, s, vs[0], "fileno")
    return NEG if i is None else c(1000 + i)


def fd(eng, s, v, what):
    n = _mem.const(eng, s, v)
    if n is None or n - 1000 not in of(s).files:
        raise Unsupported("descriptor %s" % (v,))
    h = of(s).files[n - 1000]
    if not h["open"]:
        bad(s, "%s on a closed file" % what)
        return None, None
    return n - 1000, h


@call
def h_pread(eng, s, vs, e):
    i, h = fd(eng, s, vs[0], "pread")
    n, off = _mem.cint(eng, s, vs[2], "length"), _mem.cint(eng, s, vs[3], "offset")
    f = tick(eng, s, "pread", i, n, off)
    if f:
        return fail(s, f)
    if i is None or n < 0 or off < 0:
        return fail(s, EINVAL)
    bs = list(content(s, h)[off:off + min(n, of(s).chunk)])
    if bs:
        _mem.put(eng, s, vs[1][1], vs[1][2], bs, e)
    return c(len(bs))


@call
def h_fread(eng, s, vs, e):
    z, k = _mem.cint(eng, s, vs[1], "size"), _mem.cint(eng, s, vs[2], "count")
    i, h = getf(eng, s, vs[3], "fread")
    f = tick(eng, s, "fread", i, z * k)
    if i is None:
        return ZERO
    if f:
        setf(s, i, err=True)
        return fail(s, f, ZERO)
    bs = list(content(s, h)[h["pos"]:h["pos"] + z * k])
    if z != 1:
        bs = bs[:len(bs) // z * z]
    if bs:
        _mem.put(eng, s, vs[0][1], vs[0][2], bs, e)
    setf(s, i, pos=h["pos"] + len(bs), eof=h["eof"] or len(bs) < z * k)
    return c(len(bs) // z)


@call
def h_fwrite(eng, s, vs, e):
    z, k = _mem.cint(eng, s, vs[1], "size"), _mem.cint(eng, s, vs[2], "count")
    i, h = getf(eng, s, vs[3], "fwrite")
    f = tick(eng, s, "fwrite", i, z * k)
    if i is None:
        return ZERO
    if f or h["mode"] not in "wa":
        setf(s, i, err=True)
        return fail(s, f or EBADF, ZERO)
    bs = _mem.get(eng, s, vs[0][1], vs[0][2], z * k, e) if z * k else []
    setf(s, i, buf=h["buf"] + tuple(bs), synced=False)
    return c(k)


def spill(s, i):
    h = of(s).files[i]
    if h["buf"]:
        d = dict(of(s).fs)
        if h["path"] in d:
            x = d[h["path"]][1]
            d[h["path"]] = ("reg", x[:h["pos"]] + h["buf"] + x[h["pos"] + len(h["buf"]):])
        put(s, fs=d)
        setf(s, i, buf=(), pos=h["pos"] + len(h["buf"]))


@call
def h_fflush(eng, s, vs, e):
    i, h = getf(eng, s, vs[0], "fflush")
    f = tick(eng, s, "fflush", i)
    if i is None or f:
        return fail(s, f or EBADF)
    spill(s, i)
    return ZERO


@call
def h_fsync(eng, s, vs, e):
    i, h = fd(eng, s, vs[0], "fsync")
    f = tick(eng, s, "fsync", i)
    if i is None or f:
        return fail(s, f or EBADF)
    if not h["buf"]:
        setf(s, i, synced=True)
    return ZERO


@call
def h_fclose(eng, s, vs, e):
    i = handle(eng, s, vs[0], "FILE")
    f = tick(eng, s, "fclose", i)
    if i is None:
        return NEG
    if not of(s).files[i]["open"]:
        bad(s, "a file is closed twice")
        return NEG
    if not f:
        spill(s, i)
    setf(s, i, open=False)
    return fail(s, f) if f else ZERO


@call
def h_ferror(eng, s, vs, e):
    i, h = getf(eng, s, vs[0], "ferror")
    return ONE if i is None or h["err"] else ZERO


@call
def h_feof(eng, s, vs, e):
    i, h = getf(eng, s, vs[0], "feof")
    return ONE if i is not None and h["eof"] else ZERO


@call
def h_clearerr(eng, s, vs, e):
    i, h = getf(eng, s, vs[0], "clearerr")
    if i is not None:
        setf(s, i, err=False, eof=False)
    return ("op", "void")


@call
def h_fseek(eng, s, vs, e):
    i, h = getf(eng, s, vs[0], "fseek")
    off, w = _mem.cint(eng, s, vs[1], "offset"), _mem.cint(eng, s, vs[2], "origin")
    f = tick(eng, s, "fseek", i, off, w)
    if i is None or f:
        return fail(s, f or EBADF)
    spill(s, i)
    h = of(s).files[i]
    if w not in (0, 1, 2):
        return fail(s, EINVAL)
    pos = off + (0, h["pos"], len(content(s, h)))[w]
    if pos < 0:
        return fail(s, EINVAL)
    setf(s, i, pos=pos, eof=False)
    return ZERO


@call
def h_ftell(eng, s, vs, e):
    i, h = getf(eng, s, vs[0], "ftell")
    f = tick(eng, s, "ftell", i)
    if i is None or f:
        return fail(s, f or EBADF)
    return c(h["pos"] + len(h["buf"]))


@call
def h_strcmp(eng, s, vs, e):
    a, b = cstr(eng, s, vs[0]), cstr(eng, s, vs[1])
    n = _mem.cint(eng, s, vs[2], "length") if len(vs) > 2 else None
    a, b = a[:n], b[:n]
    return c((a > b) - (a < b))


@call
def h_strlen(eng, s, vs, e):
    return c(len(cstr(eng, s, vs[0])))


def h_errno(eng, e, st, fr):
    st.store.setdefault(("G", "errno"), ZERO)
    return [(st, ("addr", ("G", "errno")))]


HANDLERS = {
    "access": h_access, "stat": h_stat, "stat64": h_stat, "lstat": h_stat, "opendir": h_opendir, "readdir": h_readdir, "readdir64": h_readdir, "closedir": h_closedir,
    "remove": h_remover("remove"), "unlink": h_remover("unlink"), "rmdir": h_remover("rmdir"), "mkdir": h_mkdir, "rename": h_rename, "link": h_link,
    "fopen": h_fopen, "fopen64": h_fopen, "fileno": h_fileno, "pread": h_pread, "pread64": h_pread, "fread": h_fread, "fwrite": h_fwrite, "fflush": h_fflush,
    "fsync": h_fsync, "fdatasync": h_fsync, "fclose": h_fclose, "ferror": h_ferror, "feof": h_feof, "clearerr": h_clearerr, "fseek": h_fseek, "fseeko": h_fseek,
    "ftell": h_ftell, "ftello": h_ftell, "strcmp": h_strcmp, "strncmp": h_strcmp, "strlen": h_strlen, "__errno_location": h_errno,
}
HANDLERS.update({"std::" + k: v for k, v in list(HANDLERS.items())})
