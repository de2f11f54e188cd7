"""Builds the extractor, extracts the typed program of every translation unit
of /repo's current working tree and loads it.  Extraction results are cached
by content: the extractor, the flags, and every /repo and stub file the
translation unit read."""
import glob
import hashlib
import json
import os
import pickle
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
TOOL_SRC = os.path.join(VERIF, "tool", "pextract.cpp")
STUBS = os.path.join(VERIF, "stubs")
LLVM = "/usr/lib/llvm-18"

# Adapters to libraries that are neither installed nor declared in stubs/, and
# test support code.  Recorded in the evidence as not analysed.
OUT_OF_SCOPE = re.compile(
    r"/format/(orc|avro|parquet|lance)/|/fs/jindo/|/lumina/|/testing/|/benchmark/")
# the two files below an out-of-scope directory that the build does compile
IN_SCOPE = re.compile(r"/format/avro/avro_file_format_factory\.cpp$")

FLAGS = [
    "-std=c++17", "-I%s/src" % REPO, "-I%s/include" % REPO,
    "-I%s/third_party/roaring_bitmap" % REPO, "-I%s/third_party/xxhash" % REPO,
    "-I%s" % STUBS,
    "-DPAIMON_ENABLE_ORC", "-DPAIMON_ENABLE_AVRO", "-DSNAPPY_CODEC_AVAILABLE",
    "-DZSTD_CODEC_AVAILABLE", "-DRAPIDJSON_HAS_STDSTRING",
    "-resource-dir", "%s/lib/clang/18" % LLVM, "-Wno-everything",
]


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (neither pass nor violation)."""


_hash_cache = {}


def file_hash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "-"
        _hash_cache[path] = h
    return h


def tool_path():
    return os.path.join(BUILD, "pextract-" + file_hash(TOOL_SRC)[:16])


def ensure_tool():
    out = tool_path()
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++", "-O1", "-std=c++17", "-fno-rtti", "-D_GNU_SOURCE",
           "-I%s/include" % LLVM, TOOL_SRC, "-o", tmp,
           "%s/lib/libclang-cpp.so.18.1" % LLVM, "-L%s/lib" % LLVM, "-lLLVM-18"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise AnalysisBroken("cannot build the extractor:\n" + p.stderr[-2000:])
    os.replace(tmp, out)
    return out


def list_tus():
    """All analysed translation units: in-scope sources plus our own
    instantiation file for header-only templates."""
    tus = []
    for f in sorted(glob.glob(REPO + "/src/paimon/**/*.cpp", recursive=True)):
        if f.endswith("_test.cpp"):
            continue
        if OUT_OF_SCOPE.search(f) and not IN_SCOPE.search(f):
            continue
        tus.append(f)
    return tus + sorted(glob.glob(VERIF + "/inst/*.cpp"))


def _cache_file(tu):
    return os.path.join(BUILD, "facts", hashlib.sha1(tu.encode()).hexdigest() + ".pkl")


_key = None


def _flags_key():
    global _key
    if _key is None:
        stubs = "".join(file_hash(p) for p in sorted(glob.glob(STUBS + "/**/*.h", recursive=True)))
        _key = hashlib.sha1((" ".join(FLAGS) + tool_path() + stubs).encode()).hexdigest()
    return _key


def _fresh(rec):
    if rec["key"] != _flags_key():
        return False
    return all(file_hash(p) == h for p, h in rec["deps"].items())


def _extract(tu):
    cf = _cache_file(tu)
    if os.path.exists(cf):
        try:
            with open(cf, "rb") as f:
                rec = pickle.load(f)
            if _fresh(rec):
                return rec
        except Exception:
            pass
    tmp = cf + ".%d.json" % os.getpid()
    p = subprocess.run([tool_path(), tmp, "%s/src/,%s/include/,%s/inst/" % (REPO, REPO, VERIF), tu, "--"] + FLAGS,
                       capture_output=True, text=True)
    if not os.path.exists(tmp):
        raise AnalysisBroken("extraction failed for %s (rc=%d): %s" % (tu, p.returncode, p.stderr[-800:]))
    with open(tmp) as f:
        d = json.load(f)
    os.unlink(tmp)
    deps = {}
    for x in d["deps"]:
        x = os.path.normpath(x)
        if x.startswith(REPO + "/") or x.startswith(VERIF + "/"):
            deps[x] = file_hash(x)
    deps[tu] = file_hash(tu)
    rec = {"key": _flags_key(), "tu": tu, "deps": deps, 
           "functions": [(f["id"], f["fn"], pickle.dumps(f, protocol=5)) for f in d["functions"]],
           "records": d["records"], "enums": d["enums"], "globals": d["globals"],
           "errors": d["errors"]}
    tmp2 = cf + ".%d" % os.getpid()
    with open(tmp2, "wb") as f:
        pickle.dump(rec, f, protocol=5)
    os.replace(tmp2, cf)
    return rec


def extract(tus):
    ensure_tool()
    os.makedirs(os.path.join(BUILD, "facts"), exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(_extract, tus))


class Program:
    """The merged typed program."""

    def __init__(self, recs):
        self.by_id = {}
        self.by_name = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.tus = [r["tu"] for r in recs]
        self.errors = []
        for r in recs:
            if r["errors"]:
                self.errors.append((r["tu"], r["errors"]))
            for fid, fn, blob in r["functions"]:
                if fid in self.by_id:
                    continue
                f = pickle.loads(blob)
                self.by_id[fid] = f
                self.by_name.setdefault(fn, []).append(f)
            for c in r["records"]:
                k = c["q"] + ("<" + c["ta"] + ">" if c.get("ta") else "")
                if k not in self.records:
                    self.records[k] = c
                if c.get("ty") and c["ty"] not in self.records:
                    self.records[c["ty"]] = c
            for c in r["enums"]:
                self.enums.setdefault(c["q"], c)
            for c in r["globals"]:
                self.globals.setdefault(c["q"] if "q" in c else c["n"], c)

    def fns(self, name):
        return [f for f in self.by_name.get(name, []) if f.get("body") is not None]


def load(prefixes=None, clients=()):
    """Load the program of all translation units (or those whose repo-relative
    path starts with one of the prefixes; the instantiation file always; the
    named client files)."""
    own = ["inst"] + list(clients)
    tus = [t for t in list_tus() if not t.startswith(VERIF) or os.path.basename(t)[:-4] in own]
    if prefixes is not None:
        base = REPO + "/src/paimon/"
        sel = [t for t in tus if t.startswith(VERIF) or any(t[len(base):].startswith(p) for p in prefixes)]
        miss = [p for p in prefixes if not any(t[len(base):].startswith(p) for t in tus if t.startswith(base))]
        if miss:
            raise AnalysisBroken("anchored sources are gone: " + ", ".join(miss))
        tus = sel
    recs = extract(tus)
    return Program(recs)


if __name__ == "__main__":
    import time
    t = time.time()
    prog = load(None, [os.path.basename(p)[:-4] for p in glob.glob(VERIF + "/inst/*.cpp")])
    print("%d translation units, %d functions, %d parse errors, %.1f s" % (
        len(prog.tus), len(prog.by_id), len(prog.errors), time.time() - t))
    for tu, e in prog.errors[:20]:
        print("  ", tu, e)
