"""Persistent codes and names keep their meaning.

For every code table the conversion functions are evaluated abstractly for
each known code and for "any other input": a known code gives the kind whose
own code/name accessors give the same code back, and every other input is
rejected.  Conditional constant propagation over the conversion functions; no
assumption on how the mapping is written (switch, if chain, table)."""
from dom import c, mk_eq0, not_, op, sub
from rules import AnalysisBroken, Path, show, teq
from specs import THIS, call, constref, eq, loc_of, only, params, strarg, value

PREFIXES = ["common/types/row_kind", "core/manifest/file_kind", "core/manifest/file_source", "core/table/source/startup_mode",
            "core/snapshot.cpp", "common/defs", "common/utils/status"]
MIN_OBLIGATIONS = 150
RULES = {
    "R1-byte-codes": "FromByteValue(code) yields the kind whose ToByteValue() is that code; every other byte is an error",
    "R2-names": "names and short strings map to the same kinds in both directions; unknown names are errors",
    "R3-classes": "retract/add classification of row kinds",
    "R4-option-keys": "option keys keep their documented spelling and are pairwise distinct",
    "R5-status-codes": "status code numbers, their names and the Is*/factory functions agree",
}

ROW = [("Insert", 0, "+I", "INSERT", False), ("UpdateBefore", 1, "-U", "UPDATE_BEFORE", True),
       ("UpdateAfter", 2, "+U", "UPDATE_AFTER", False), ("Delete", 3, "-D", "DELETE", True)]
MODES = [("Default", "default"), ("LatestFull", "latest-full"), ("Latest", "latest"), ("FromSnapshot", "from-snapshot"),
         ("FromSnapshotFull", "from-snapshot-full")]
COMMIT = [("Append", 0, "APPEND"), ("Compact", 1, "COMPACT"), ("Overwrite", 2, "OVERWRITE"), ("Analyze", 3, "ANALYZE")]
STATUS = [("OK", 0, "OK"), ("OutOfMemory", 1, "Out of memory"), ("KeyError", 2, "Key error"), ("TypeError", 3, "Type error"),
          ("Invalid", 4, "Invalid"), ("IOError", 5, "IOError"), ("CapacityError", 6, "Capacity error"),
          ("IndexError", 7, "Index error"), ("UnknownError", 9, "Unknown error"), ("NotImplemented", 10, "NotImplemented"),
          ("SerializationError", 11, "Serialization error"), ("NotExist", 12, "NotExist"), ("Exist", 13, "Exist")]
OPTIONS = {
    "FIELDS_SEPARATOR": ",", "FIELDS_PREFIX": "fields", "AGG_FUNCTION": "aggregate-function",
    "DEFAULT_AGG_FUNCTION": "default-aggregate-function", "IGNORE_RETRACT": "ignore-retract", "SEQUENCE_GROUP": "sequence-group",
    "BUCKET": "bucket", "BUCKET_KEY": "bucket-key", "FILE_FORMAT": "file.format", "FILE_SYSTEM": "file-system",
    "TARGET_FILE_SIZE": "target-file-size", "BLOB_TARGET_FILE_SIZE": "blob.target-file-size", "PAGE_SIZE": "page-size",
    "PARTITION_DEFAULT_NAME": "partition.default-name", "FILE_COMPRESSION": "file.compression",
    "FILE_COMPRESSION_ZSTD_LEVEL": "file.compression.zstd-level", "MANIFEST_TARGET_FILE_SIZE": "manifest.target-file-size",
    "MANIFEST_FORMAT": "manifest.format", "MANIFEST_COMPRESSION": "manifest.compression",
    "MANIFEST_MERGE_MIN_COUNT": "manifest.merge-min-count",
    "MANIFEST_FULL_COMPACTION_FILE_SIZE": "manifest.full-compaction-threshold-size",
    "SOURCE_SPLIT_TARGET_SIZE": "source.split.target-size", "SOURCE_SPLIT_OPEN_FILE_COST": "source.split.open-file-cost",
    "SCAN_SNAPSHOT_ID": "scan.snapshot-id", "SCAN_MODE": "scan.mode", "READ_BATCH_SIZE": "read.batch-size",
    "WRITE_BATCH_SIZE": "write.batch-size", "WRITE_BUFFER_SIZE": "write-buffer-size",
    "SNAPSHOT_NUM_RETAINED_MIN": "snapshot.num-retained.min", "SNAPSHOT_NUM_RETAINED_MAX": "snapshot.num-retained.max",
    "SNAPSHOT_TIME_RETAINED": "snapshot.time-retained", "SNAPSHOT_EXPIRE_LIMIT": "snapshot.expire.limit",
    "SNAPSHOT_CLEAN_EMPTY_DIRECTORIES": "snapshot.clean-empty-directories", "COMMIT_TIMEOUT": "commit.timeout",
    "COMMIT_MAX_RETRIES": "commit.max-retries", "SEQUENCE_FIELD": "sequence.field",
    "SEQUENCE_FIELD_SORT_ORDER": "sequence.field.sort-order", "MERGE_ENGINE": "merge-engine", "SORT_ENGINE": "sort-engine",
    "IGNORE_DELETE": "ignore-delete", "FIELDS_DEFAULT_AGG_FUNC": "fields.default-aggregate-function",
    "DELETION_VECTORS_ENABLED": "deletion-vectors.enabled", "CHANGELOG_PRODUCER": "changelog-producer",
    "FORCE_LOOKUP": "force-lookup", "PARTIAL_UPDATE_REMOVE_RECORD_ON_DELETE": "partial-update.remove-record-on-delete",
    "PARTIAL_UPDATE_REMOVE_RECORD_ON_SEQUENCE_GROUP": "partial-update.remove-record-on-sequence-group",
    "SCAN_FALLBACK_BRANCH": "scan.fallback-branch", "BRANCH": "branch", "FILE_INDEX_READ_ENABLED": "file-index.read.enabled",
    "DATA_FILE_EXTERNAL_PATHS": "data-file.external-paths",
    "DATA_FILE_EXTERNAL_PATHS_STRATEGY": "data-file.external-paths.strategy", "DATA_FILE_PREFIX": "data-file.prefix",
    "INDEX_FILE_IN_DATA_FILE_DIR": "index-file-in-data-file-dir", "ROW_TRACKING_ENABLED": "row-tracking.enabled",
    "DATA_EVOLUTION_ENABLED": "data-evolution.enabled", "PARTITION_GENERATE_LEGACY_NAME": "partition.legacy-name",
    "BLOB_AS_DESCRIPTOR": "blob-as-descriptor", "GLOBAL_INDEX_ENABLED": "global-index.enabled",
}


def accessor(ck, st, eng, cls, name, obj):
    f = ck.fn("%s::%s" % (cls, name), 0)
    p = only(ck.run(f, eng, this=obj, st=st.copy()), f["fn"])
    return value(p)


def is_str(v, text):
    return v == ("s", text)


def byte_codes(ck, rule, cls, codes, check_kind):
    """FromByteValue over all known codes and over anything else"""
    f = ck.fn(cls + "::FromByteValue", 1)
    v = params(f)[0]
    for name, code in codes:
        eng = ck.engine()
        st = eng.new_state()
        ps = ck.run(f, eng, args=[c(code)], st=st)
        for p in ps:
            if not ck.require(p.ok is True, rule, f, None, "%s|%s" % (f["fn"], name), "code %d of %s is not accepted" % (code, name), p):
                continue
            check_kind(p, loc_of(eng, p.okval()), name, f)
    eng = ck.engine()
    st = eng.new_state()
    for _, code in codes:
        st.facts.assume(not_(eq(v, c(code))), True)
    for p in ck.run(f, eng, st=st):
        ck.require(p.ok is False, rule, f, None, f["fn"] + "|other", "a byte that is no known code is accepted", p)


def check(ck):
    row_kind(ck)
    simple_kind(ck, "paimon::FileKind", [("Add", 0), ("Delete", 1)])
    simple_kind(ck, "paimon::FileSource", [("Append", 0), ("Compact", 1)])
    file_source_names(ck)
    startup_mode(ck)
    commit_kind(ck)
    options(ck)
    status(ck)


def row_kind(ck):
    C = "paimon::RowKind"
    tbl = {r[0]: r for r in ROW}

    def kind(p, loc, name, f):
        n, code, short, full, retract = tbl[name]
        eng = p.eng
        b = accessor(ck, p.st, eng, C, "ToByteValue", loc)
        ck.require(b == c(code), "R1-byte-codes", f, None, "%s|%s byte" % (f["fn"], name), "%s has byte value %s instead of %d" % (name, show(b), code), p)
        s = accessor(ck, p.st, eng, C, "ShortString", loc)
        ck.require(is_str(s, short), "R2-names", f, None, "%s|%s short" % (f["fn"], name), "%s has short string %s instead of %s" % (name, show(s), short), p)
        s = accessor(ck, p.st, eng, C, "Name", loc)
        ck.require(is_str(s, full), "R2-names", f, None, "%s|%s name" % (f["fn"], name), "%s has name %s instead of %s" % (name, show(s), full), p)
        for m, want in (("IsRetract", retract), ("IsAdd", not retract)):
            g = ck.fn("%s::%s" % (C, m), 0)
            for q in ck.run(g, eng, this=loc, st=p.st.copy()):
                t = q.st.facts.truth(q.val)
                ck.require(t is want, "R3-classes", g, None, "%s|%s" % (g["fn"], name), "%s() of %s is %s" % (m, name, show(q.val)), q)
    byte_codes(ck, "R1-byte-codes", C, [(r[0], r[1]) for r in ROW], kind)
    for name, code, short, full, retract in ROW:
        f = ck.fn("%s::%s" % (C, name), 0)
        p = only(ck.run(f), f["fn"])
        kind(p, loc_of(p.eng, p.val), name, f)
    f = ck.fn(C + "::FromShortString", 1)
    for name, code, short, full, retract in ROW:
        eng = ck.engine()
        st = eng.new_state()
        for p in ck.run(f, eng, args=[strarg(eng, st, short)], st=st):
            if ck.require(p.ok is True, "R2-names", f, None, "%s|%s" % (f["fn"], name), "short string %s is not accepted" % short, p):
                kind(p, loc_of(eng, p.okval()), name, f)
    other_string(ck, "R2-names", f, [r[2] for r in ROW], "short string")


def other_string(ck, rule, f, known, what):
    """a string different from all known ones is rejected"""
    eng = ck.engine()
    st = eng.new_state()
    l = ("D", ("v", "&const:unknown"))
    st.store[l] = ("s", "\x01no such name")
    for p in ck.run(f, eng, args=[("ref", l)], st=st):
        ck.require(p.ok is False, rule, f, None, f["fn"] + "|other", "an unknown %s is accepted" % what, p)


def simple_kind(ck, C, codes):
    tbl = dict(codes)

    def kind(p, loc, name, f):
        b = accessor(ck, p.st, p.eng, C, "ToByteValue", loc)
        ck.require(b == c(tbl[name]), "R1-byte-codes", f, None, "%s|%s byte" % (f["fn"], name), "%s has byte value %s instead of %d" % (name, show(b), tbl[name]), p)
    byte_codes(ck, "R1-byte-codes", C, codes, kind)
    for name, code in codes:
        f = ck.fn("%s::%s" % (C, name), 0)
        p = only(ck.run(f), f["fn"])
        kind(p, loc_of(p.eng, p.val), name, f)
    # equality distinguishes exactly the codes
    f = ck.fn(C + "::operator==", 1)
    eng = ck.engine()
    st = eng.new_state()
    other = ("D", ("v", "&other"))
    g = ck.fn(C + "::ToByteValue", 0)
    a = value(only(ck.run(g, eng, this=THIS, st=st.copy()), g["fn"]))
    b = value(only(ck.run(g, eng, this=other, st=st.copy()), g["fn"]))
    for p in ck.run(f, eng, this=THIS, args=[("ref", other)], st=st):
        ck.oblig("R1-byte-codes")
        t = p.st.facts.truth(p.val)
        same = any(x == "==" for x in ())
        if any(at[0] == "op" and at[1] == "==" and tv for at, tv in p.st.facts.atoms.items()):
            ck.require(t is True, "R1-byte-codes", f, None, f["fn"] + "|self", "an object is not equal to itself", p)
            continue
        good = (p.val == eq(a, b) or p.val == eq(b, a)) or (t is not None and p.st.facts.truth(eq(a, b)) is t)
        ck.require(good, "R1-byte-codes", f, None, f["fn"] + "|eq", "equality is %s, not equality of the codes" % show(p.val), p)


def file_source_names(ck):
    f = ck.fn("paimon::FileSource::ToString", 0)
    for name, text in (("Append", "APPEND"), ("Compact", "COMPACT")):
        g = ck.fn("paimon::FileSource::" + name, 0)
        q = only(ck.run(g), g["fn"])
        for p in ck.run(f, q.eng, this=loc_of(q.eng, q.val), st=q.st.copy()):
            ck.require(is_str(value(p), text), "R2-names", f, None, "%s|%s" % (f["fn"], name), "%s is printed as %s" % (name, show(value(p))), p)


def startup_mode(ck):
    C = "paimon::StartupMode"
    f = ck.fn(C + "::FromString", 1)
    for name, text in MODES:
        g = ck.fn("%s::%s" % (C, name), 0)
        q = only(ck.run(g), g["fn"])
        s = accessor(ck, q.st, q.eng, C, "ToString", loc_of(q.eng, q.val))
        ck.require(is_str(s, text), "R2-names", g, None, g["fn"], "%s is spelled %s instead of %s" % (name, show(s), text), q)
        eng = ck.engine()
        st = eng.new_state()
        for p in ck.run(f, eng, args=[strarg(eng, st, text)], st=st):
            if ck.require(p.ok is True, "R2-names", f, None, "%s|%s" % (f["fn"], name), "'%s' is not accepted" % text, p):
                s = accessor(ck, p.st, eng, C, "ToString", loc_of(eng, p.okval()))
                ck.require(is_str(s, text), "R2-names", f, None, "%s|%s value" % (f["fn"], name), "'%s' is read as %s" % (text, show(s)), p)
    other_string(ck, "R2-names", f, [m[1] for m in MODES], "startup mode")


def commit_kind(ck):
    C = "paimon::Snapshot::CommitKind"
    fs, ts = ck.fn(C + "::FromString", 1), ck.fn(C + "::ToString", 1)
    for name, code, text in COMMIT:
        g = ck.fn("%s::%s" % (C, name), 0)
        q = only(ck.run(g), g["fn"])
        loc = loc_of(q.eng, q.val)
        for p in ck.run(ts, q.eng, args=[("ref", loc)], st=q.st.copy()):
            ck.require(is_str(value(p), text), "R2-names", ts, None, "%s|%s" % (ts["fn"], name), "%s is written as %s" % (name, show(value(p))), p)
        eng = ck.engine()
        st = eng.new_state()
        for p in ck.run(fs, eng, args=[strarg(eng, st, text)], st=st):
            for r in ck.run(ts, eng, args=[("ref", loc_of(eng, p.val))], st=p.st.copy()):
                ck.require(is_str(value(r), text), "R2-names", fs, None, "%s|%s" % (fs["fn"], name), "'%s' is read as %s" % (text, show(value(r))), r)
    # anything else is no known kind
    eng = ck.engine()
    st = eng.new_state()
    for p in ck.run(fs, eng, args=[strarg(eng, st, "\x01no such kind")], st=st):
        for r in ck.run(ts, eng, args=[("ref", loc_of(eng, p.val))], st=p.st.copy()):
            ck.require(value(r) not in [("s", x[2]) for x in COMMIT], "R2-names", fs, None, fs["fn"] + "|other",
                       "an unknown commit kind is read as %s" % show(value(r)), r)


def options(ck):
    seen = {}
    n = 0
    for q, g in ck.prog.globals.items():
        if not q.startswith("paimon::Options::"):
            continue
        name = q.split("::")[-1]
        init = g.get("init") or g.get("e") or {}
        text = init.get("v") if init.get("k") == "str" else None
        if text is None:
            continue
        n += 1
        want = OPTIONS.get(name)
        if want is not None:
            ck.require(text == want, "R4-option-keys", g["file"], g.get("line") or g.get("l"), q, "option %s is spelled '%s' instead of '%s'" % (name, text, want))
        ck.require(text not in seen, "R4-option-keys", g["file"], g.get("line") or g.get("l"), q + "|distinct", "option %s has the same key as %s" % (name, seen.get(text)))
        seen[text] = name
    if n < len(OPTIONS) - 5:
        raise AnalysisBroken("only %d option keys found" % n)


def status(ck):
    R = "R5-status-codes"
    en = ck.prog.enums.get("paimon::StatusCode")
    if en is None:
        raise AnalysisBroken("StatusCode is gone")
    vals = {k: int(v) for k, v in en["e"]}
    for name, code, text in STATUS:
        ck.require(vals.get(name) == code, R, en["file"] if "file" in en else "include/paimon/status.h", en.get("line"), "StatusCode::" + name,
                   "%s has code %s instead of %d" % (name, vals.get(name), code))
    f = ck.fn("paimon::Status::CodeAsString", 1)
    for name, code, text in STATUS:
        for p in ck.run(f, args=[c(code)]):
            ck.require(is_str(value(p), text), R, f, None, "%s|%s" % (f["fn"], name), "%s is printed as %s" % (name, show(value(p))), p)
    for name, code, text in STATUS[1:]:
        n = "Is" + name
        g = [x for x in ck.prog.fns("paimon::Status::" + n)]
        if not g:
            raise AnalysisBroken("Status::%s is gone" % n)
        g = g[0]
        for name2, code2, _ in STATUS:
            eng = ck.engine(handlers={"paimon::Status::code": lambda eng, e, st, fr, code2=code2: [(st, c(code2))]})
            for p in ck.run(g, eng, this=THIS):
                t = p.st.facts.truth(p.val)
                ck.require(t is (code == code2), R, g, None, "%s|%s" % (g["fn"], name2), "%s() of a %s status is %s" % (n, name2, show(p.val)), p)
        mk = [x for x in ck.prog.fns("paimon::Status::" + name) if not x.get("dep")]
        if not mk:
            raise AnalysisBroken("Status::%s is gone" % name)
        for m in mk[:1]:
            eng = ck.engine(raw=("Status",))
            cd = ck.fn("paimon::Status::code", 0)
            for p in ck.run(m, eng):
                for q in ck.run(cd, eng, this=loc_of(eng, p.val), st=p.st.copy()):
                    ck.require(q.val == c(code), R, m, None, "paimon::Status::%s" % name, "the %s factory creates code %s" % (name, show(q.val)), q)
