"""P14: under a declared checksum only the declared bytes are ever used; read errors surface."""
import copy
import gzip
import hashlib
import io
import os
import warnings

import numpy as np
import pandas as pd

from ..comps import Plan
from ..disk import Disk
from ..rng import mix
from ..world import World, note, trace_digest

N = {"quick": 2200, "thorough": 40000}
RULE = "a distinct event log of loads or checks of a file whose bytes, damage, read errors and short reads the seed chose"
STATE_MEASURE = "distinct (mode, file kind, size class, algorithm, damage, read fault, declared-hash form, history) tuples"
REAL = "pywr loading and hashing, hashlib, pandas, PyTables, gzip, openpyxl and the kernel's file system"
STUB = "answers of the raw read calls of the data files where a fault or a short read is planned; the clock that stamps modified files"
ASSUMPTIONS = ["a file does not change between the check and the read of one single load call", "a modified file has another modification time, size or inode"]

ALGOS = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s", "sha3_256", "sha3_512"]
BUF = io.DEFAULT_BUFFER_SIZE
SIZES = [0, 1, 2, 63, 64, 65, 511, 512, 4095, 4096, 4097, BUF - 1, BUF, BUF + 1, 2 * BUF - 1, 2 * BUF, 2 * BUF + 1, 3 * BUF + 17, 65536, 100000, 8 * BUF, 131072, 131073, 262144 + 5]
DAMAGE = ["flip", "flip", "flip", "first", "last", "truncate1", "truncate", "append", "append0", "swap", "drop", "dup", "zero", "empty", "insert", "boundary"]


def gen(r, i, tier):
    mode = r.weighted({"load": 6, "direct": 5})
    c = {"mode": mode, "seed": r.randrange(1 << 30)}
    if mode == "direct":
        nf = r.randint(1, 2)
        c["files"] = [r.pick(SIZES + [r.randrange(1, 40000), r.randrange(1, 300000)]) for _ in range(nf)]
        ops = []
        for _ in range(r.randint(2, 9)):
            k = r.weighted({"check": 6, "damage": 2.5, "restore": 1.5, "hash": 1})
            op = {"op": k, "f": r.randrange(nf)}
            if k in ("check", "hash"):
                op["algo"] = r.pick(ALGOS)
                op["form"] = r.pick(["lower", "lower", "upper", "mixed"])
                op["claim"] = r.weighted({"now": 4, "original": 4, "other": 1, "short": 0.7, "long": 0.4, "empty": 0.3, "otheralgo": 0.7, "near": 1})
                if r.p(0.4):
                    op["chunk"] = r.pick([1, 7, 100, 4096, BUF, BUF + 1, 1 << 20])
                if r.p(0.3):
                    op["cold"] = True       # without the model's cache
                op["short"] = r.pick([0, 0, r.randrange(1, 1 << 20)])
                if r.p(0.25):
                    op["fault"] = {"op": r.pick(["read", "read", "read", "open"]), "n": r.pick([0, 0, 1, 2, 3, 8]), "err": r.pick(["EIO", "EIO", "EACCES"]), "sticky": r.p(0.5)}
            elif k == "damage":
                op["how"], op["pos"] = r.pick(DAMAGE), r.random()
            ops.append(op)
        c["ops"] = ops
        return c
    kind = r.pick(["csv", "csv", "csv", "gz", "hdf", "tablesarray", "tablesarray", "xlsx"])
    c["kind"] = kind
    c["size"] = r.pick([0, 0, 0, BUF - 1, BUF, BUF + 1, 2 * BUF, 2 * BUF + 1, 20000, 100000])
    c["how"] = r.pick(["param", "param", "table", "profile"]) if kind != "tablesarray" else "param"
    algos = r.sample(ALGOS, r.pick([1, 1, 1, 2, 3]))
    c["sums"] = [[a, r.weighted({"right": 8, "upper": 2, "mixed": 1})] for a in algos]
    if r.p(0.25):
        c["sums"][r.randrange(len(algos))][1] = r.pick(["other", "short", "near", "empty", "otheralgo", "long"])
    if r.p(0.05):
        c["sums"].append(["nonesuch", "right"])
    c["damage"] = {"how": r.pick(DAMAGE), "pos": r.random()} if r.p(0.6) else None
    c["when"] = r.weighted({"before": 3, "between": 2, "setup": 1.5 if kind == "tablesarray" else 0})
    c["short"] = r.pick([0, 0, r.randrange(1, 1 << 20)])
    if r.p(0.3):
        c["fault"] = {"op": r.pick(["read", "read", "read", "open"]), "n": r.pick([0, 0, 1, 1, 2, 3, 5, 9]), "err": "EIO", "sticky": r.p(0.5)}
    c["path"] = r.pick(["rel", "rel", "abs"])
    c["twice"] = r.p(0.4)       # a second parameter reads the same file, with its own declaration
    if c["twice"]:
        c["sums2"] = [[r.pick(ALGOS), r.weighted({"right": 3, "other": 1, "near": 1})]] if r.p(0.8) else None
        if c["sums2"] is None and kind in ("hdf", "tablesarray"):
            c["sums2"] = [[r.pick(ALGOS), "right"]]     # the HDF5 library may crash on a damaged file it is told to read
    return c


def content(size, seed):
    rng = np.random.Generator(np.random.PCG64(seed))
    return rng.bytes(size)


def damage(raw, how, pos):
    """The same file with something wrong; never equal to the original."""
    n = len(raw)
    b = bytearray(raw)
    k = min(int(pos * n), n - 1) if n else 0
    if how == "empty":
        return b"" if n else b"\x00"
    if n == 0 or how in ("append", "append0"):
        return bytes(b) + (b"\x00" if how == "append0" else b"\n")
    if how == "flip":
        b[k] ^= 1 << (int(pos * 1000) % 8)
    elif how == "first":
        b[0] ^= 0x10
    elif how == "last":
        b[-1] ^= 1
    elif how == "truncate1":
        b = b[:-1]
    elif how == "truncate":
        b = b[:k]
    elif how == "insert":
        b[k:k] = b"5"
    elif how == "swap" and n > 1:
        j = (k + n // 2) % n
        b[k], b[j] = b[j], b[k]
    elif how == "drop":
        del b[k: k + max(1, min(BUF, n // 4))]
    elif how == "dup":
        s = b[k: k + BUF]
        b[k:k] = s
    elif how == "zero":
        for x in range(k, min(n, k + 512)):
            b[x] = 0
    elif how == "boundary":
        j = (n // BUF) * BUF
        b = b[:j] if j < n else b[:-1]
    if bytes(b) == raw:
        b[k] ^= 0xFF
    return bytes(b)


def digest(raw, algo):
    return hashlib.new(algo, raw).hexdigest()


def form(h, how, raw, algo):
    if how in ("right", "lower", "now"):
        return h
    if how == "upper":
        return h.upper()
    if how == "mixed":
        return "".join(x.upper() if i % 3 == 0 else x for i, x in enumerate(h))
    if how == "short":
        return h[:-1]
    if how == "long":
        return h + "0"
    if how == "empty":
        return ""
    if how == "near":
        return h[:-1] + ("0" if h[-1] != "0" else "1")
    if how == "otheralgo":
        a = ALGOS[(ALGOS.index(algo) + 1) % len(ALGOS)]
        return digest(raw, a)
    return digest(raw + b"x", algo)


GOOD = ("right", "upper", "mixed", "lower")


def stamp(path, clock):
    os.utime(path, ns=(clock * 1_000_000_000, clock * 1_000_000_000))


def put(path, raw, clock):
    with open(path, "wb") as f:
        f.write(raw)
    stamp(path, clock)


def run(case, ctx):
    (direct if case["mode"] == "direct" else load)(case, ctx)


# -- the checking function over any bytes, any history --------------------------------------
def direct(case, ctx):
    from pywr.core import Model
    from pywr.hashes import HashMismatchError, check_hash, compute_hash

    model = Model(solver="null")
    orig = [content(s, case["seed"] + k) for k, s in enumerate(case["files"])]
    now = list(orig)
    clock = 1_000_000_000
    for k, b in enumerate(now):
        put(f"f{k}.bin", b, clock)
    checked = set()
    for op in case["ops"]:
        f, k = f"f{op['f']}.bin", op["op"]
        raw = now[op["f"]]
        if k in ("damage", "restore"):
            clock += 7
            now[op["f"]] = damage(raw, op["how"], op["pos"]) if k == "damage" else orig[op["f"]]
            put(f, now[op["f"]], clock)
            if k == "damage":
                ctx.fault("file-" + op["how"])
            continue
        a = op["algo"]
        base = raw if op["claim"] != "original" else orig[op["f"]]
        want = form(digest(base, a), op["claim"] if op["claim"] not in ("now", "original") else op["form"], base, a)
        same = want.lower() == digest(raw, a)
        kw = {"chunk_size": op["chunk"]} if op.get("chunk") and (op["chunk"] >= 100 or len(raw) < 20000) else {}
        flt = [dict(op["fault"], file=f)] if op.get("fault") else []
        cached = (f, a) in checked and not op.get("cold")
        with Disk([f], flt, op.get("short", 0)) as dk:
            try:
                if k == "hash":
                    got = compute_hash(f, algorithm=a, **kw)
                elif op.get("cold"):
                    got = check_hash(f, want, algorithm=a, **kw)
                else:
                    got = model.check_hash(f, want, algorithm=a, **kw)
                e = None
            except Exception as x:
                e = x
        for x in dk.fired:
            ctx.fault("OSError@" + x["op"])
        if dk.shorts:
            ctx.fault("short-read", dk.shorts)
        ctx.log(k, f, a, op["claim"], same, type(e).__name__, bool(dk.fired))
        size = len(raw)
        cls = ("0" if not size else "<" if size < BUF else "=" if size % BUF == 0 else ">")
        ctx.state("direct", k, a, op["claim"], cls, bool(dk.shorts), [x["op"] for x in dk.fired], cached)
        if dk.fired:
            ctx.ok(e is not None and (e is dk.fired[0]["err"] or chain(e, dk.fired[0]["err"])), "read-error-lost", f"{dk.fired[0]['op']} of {f} failed, outcome {e!r}")
        elif k == "hash":
            ctx.ok(e is None and got == digest(raw, a), "wrong-hash", f"{a} of {size} bytes: {e!r}")
        elif same:
            ctx.ok(e is None, "good-file-refused", f"{a} of {size} bytes, declared {op['claim']}: {e!r}")
            checked.add((f, a))
        else:
            ctx.ok(isinstance(e, HashMismatchError), "damaged-file-accepted", f"{a} of {size} bytes, declared {op['claim']} ({op['form']}): {e!r}")
        ctx.nontrivial = True


def chain(e, err):
    for _ in range(10):
        if e is None:
            return False
        if e is err:
            return True
        e = e.__cause__ or e.__context__
    return False


# -- loading a document ---------------------------------------------------------------------
DAYS = 40


def build(case):
    """(file name, bytes, expected values of the first days)"""
    kind, seed, size = case["kind"], case["seed"], case["size"]
    vals = [round(1 + 9 * mix(seed, k), 3) for k in range(DAYS)]
    monthly = [round(1 + 9 * mix(seed, k, 5), 3) for k in range(12)]
    dates = pd.date_range("2001-03-01", periods=DAYS, freq="D")
    prof = case["how"] == "profile"
    src = monthly if prof else vals
    df = pd.DataFrame({"c0": src}, index=pd.Index(range(1, 13), name="m") if prof else pd.DatetimeIndex(dates, name="date"))
    if kind in ("csv", "gz"):
        df["pad"] = ""
        text = "".join([f"{df.index.name},c0,pad\n"] + [f"{x if prof else x.date()},{v},\n" for x, v in zip(df.index, src)])
        if size > len(text):
            text = text[:-1] + "x" * (size - len(text)) + "\n"
        raw = text.encode()
        if kind == "gz":
            raw = gzip.compress(raw, mtime=0)
        return "data.csv" + (".gz" if kind == "gz" else ""), raw, src
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "xlsx":
            df.to_excel("tmp.xlsx")
            return "data.xlsx", open("tmp.xlsx", "rb").read(), src
        if kind == "hdf":
            df.to_hdf("tmp.h5", key="k", mode="w")
            return "data.h5", open("tmp.h5", "rb").read(), src
        import tables

        with tables.open_file("tmp.h5", "w") as h:
            h.create_array("/", "arr", np.array([[v] for v in vals]))
            if size:
                h.create_array("/", "pad", np.zeros(size // 8))
        return "data.h5", open("tmp.h5", "rb").read(), src


def reader(case):
    kind, prof = case["kind"], case["how"] == "profile"
    if kind in ("csv", "gz"):
        return {"index_col": 0, **({} if prof else {"parse_dates": True}), "column": "c0"}
    if kind == "xlsx":
        return {"index_col": 0, "column": "c0"}
    if kind == "hdf":
        return {"key": "k", "column": "c0"}
    return {"node": "arr"}


def document(case, url, sums, sums2):
    how = {"url": url, **reader(case)}
    if sums is not None:
        how["checksum"] = sums
    p = {}
    tables = {}
    ty = {"tablesarray": "tablesarray"}.get(case["kind"], "dataframe")
    if case["how"] == "profile":
        ty = "monthlyprofile"
    if case["how"] == "table":
        col = how.pop("column")
        tables["t"] = how
        p["v"] = {"type": "dataframe", "table": "t", "column": col}
    else:
        p["v"] = {"type": ty, **how}
    if case["twice"]:
        h2 = {"url": url, **reader(case)}
        if sums2 is not None:
            h2["checksum"] = sums2
        p["w"] = {"type": ty if ty != "tablesarray" or True else ty, **h2}
    doc = {"metadata": {"title": "x", "minimum_version": "0.1"}, "timestepper": {"start": "2001-03-01", "end": "2001-03-12", "timestep": 1},
           "nodes": [{"name": "i", "type": "Input", "max_flow": 100.0}, {"name": "o", "type": "Output", "max_flow": "v", "cost": -1.0}] + ([{"name": "o2", "type": "Output", "max_flow": "w", "cost": -1.0}] if case["twice"] else []),
           "edges": [["i", "o"]] + ([["i", "o2"]] if case["twice"] else []), "parameters": p, "recorders": {}}
    if tables:
        doc["tables"] = tables
    return doc


def load(case, ctx):
    Plan.clear()
    name, raw, src = build(case)
    os.makedirs("m", exist_ok=True)
    path = os.path.join("m", name)
    clock = 1_000_000_000
    put(path, raw, clock)
    url = name if case["path"] == "rel" else os.path.abspath(path)

    def declare(lst):
        if lst is None:
            return None
        return {a: form(digest(raw, a), how, raw, a) if a in ALGOS else "00" for a, how in lst}

    sums = declare(case["sums"])
    sums2 = declare(case.get("sums2")) if case["twice"] else None
    right = all(how in GOOD and a in ALGOS for a, how in case["sums"]) and (sums2 is None or all(how in GOOD for a, how in case["sums2"]))
    doc = document(case, url, sums, sums2)
    bad = damage(raw, case["damage"]["how"], case["damage"]["pos"]) if case.get("damage") else None
    when = case["when"]

    def attempt(what, expect, faults=(), short=0, setup_damage=False):
        nonlocal clock
        with Disk([name], [dict(f, file=name) for f in faults], short) as dk:
            try:
                w = World(copy.deepcopy(doc), solver="glpk", path=os.path.abspath("m"))
                e = None
            except Exception as x:
                w, e = None, x
            if w is not None:
                if setup_damage:
                    clock += 7
                    put(path, bad, clock)
                    ctx.fault("file-" + case["damage"]["how"])
                e = w.run()
        for x in dk.fired:
            ctx.fault("OSError@" + x["op"])
        if dk.shorts:
            ctx.fault("short-read", dk.shorts)
        ctx.log(what, type(e).__name__, expect, bool(dk.fired))
        size = len(raw)
        ctx.state(case["kind"], case["how"], "=" if size % BUF == 0 else size // BUF, tuple(sorted(a for a, h in case["sums"])), tuple(h for a, h in case["sums"]), case["damage"] and case["damage"]["how"], when, what, bool(dk.shorts), [x["op"] for x in dk.fired], case["twice"])
        ctx.nontrivial = True
        if dk.fired:
            if expect:
                ctx.ok(e is not None and chain(e, dk.fired[0]["err"]), "read-error-lost", f"{what}: {dk.fired[0]['op']} of {name} failed, outcome {e!r}")
            else:
                ctx.ok(e is not None, "damaged-file-accepted", f"{what}: loaded and ran")
            return
        if not expect:
            ctx.ok(e is not None and w is None or setup_damage and e is not None, "damaged-file-accepted", f"{what}: {case['kind']} of {len(raw)} bytes, damage {case.get('damage')}, declared {case['sums']} {case.get('sums2')}: {e!r}")
            if e is not None and w is not None and len(w.trace):
                ctx.bad("values-used", f"{what}: {len(w.trace)} steps were simulated before {e!r}")
            return
        if not ctx.ok(e is None, "good-file-refused", f"{what}: {case['kind']} of {len(raw)} bytes, declared {case['sums']} {case.get('sums2')}: {e!r}"):
            return
        note(ctx, w.trace)
        trace_digest(ctx, w.trace)
        for k, s in enumerate(w.trace):
            v = src[2] if case["how"] == "profile" else src[k]
            for p in ("v", "w") if case["twice"] else ("v",):
                if not ctx.ok(abs(s["pv"][p][0] - v) < 1e-9, "wrong-values", f"{what}: day {k} of {p}: {s['pv'][p][0]} / {v}"):
                    return

    if bad is not None and when == "before":
        clock += 7
        put(path, bad, clock)
        ctx.fault("file-" + case["damage"]["how"])
        attempt("damaged", False, [case["fault"]] if case.get("fault") else [], case["short"])
        clock += 7
        put(path, raw, clock)
        attempt("restored", right)
    elif bad is not None and when == "between":
        attempt("first", right, short=case["short"])
        clock += 7
        put(path, bad, clock)
        ctx.fault("file-" + case["damage"]["how"])
        attempt("damaged", False, [case["fault"]] if case.get("fault") else [], case["short"])
        clock += 7
        put(path, raw, clock)
        attempt("restored", right)
    elif bad is not None and when == "setup" and right:
        attempt("damaged after loading", False, setup_damage=True)
        clock += 7
        put(path, raw, clock)
        attempt("restored", right)
    else:
        attempt("load", right, [case["fault"]] if case.get("fault") else [], case["short"])
        attempt("again", right)


def shrink(case):
    for k, op in enumerate(case.get("ops", [])):
        c = copy.deepcopy(case)
        c["ops"].pop(k)
        yield c
        for key in ("chunk", "cold", "short", "fault"):
            if op.get(key):
                c = copy.deepcopy(case)
                c["ops"][k].pop(key)
                yield c
    for k, s in enumerate(case.get("files", [])):
        for m in (1, 64, BUF, BUF + 1):
            if m < s:
                c = copy.deepcopy(case)
                c["files"][k] = m
                yield c
    for key, v in (("fault", None), ("short", 0), ("twice", False), ("damage", None), ("size", 0)):
        if case.get(key):
            yield dict(case, **{key: v})
    if len(case.get("sums", [])) > 1:
        for k in range(len(case["sums"])):
            c = copy.deepcopy(case)
            c["sums"].pop(k)
            yield c
