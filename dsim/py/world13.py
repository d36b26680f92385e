"""S13: objects, values and errors of the Python bindings."""
import gc

import numpy as np

import _dsim
import dlite

NSLOT = 7
EURI = "http://onto-ns.com/meta/0.1/PyE"
CURI = "http://onto-ns.com/meta/0.1/Collection"
F = np.float32
# name, type, shape
PROPS = [
    ("i", "int64", None), ("u8", "uint8", None), ("i2", "int16", None), ("f", "float64", None), ("b", "bool", None),
    ("s", "string", None), ("fs", "string8", None), ("bl", "blob4", None),
    ("ai", "int32", ["N"]), ("af", "float64", ["N", "M"]), ("as_", "string", ["N"]), ("afs", "string5", ["M"]),
    ("ab", "bool", ["N"]), ("r", "ref", None), ("ar", "ref", ["N"]), ("rel", "relation", None), ("ass", "string", ["M", "N"]),
    ("abl", "blob3", ["N"]), ("r2", "ref", ["N", "M"]), ("arel", "relation", ["M"]),
    ("u64", "uint64", None), ("i1", "int8", None), ("u4", "uint32", None), ("u2", "uint16", None), ("i4", "int32", None), ("f4", "float32", None),
    ("au2", "uint16", ["M"]), ("au64", "uint64", ["N", "M"]), ("ai1", "int8", ["N"]), ("af4", "float32", ["M", "N"]),
]
PT = {n: (t, sh) for n, t, sh in PROPS}
RANGE = {"int64": (-2**63, 2**63 - 1), "uint8": (0, 255), "int16": (-2**15, 2**15 - 1), "int32": (-2**31, 2**31 - 1),
         "int8": (-128, 127), "uint16": (0, 2**16 - 1), "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1)}
STR = ["", "x", "abc", "æøå", "a\"b\\c", "a longer string with more letters in it", "\n", "日本"]
URIS = ["http://ex.org/i%d" % i for i in range(4)]


class MI:
    """Model of an instance."""
    def __init__(self, uuid, uri, kind, dims=()):
        self.uuid, self.uri, self.kind, self.dims, self.frozen = uuid, uri, kind, dict(dims), False
        self.props = {}
        self.members = {}       # label -> MI (collections)
        self.rels = []          # (s, p, o) (collections)
        self.parent = None
        self.immortal = 0       # references that the model knows to be kept by others
        if kind == "E":
            for n, t, sh in PROPS:
                self.props[n] = nested(initial(t), [self.dims[k] for k in sh or ()])


def initial(t):
    return {"string": None, "string8": "", "string5": "", "bool": False, "blob4": b"\0" * 4, "blob3": b"\0" * 3, "float64": 0.0, "float32": 0.0, "ref": None,
            "relation": None}.get(t, 0)


def nested(v, shape):
    return v if not shape else [nested(v, shape[1:]) for _ in range(shape[0])]


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]


class W:
    pass


JUNK = [None, "", "x", 0, -1, 1, 7, 2**31, 2**63, 2**70, 1.5, float("nan"), b"", b"abc", [], [1], ["a"], ["a", "b"], (), {}, {"a": 1}, "\ud800", "a\0b", "a b",
        "http://ex.org/none", EURI, CURI, "http://onto-ns.com/meta/0.3/EntitySchema", True, object(), [None], [-1, 1], [1, -1], [0, 0], [1, 2, 3], [[1], [2]],
        ("s", "p", "o"), "x" * 300, "%s%n", [1, "a"], "00000000-0000-4000-8000-000000000000", "{", "{}", "[]", '{"a": 1}', "1", "#", "a#b", "json", "*", "[", "[a-", "\\",
        [("N", "n")], [("N",)], [(1, 2)], [("a", "int", None, None, None, None)], [("a", "int", None, "N", None, None)], [("a", "junk", None, "", "m", "d")],
        [("a", "int32", "x", "[N,M]", "m", "d")], [(None, None, None, None, None, None)], [("\ud800", "int", None, None, None, None)], set(), range(3), 3 + 4j]


def run(ops, d):
    from pysim import Faults, check, attempt, violation

    def works(ok, key, msg=""):
        """the operation should have succeeded, unless a fault was injected"""
        if not Faults.fired:
            check(ok, key, msg)
        return ok

    for path in (dlite.python_storage_plugin_path, dlite.python_mapping_plugin_path, dlite.python_protocol_plugin_path, dlite.storage_path):
        for _ in range(len(path)):
            del path[0]
    w = W()
    w.slots = [None] * NSLOT          # Python objects: a proxy, an array or an iterator
    w.model = [None] * NSLOT          # ("inst", MI) | ("array", MI, name) | ("iter", MI, [...])
    D, P = dlite.Dimension, dlite.Property
    meta = dlite.Instance.create_metadata(
        EURI, [D("N", "n"), D("M", "m")],
        [P(n, t, shape=sh, description="d") if t != "ref" else P(n, t, ref=EURI, shape=sh) for n, t, sh in PROPS], "an entity")
    base = set(dlite.istore_get_uuids())
    live = {}                          # uuid -> MI
    warm = dlite.Instance.from_metaid(EURI, [1, 1])
    del warm
    _ = dlite.Collection()
    _.add_relation("s", "p", "o")
    _.add("l", dlite.Instance.from_metaid(EURI, [1, 1]))
    del _
    gc.collect()
    base = set(dlite.istore_get_uuids())
    meta_ref0 = meta._refcount

    def proxies():
        """distinct proxies per instance"""
        seen = {}
        for o, m in zip(w.slots, w.model):
            if m and m[0] == "inst":
                seen.setdefault(id(o), m[1])
        n = {}
        for mi in seen.values():
            n[mi.uuid] = n.get(mi.uuid, 0) + 1
        return n

    def expected():
        n = proxies()
        roots = set(n)
        arr = set()
        for o, m in zip(w.slots, w.model):
            if m and m[0] == "array" and id(o) not in arr:
                arr.add(id(o))
                if PT[m[2]][0] != "string":         # arrays of strings are copies
                    n[m[1].uuid] = n.get(m[1].uuid, 0) + 1
                for x in m[3]:
                    n[x.uuid] = n.get(x.uuid, 0) + 1
            if m and m[0] == "iter" and id(o) not in arr:
                arr.add(id(o))
                n[m[1].uuid] = n.get(m[1].uuid, 0) + 1
        # references from collections and ref properties of instances that are alive
        todo, seen = [live[u] for u in n], set()
        while todo:
            mi = todo.pop()
            if mi.uuid in seen:
                continue
            seen.add(mi.uuid)
            out = list(mi.members.values()) + ([mi.parent] if mi.parent else [])
            if mi.kind == "E":
                out += [x for x in flat(mi.props["r"]) + flat(mi.props["ar"]) + flat(mi.props["r2"]) if x]
            for x in out:
                n[x.uuid] = n.get(x.uuid, 0) + 1
                todo.append(x)
        return n

    def value_of(x):
        if isinstance(x, np.ndarray):
            return [value_of(y) for y in x]
        if isinstance(x, (np.bool_, bool)):
            return bool(x)
        if isinstance(x, np.bytes_):
            return x.decode()
        if isinstance(x, bytes):
            return x.decode()
        if isinstance(x, bytearray):
            return bytes(x)
        if isinstance(x, np.generic):
            return x.item()
        if isinstance(x, dlite.Instance):
            return live.get(x.uuid, x.uuid)
        if isinstance(x, dlite.Relation):
            return (x.s, x.p, x.o) if x.s else None
        return x

    def get(obj, name):
        return value_of(obj[name])

    def cmp(mi, obj, name, key):
        got, want = get(obj, name), mi.props[name]
        check(got == want, key + ":" + name, f"{name} of {mi.uuid} is {got!r}, expected {want!r}")

    def verify(what):
        n = expected()
        for u in list(live):
            if u not in n:
                del live[u]
        ids = set(dlite.istore_get_uuids()) - base
        check(ids == set(live), "in-memory:" + what, f"after {what} in memory {sorted(ids)}, expected {sorted(live)}")
        for o, m in zip(w.slots, w.model):
            if m and m[0] == "inst":
                mi = m[1]
                check(o.uuid == mi.uuid and o.uri == mi.uri, "identity:" + what, f"{o.uuid} {o.uri} expected {mi.uuid} {mi.uri}")
                check(o._refcount == n[mi.uuid], "refcount:" + what, f"after {what}: {mi.kind} {mi.uuid} has {o._refcount} references, expected {n[mi.uuid]}")
                if mi.kind == "E":
                    for name, t, sh in PROPS:
                        if not sh or what in ("wrong", "set", "use_array", "frozen"):
                            cmp(mi, o, name, "value:" + what)
                else:
                    check(len(o) == len(mi.members), "coll-len:" + what, f"{len(o)} members, expected {len(mi.members)}")
        h = repr([(m[0], m[1].kind, repr(m[1].props)[:80], len(m[1].members)) if m else None for m in w.model])
        _dsim.note(h)

    def new_mi(obj, kind, dims=()):
        mi = MI(obj.uuid, obj.uri, kind, dims)
        live[mi.uuid] = mi
        return mi

    def put(k, obj, m):
        if m and m[0] == "inst" and m[1].kind == "C" and type(obj) is dlite.Instance:
            obj = dlite.get_instance(obj.uuid)      # iterators give the base class
        w.slots[k] = obj
        w.model[k] = m

    def pick(a, kind, sub=None):
        c = [k for k in range(NSLOT) if w.model[k] and w.model[k][0] == kind and (sub is None or w.model[k][1].kind == sub)]
        return c[a % len(c)] if c else None

    def gen_value(t, a):
        if t in RANGE:
            lo, hi = RANGE[t]
            return [lo, hi, 0, 1, a % (hi + 1)][a % 5]
        if t == "float32":
            return [0.0, -1.5, 2.0**100, (a % 4096) / 8.0, float(a % 65536)][a % 5]
        if t == "float64":
            return [0.0, -1.5, 1e300, a / 7.0, float(a)][a % 5]
        if t == "bool":
            return bool(a % 2)
        if t == "string":
            if a % 7 == 0:
                return None
            return STR[a % len(STR)]
        if t == "string8":
            return ["", "abc", "12345678", "æøå"][a % 4]
        if t == "string5":
            return ["", "ab", "1234"][a % 3]
        if t in ("blob4", "blob3"):
            return bytes((a >> i) & 255 for i in (0, 3, 6, 9)[:int(t[4])])
        if t == "relation":
            return ("s%d" % (a % 3), "p", "o%d" % (a % 5))
        if t == "ref":
            k = pick(a, "inst", "E")
            return None if k is None or a % 4 == 0 else k
        raise AssertionError(t)

    def build(t, shape, a):
        """(python value, model value)"""
        if shape:
            l = [build(t, shape[1:], a * 31 + 7 * j + 3) for j in range(shape[0])]
            return [x for x, _ in l], [y for _, y in l]
        v = gen_value(t, a)
        if t == "ref":
            return (None, None) if v is None else (w.slots[v], w.model[v][1])
        if t in ("blob4", "blob3"):
            return ([bytes(v), bytearray(v), v.hex(), np.frombuffer(v, dtype=np.uint8)][a % 4]), v
        return v, v

    def would_cycle(mi, vals):
        """a reference cycle is not collected: keep the model free of them"""
        todo, seen = [x for x in flat(vals) if isinstance(x, MI)], set()
        while todo:
            x = todo.pop()
            if x is mi:
                return True
            if x.uuid in seen:
                continue
            seen.add(x.uuid)
            todo += list(x.members.values())
            if x.kind == "E":
                todo += [y for y in flat(x.props["r"]) + flat(x.props["ar"]) + flat(x.props["r2"]) if y]
        return False

    def copy_of(v):
        return [copy_of(y) for y in v] if isinstance(v, list) else v

    ARRAYS = [n for n, _, sh in PROPS if sh]

    # ---- operations ----
    def op_new(a):
        dims = [a[1] % 4, 1 + a[2] % 3]
        uri = URIS[a[3] % 4] if a[4] % 3 == 0 else None
        exists = uri and any(m.uri == uri for m in live.values())
        ok, x = attempt("new", dlite.Instance.from_metaid, EURI, dims if a[5] % 2 else {"M": dims[1], "N": dims[0]}, uri)
        if exists:
            m = [m for m in live.values() if m.uri == uri][0]
            same = m.kind == "E" and list(m.dims.values()) == dims
            if not ok:
                return
            check(x.uuid == m.uuid, "new-existing", "another instance")
            if not same:
                violation("new-conflict", f"an instance with id {uri} exists with other dimensions or metadata, but creating it succeeded")
            put(a[0] % NSLOT, x, ("inst", m))
            return
        if not works(ok, "new-failed", x):
            return
        put(a[0] % NSLOT, x, ("inst", new_mi(x, "E", {"N": dims[0], "M": dims[1]})))

    def op_set(a):
        k = pick(a[0], "inst", "E")
        if k is None:
            return
        o, mi = w.slots[k], w.model[k][1]
        name, t, sh = PROPS[a[1] % len(PROPS)]
        v, mv = build(t, [mi.dims[x] for x in sh or ()], a[2])
        if t == "ref" and would_cycle(mi, mv):
            return
        if t in RANGE and sh and a[3] % 2:
            v = np.array(v, dtype=np.uint64 if t == "uint64" else np.int64)
        how = a[4] % 6
        if how == 0:
            ok, e = attempt("set", o.__setitem__, name, v)
        elif how == 3:
            ok, e = attempt("set", o.set_property, name, v)
        elif how == 5 and t in RANGE and not sh:
            ok, e = attempt("set", o.set_property_from_string, name, str(v))
        elif how == 4:
            ok, e = attempt("set", o.set_property_by_index, a[1] % len(PROPS), v)
        elif how == 1:
            ok, e = attempt("set", o.__setattr__, name, v)
        else:
            idx = a[1] % len(PROPS)
            ok, e = attempt("set", o.__setitem__, idx - len(PROPS) if a[5] % 2 else idx, v)
        del v
        if mi.frozen:
            check(not ok, "set-frozen", name)
            return
        if not works(ok, "set-failed:" + name, f"{name} = {mv!r}: {e!r}"):
            return
        mi.props[name] = mv

    def op_get(a):
        k = pick(a[0], "inst", "E")
        if k is None:
            return
        o, mi = w.slots[k], w.model[k][1]
        i = a[1] % len(PROPS)
        name = PROPS[i][0]
        how = a[2] % 4
        ok, got = attempt("get", *((o.__getitem__, name) if how == 0 else (getattr, o, name) if how == 1 else
                                   (o.__getitem__, i) if how == 2 else (o.__getitem__, i - len(PROPS))))
        if not works(ok, f"get{how}-failed:" + name, got):
            return
        got = value_of(got)
        check(got == mi.props[name], f"get{how}:" + name, f"{got!r} expected {mi.props[name]!r}")
        if a[3] % 8 == 0:
            p = o.properties
            check(list(p) == [n for n, _, _ in PROPS], "properties", list(p))
            for n in p:
                check(value_of(p[n]) == mi.props[n], "properties:" + n, f"{p[n]!r} {mi.props[n]!r}")
            check(o.dimensions == mi.dims, "dimensions", f"{o.dimensions} {mi.dims}")
            check((o.N, o.M) == (mi.dims["N"], mi.dims["M"]), "dim-attr")

    def op_hold(a):
        k = pick(a[0], "inst", "E")
        if k is None:
            return
        name = ARRAYS[a[1] % len(ARRAYS)]
        ok, arr = attempt("hold", *fetch(w.slots[k], name, a[3]))
        if not works(ok, "hold-failed:" + name, arr):
            return
        mi = w.model[k][1]
        put(a[2] % NSLOT, arr, ("array", mi, name, [x for x in flat(mi.props[name]) if x] if PT[name][0] == "ref" else [], copy_of(mi.props[name])))

    def fetch(o, name, how):
        """a way of getting at a property"""
        i = [n for n, _, _ in PROPS].index(name)
        return [(o.__getitem__, name), (getattr, o, name), (o.__getitem__, i), (o.get_property, name), (lambda: o.properties[name],)][how % 5]

    def op_use(a):
        k = pick(a[0], "array")
        if k is None:
            return
        _, mi, name, _, then = w.model[k]
        arr = w.slots[k]
        t = PT[name][0]
        want = then if t in ("ref", "string") else mi.props[name]
        got = value_of(arr)
        check(got == want, "array-view:" + name, f"{got} expected {want}")
        if arr.size and arr.flags.writeable and not mi.frozen and (t in RANGE or t in ("bool", "float32", "float64")):
            v = gen_value(t, a[1])
            idx = tuple(a[2 + j] % n for j, n in enumerate(arr.shape))
            arr[idx] = v
            x = mi.props[name]
            for j in idx[:-1]:
                x = x[j]
            x[idx[-1]] = v

    def op_frozen(a):
        """an instance that is frozen cannot be changed through what is read from it"""
        k = [k for k in range(NSLOT) if w.model[k] and w.model[k][0] == "inst" and w.model[k][1].frozen]
        if not k:
            k = pick(a[0], "inst", "E")
            if k is None:
                return
            w.slots[k].freeze()
            w.model[k][1].frozen = True
        else:
            k = k[a[0] % len(k)]
        o, mi = w.slots[k], w.model[k][1]
        name = ARRAYS[a[1] % len(ARRAYS)]
        ok, arr = attempt("frozen", *fetch(o, name, a[3]))
        if not works(ok, "frozen-failed:" + name, arr) or PT[name][0] in ("string", "ref", "relation") or not arr.size:
            return
        v = gen_value(PT[name][0], a[2])
        try:
            arr[tuple(a[4] % n for n in arr.shape)] = v
            done = True
        except ValueError:
            done = False
        check(not done, f"frozen-write{a[3] % 5}", f"an element of {name} of a frozen instance can be assigned to")

    def op_drop(a):
        k = a[0] % NSLOT
        put(k, None, None)

    def op_alias(a):
        i, j = a[0] % NSLOT, a[1] % NSLOT
        put(j, w.slots[i], w.model[i])

    def op_getinst(a):
        ids = sorted(live)
        if not ids or a[1] % 6 == 0:
            bad = ["http://ex.org/none", "", "00000000-0000-4000-8000-000000000000"][a[2] % 3]
            ok, e = attempt("getinst", dlite.get_instance, bad, None, False)
            check(not ok, "get-unknown", f"get_instance({bad!r}) gave {e!r}")
            ok, e = attempt("getinst", dlite.has_instance, bad, False)
            check(not ok or not e, "has-unknown")
            return
        mi = live[ids[a[0] % len(ids)]]
        ok, x = attempt("getinst", dlite.get_instance, mi.uri if mi.uri and a[2] % 2 else mi.uuid, check_storages=bool(a[4] % 2))
        if not works(ok, "getinst-failed", x):
            return
        check(type(x) is (dlite.Collection if mi.kind == "C" else dlite.Instance), "get-type", type(x))
        put(a[3] % NSLOT, x, ("inst", mi))

    def op_coll_new(a):
        ok, c = attempt("coll_new", dlite.Collection)
        if not works(ok, "coll_new-failed", c):
            return
        put(a[0] % NSLOT, c, ("inst", new_mi(c, "C")))

    def coll(a):
        k = pick(a, "inst", "C")
        return (None, None) if k is None else (w.slots[k], w.model[k][1])

    def op_coll_add(a):
        c, mc = coll(a[0])
        k = pick(a[1], "inst")
        if c is None or k is None:
            return
        mi, label = w.model[k][1], "l%d" % (a[2] % 4)
        if mi is mc or would_cycle(mc, [mi]):
            return
        force = a[4] % 3 == 0
        if a[3] % 2 and not force:
            ok, e = attempt("coll_add", c.__setitem__, label, w.slots[k])
        else:
            ok, e = attempt("coll_add", c.add, label, w.slots[k], force)
        if label in mc.members and not force:
            check(not ok, "add-existing", label)
            return
        if not works(ok, "add-failed", e):
            if force and label not in c:
                mc.members.pop(label, None)     # what should be replaced has been removed
            return
        mc.members[label] = mi

    def op_coll_remove(a):
        c, mc = coll(a[0])
        if c is None:
            return
        label = "l%d" % (a[1] % 4)
        if a[2] % 2:
            ok, e = attempt("coll_remove", c.__delitem__, label)
        else:
            ok, e = attempt("coll_remove", c.remove, label)
        if not works(ok == (label in mc.members), "remove-result", f"{label}: {ok} {e!r}") and not ok:
            return
        mc.members.pop(label, None)

    def op_coll_get(a):
        c, mc = coll(a[0])
        if c is None:
            return
        label = "l%d" % (a[1] % 5)
        check((label in c) == (label in mc.members), "coll-has", label)
        if a[2] % 2:
            ok, x = attempt("coll_get", c.get, label)
        else:
            ok, x = attempt("coll_get", c.__getitem__, label)
        works(ok == (label in mc.members), "coll-get", f"{label}: {ok} {x!r}")
        if ok:
            check(x.uuid == mc.members[label].uuid, "coll-get-other")
            put(a[3] % NSLOT, x, ("inst", mc.members[label]))
        elif a[4] % 2 and mc.members:
            m = list(mc.members.values())[a[4] % len(mc.members)]
            check(c.has_id(m.uuid), "has-id")
            y = c.get_id(m.uuid)
            check(y.uuid == m.uuid, "get-id")
            put(a[3] % NSLOT, y, ("inst", m))

    def op_coll_iter(a):
        c, mc = coll(a[0])
        if c is None:
            return
        if a[1] % 2:
            ok, labels = attempt("labels", lambda: sorted(c.get_labels()))
            if not works(ok, "labels-failed", labels):
                return
            check(labels == sorted(mc.members), "labels", f"{labels} expected {sorted(mc.members)}")
            ok, got = attempt("members", lambda: sorted(i.uuid for i in c))
            if not works(ok, "members-failed", got):
                return
            check(got == sorted(m.uuid for m in mc.members.values()), "members", got)
            return
        ok, it = attempt("iter", iter, c)
        if works(ok, "iter-failed", it):
            put(a[2] % NSLOT, it, ("iter", mc, None))

    def op_iter_next(a):
        k = pick(a[0], "iter")
        if k is None:
            return
        ok, x = attempt("iter_next", next, w.slots[k])
        if ok and x is not None:
            mi = live.get(x.uuid)
            check(mi is not None, "iter-unknown", x.uuid)
            put(a[1] % NSLOT, x, ("inst", mi))

    def op_dict(a):
        k = pick(a[0], "inst", "E")
        if k is None:
            return
        o, mi = w.slots[k], w.model[k][1]
        ok, dct = attempt("asdict", o.asdict, single=True, uuid=True)
        if not works(ok, "asdict-failed", dct):
            return
        check(dct["uuid"] == mi.uuid and dct["meta"] == EURI and dct["dimensions"] == mi.dims, "asdict", dct)
        for n in ("i", "u8", "f", "b", "s", "fs", "ai", "af", "ab", "as_"):
            check(dct["properties"][n] == mi.props[n], "asdict:" + n, f"{dct['properties'][n]!r} {mi.props[n]!r}")

    def op_json(a):
        k = pick(a[0], "inst", "E")
        if k is None:
            return
        o, mi = w.slots[k], w.model[k][1]
        if flat(mi.props["r"]) != [None] or any(flat(mi.props["ar"]) + flat(mi.props["r2"])) or None in [mi.props["rel"]] + mi.props["arel"]:
            return
        ok, s = attempt("asjson", o.asjson, single=True, with_uuid=True)
        if not works(ok, "asjson-failed", s):
            return
        import json
        dct = json.loads(s)
        check(dct["uuid"] == mi.uuid, "asjson", s[:200])
        uri = "http://ex.org/copy"
        if any(m.uri == uri for m in live.values()):
            return
        dct["uri"] = uri
        dct.pop("uuid")
        how = a[2] % 10
        metaid = EURI if a[3] % 2 else None
        if how < 3:
            ok, x = attempt("from_json", dlite.Instance.from_json, json.dumps(dct), metaid=metaid)
        elif how < 5:
            ok, x = attempt("from_dict", dlite.Instance.from_dict, dct, single=True, check_storages=False)
        elif how == 8:
            ok, x = attempt("from_bytes", dlite.Instance.from_bytes, "json", json.dumps({uri: dct} if a[4] % 2 else dct).encode(), id=uri if a[5] % 2 else None, metaid=metaid)
        elif how == 9:
            def load():
                js = dlite.JStore()
                js.load_dict(dct)
                ids = list(js.get_ids())
                check(len(js) == 1 and len(ids) == 1, "jstore-ids", f"{len(js)} {ids}")
                return js.get(uri if a[4] % 2 else None)
            ok, x = attempt("jstore", load)
        else:
            path = d + "/f%d.json" % _dsim.opno()
            with open(path, "w") as f:
                json.dump(dct if how % 2 else {uri: dct}, f)
            if how == 5:
                ok, x = attempt("from_url", dlite.Instance.from_url, f"json://{path}?mode=r#{uri}", metaid=metaid)
            elif how == 6:
                ok, x = attempt("from_location", dlite.Instance.from_location, "json", path, options="mode=r", id=uri)
            else:
                def load():
                    with dlite.Storage("json", path, "mode=r") as st:
                        return dlite.Instance.from_storage(st, id=uri, metaid=metaid)
                ok, x = attempt("from_storage", load)
        if not works(ok, "from-json%d" % how, f"{x!r} {s[:1500]}"):
            return
        m = new_mi(x, "E", mi.dims)
        m.props = {n: v if not isinstance(v, list) else __import__("copy").deepcopy(v) for n, v in mi.props.items() if n not in ("r", "ar", "r2")}
        m.props["r"], m.props["ar"], m.props["r2"] = None, [None] * mi.dims["N"], nested(None, [mi.dims["N"], mi.dims["M"]])
        put(a[1] % NSLOT, x, ("inst", m))

    def op_self(a):
        """assign what was read"""
        k = pick(a[0], "inst", "E")
        j = pick(a[4], "inst", "E") if a[3] % 3 == 0 else k
        if k is None:
            return
        (o, mi), (q, mj) = (w.slots[k], w.model[k][1]), (w.slots[j], w.model[j][1])
        name, t, sh = PROPS[a[1] % len(PROPS)]
        if t == "relation" and None in flat(mj.props[name]):
            return
        if would_cycle(mi, mj.props[name]) or mi.dims != mj.dims:
            return
        ok, e = attempt("self", o.__setitem__, name, q[name])
        if mi.frozen:
            check(not ok, "set-frozen", name)
            return
        if not works(ok, "self-failed:" + name, f"{name} = {mj.props[name]!r}: {e!r}"):
            return
        cp = lambda v: [cp(y) for y in v] if isinstance(v, list) else v
        mi.props[name] = cp(mj.props[name])

    def op_copy(a):
        k = pick(a[0], "inst", "E")
        if k is None:
            return
        o, mi = w.slots[k], w.model[k][1]
        ok, x = attempt("copy", o.copy)
        if not works(ok, "copy-failed", x):
            return
        check(x.uuid != mi.uuid, "copy-id")
        m = new_mi(x, "E", mi.dims)
        cp = lambda v: [cp(y) for y in v] if isinstance(v, list) else v
        m.props = {n: cp(v) for n, v in mi.props.items()}
        put(a[1] % NSLOT, x, ("inst", m))

    def op_gc(a):
        gc.collect()

    def op_wrong(a):
        """values that do not fit: an exception, and the old value is kept"""
        k = pick(a[0], "inst", "E")
        if k is None:
            return
        o, mi = w.slots[k], w.model[k][1]
        N, M = mi.dims["N"], mi.dims["M"]
        cases = [
            ("i", "x"), ("i", None), ("i", 2**63), ("i", -2**63 - 1), ("i", object()), ("i", [1, 2]),
            ("u8", 256), ("u8", -1), ("u64", -1), ("u64", 2**64), ("u4", 2**32), ("u4", -1), ("i1", 128), ("i1", -129), ("u2", 65536), ("i4", 2**31), ("i4", -2**31 - 1),
            ("u4", 1.5), ("i", 1.5), ("f4", "x"), ("u64", None), ("ai1", [300] * (N or 1)), ("ai1", [-129] * (N or 1)), ("au2", [-1] * M), ("au2", [65536] * M), ("au64", [[-1] * M] * (N or 1)),
            ("au64", [[2**64] * M] * (N or 1)), ("ai", [2**31] * (N or 1)), ("i2", 32768), ("i2", -32769), ("f", "x"), ("f", None), ("f", [1.0]),
            ("fs", "123456789"), ("fs", "æøåæø"), ("s", "\ud800"), ("fs", "\ud800"), ("bl", b"12"), ("bl", b""), ("bl", b"12345"), ("bl", "zz"), ("bl", "00"), ("bl", 7),
            ("bl", "001122"), ("bl", "0011zz22"), ("abl", [b"123"] * (N + 1)), ("abl", [b"12"] * (N or 1)), ("abl", [b"12", "zzzzzz"]), ("abl", 3),
            ("r2", [[None] * M] * (N + 1)), ("r2", [[None] * (M + 1)] * (N or 1)), ("r2", [[o] * (M - 1) + [4]] * (N or 1)),
            ("arel", [("s", "p", "o")] * (M + 1)), ("arel", [("s", "p", "o")] * (M - 1) + [3]), ("arel", 5), ("arel", [("s", "p", "o")] * (M - 1) + [("\ud800", "p", "o")]),
            ("rel", ("s", "p", "\ud800")), ("rel", {"s": "s", "p": "p", "o": 4}), ("afs", ["ab"] * (M - 1) + ["toolong"]), ("ai", [1] * (N - 1) + [2**40] if N else 3), ("bl", "0011223344"), ("ai", [1] * (N + 1)), ("ai", ["x"] * (N or 1)), ("ai", 7), ("ai", None),
            ("af", [[1.0] * (M + 1)] * (N or 1)), ("af", [1.0] * (N or 1)), ("af", [[1.0] * M] * (N + 1)), ("af", [["q"] * M] * (N or 1)),
            ("as_", ["a"] * (N + 1)), ("as_", [1.5] * (N + 1)), ("as_", None), ("afs", ["a"] * (M + 1)), ("afs", 3),
            ("ab", [True] * (N + 1)), ("r", 3.5), ("r", "http://ex.org/none"), ("ar", [3.5] * (N or 1)), ("ar", [None] * (N + 1)), ("ar", 5),
            ("rel", ("s", "p")), ("rel", ("s", "p", 3)), ("rel", 5), ("rel", {"s": "a"}), ("rel", ("a", "b", "c", "d", "e", "f")),
            ("ass", [["a"] * (N or 1)] * (M + 1)), ("ass", [["a"] * (N + 1)] * M), ("ass", ["a"] * M),
            ("nosuch", 1), (len(PROPS), 1), (-len(PROPS) - 1, 1), (10**6, 1),
        ]
        name, v = cases[a[1] % len(cases)]
        _dsim.fault(23)
        if isinstance(name, str) and a[2] % 2 and name != "nosuch":
            ok, e = attempt("wrong", o.__setattr__, name, v)
        else:
            ok, e = attempt("wrong", o.__setitem__, name, v)
        check(not ok, f"accepted:{name}:{type(v).__name__}", f"{name} = {v!r} was accepted; the property is now {get(o, name) if name in PT else None!r}")
        if name not in PT:
            ok, e = attempt("wrong", o.__getitem__, name)
            check(not ok, "no-such-property", f"{name}: {e!r}")

    def op_meta(a):
        k = pick(a[0], "inst")
        if k is None:
            return
        o = w.slots[k]
        m = o.meta
        check(m.is_meta and m.uri == (EURI if w.model[k][1].kind == "E" else CURI), "meta", m.uri)
        if w.model[k][1].kind == "E":
            check([p.name for p in m["properties"]] == [n for n, _, _ in PROPS], "meta-props")
            p = m.getprop("af")
            check(p.shape.tolist() == ["N", "M"] and p.type == "float64" and p.ndims == 2, "meta-shape", p)
            check(m.dimnames() == ["N", "M"], "meta-dims")
        if a[1] % 4 == 0:
            h = o.get_hash()
            o.verify_hash(h)
            bad = ("0" if h[0] != "0" else "1") + h[1:]
            ok, e = attempt("meta", o.verify_hash, bad)
            check(not ok, "verify-hash", "a wrong hash is accepted")
            ok, e = attempt("meta", o.verify_hash, ["zz", "", h[:-2], h + "00", h[:-1], "x" + h[1:]][a[2] % 6])
            check(not ok, "verify-hash-junk")
        if a[1] % 4 == 1 and w.model[k][1].kind == "E":
            o.freeze()
            w.model[k][1].frozen = True

    def op_relations(a):
        c, mc = coll(a[0])
        if c is None:
            return
        D = [None, None, "xsd:int", "xsd:double"]
        t = ("s%d" % (a[1] % 3), "p%d" % (a[2] % 2), "o%d" % (a[3] % 3), D[a[5] % 4])
        what = a[4] % 5
        match = lambda r, q: all(y is None or x == y for x, y in zip(r, q))
        if what == 0:
            ok, e = attempt("add_relation", c.add_relation, *t)
            if not works(ok, "add_relation-failed", e):
                return
            if t not in mc.rels:
                mc.rels.append(t)
        elif what == 1:
            q = (t[0], t[1], t[2] if a[3] % 2 else None, t[3])
            ok, e = attempt("remove_relations", c.remove_relations, *q)
            if not works(ok, "remove_relations-failed", e):
                return
            mc.rels = [r for r in mc.rels if not match(r, q)]
        elif what < 4:
            q = tuple(x if (a[2] >> (3 + k)) % 2 else None for k, x in enumerate(t))
            if q[0] is None and q[1] is None and q[2] is None:
                q = (None, t[1]) + q[2:]
            ret = "TtspodR"[a[1] % 7]
            want = [r for r in mc.rels if match(r, q)]
            want = {"T": want, "t": [r[:3] for r in want], "R": want}.get(ret) if ret in "TtR" else [r["spod".index(ret)] for r in want]
            ok, it = attempt("get_relations", lambda: list(c.get_relations(*q, rettype=ret)))
            if not works(ok, "get_relations-failed", it):
                return
            if ret == "R":
                it = [(r.s, r.p, r.o, r.d) for r in it]
            if ret in "sd" and None in (want + it):         # the iteration stops
                return
            check(sorted(map(repr, it)) == sorted(map(repr, want)), "relations-" + ret, f"{q}: {it} expected {want}")
        else:
            q = [t[0], t[1], t[2]]
            free = a[1] % 3
            q[free] = None
            n = [r for r in mc.rels if match(r, tuple(q) + (t[3],))]
            ok, v = attempt("relations", c.value, *q, t[3], default="none" if a[2] % 3 == 0 else None, any=int(a[3] % 2))
            if Faults.fired and not ok:
                return
            if len(n) == 0 and a[2] % 3 == 0:
                check(ok and v == "none", "value-default", v)
            elif len(n) == 1 or (n and a[3] % 2):
                check(ok and v in [r[free] for r in n], "value", f"{v!r} {n}")
            else:
                check(not ok, "value-none", f"{v!r} {n}")
            f = c.get_first_relation(q[0], q[1], q[2], t[3])
            check((f is not None) == bool(n), "first", f"{f} {n}")

    def op_leak(a):
        """a call that is repeated does not use more and more memory"""
        import random
        k = pick(a[1], "inst", "E")
        c, mc = coll(a[2])
        r = random.Random(a[0])
        fns = []
        if k is not None and not w.model[k][1].frozen:      # numpy leaks when an array is made read-only
            o, mi = w.slots[k], w.model[k][1]
            name, t, sh = PROPS[a[3] % len(PROPS)]
            how = a[4]

            def put_back():
                if not mi.frozen and not (t == "relation" and None in flat(mi.props[name])):
                    o[name] = o[name]
            fns += 6 * [lambda: fetch(o, name, how)[0](*fetch(o, name, how)[1:]), put_back, lambda: o.copy(), lambda: o.asdict(), lambda: o.asjson(), lambda: o.get_hash(),
                        lambda: o.get_property_as_string(name), lambda: o.meta.getprop(name), lambda: dlite.get_instance(o.uuid), lambda: o.to_bytes("json"), lambda: o.dimensions]
            if t in RANGE and not sh and not mi.frozen:
                fns += 4 * [lambda: o.set_property_from_string(name, str(mi.props[name]))]
        if c is not None:
            q = tuple(x if (a[5] >> n) % 2 else None for n, x in enumerate(("s%d" % (a[3] % 3), "p%d" % (a[4] % 2), "o1", None)))
            fns += 6 * [lambda: [list(c.get_relations(*q, rettype=x)) for x in "RTo"], lambda: c.value("s%d" % (a[3] % 3), "p0", None, any=1), lambda: c.get_first_relation(*q), lambda: list(c),
                        lambda: [c.get(x) for x in mc.members], lambda: list(c.get_labels()), lambda: c.asjson(), lambda: c.asdict(), lambda: list(iter(c))[:1], lambda: next(c.get_instances()),
                        lambda: c.properties, lambda: c.get_id(list(mc.members.values())[0].uuid)]
        if not fns:
            return
        i = r.randrange(len(fns))
        f = fns[i]
        st = r.getstate()

        def call(n):
            for _ in range(n):
                r.setstate(st)
                x = attempt("leak", f)[1]
                if isinstance(x, dlite.Instance) and x.is_meta:
                    base.add(x.uuid)
                del x
            gc.collect()
            return _dsim.allocated()
        _dsim.say("leak: call %d of %d: %s" % (i, len(fns), attempt("leak", f)[0]))
        b = [call(n) for n in (10, 10, 10, 10)]
        check(min(b[1] - b[0], b[2] - b[1], b[3] - b[2]) < 80, "leak", f"calls in batches of 10: {b} bytes allocated")

    def op_coll_file(a):
        """a collection that is saved and loaded while it is in memory"""
        c, mc = coll(a[0])
        if c is None:
            return
        path = d + "/c%d.json" % _dsim.opno()
        ok, e = attempt("coll_save", lambda: c.save("json", path, "mode=w", include_instances=False))
        if not works(ok, "coll_save-failed", e):
            return
        if a[1] % 2:
            ok, x = attempt("coll_load", lambda: dlite.Collection.load("json", path, "mode=r", id=mc.uuid, lazy=bool(a[2] % 2)))
        else:
            ok, x = attempt("coll_load", lambda: dlite.Collection.load(f"json://{path}?mode=r#{mc.uuid}", lazy=bool(a[2] % 2)))
        if not works(ok, "coll_load-failed", x):
            return
        check(x.uuid == mc.uuid, "coll-load-other", x.uuid)
        put(a[3] % NSLOT, x, ("inst", mc))

    def op_junk(a):
        """calls with arguments that make no sense: an exception or a result, but the interpreter and all objects are left alone"""
        import random
        r = random.Random(a[0])
        fns = junk_calls(r, a, pick(a[1], "inst", "E"), coll(a[1])[0])
        i = r.randrange(len(fns))
        _dsim.fault(23)
        ok, x = attempt("junk", fns[i])
        _dsim.say(f"junk {i} {ok} {repr(x)[:200]}")
        if ok and isinstance(x, dlite.Instance) and x.is_meta and x.uuid not in base:
            base.add(x.uuid)        # kept in memory

    def junk_calls(r, a, k, c):
        j = lambda: r.choice(JUNK)
        I, C = dlite.Instance, dlite.Collection
        fns = [lambda: I(), lambda: I(**{r.choice(["metaid", "dims", "id", "uri", "jsoninput", "dimensions", "properties", "description", "driver"]): j() for _ in range(r.randrange(5))}),
               lambda: I.from_metaid(j(), j(), j()), lambda: I.from_metaid(EURI, j(), j()), lambda: I.from_json(j(), j(), j()), lambda: I.from_bson(j()),
               lambda: I.from_dict(j(), j(), check_storages=False), lambda: I.create_metadata(j(), j(), j(), j()),
               lambda: I.create_metadata("http://ex.org/0.1/J%d" % a[2], [dlite.Dimension("N")], j(), "d"),
               lambda: I.create_metadata("http://ex.org/0.1/J%d" % a[2], j(), [dlite.Property("a", "int")], "d"),
               lambda: I.create_metadata(j(), [dlite.Dimension("N")], [dlite.Property("a", "int", shape=[r.choice(["N", "M", "", "N+", "2*N", "N*N", "-1"])])], j()),
               lambda: dlite.Dimension(j(), j()), lambda: dlite.Property(j(), j()), lambda: dlite.Property("a", r.choice(["int", "float", "ref", "string5", "blob", j()]), j(), j(), j(), j()),
               lambda: dlite.Relation(j(), j(), j(), j(), j()), lambda: dlite.get_uuid(j()), lambda: dlite.normalise_id(j(), j()), lambda: dlite.get_idtype(j()),
               lambda: dlite.has_instance(j(), False), lambda: dlite.get_instance(j(), j(), False), lambda: dlite.join_meta_uri(j(), j(), j()), lambda: dlite.split_meta_uri(j()),
               lambda: dlite.split_url(j()), lambda: dlite.join_url(j(), j(), j(), j()), lambda: dlite.globmatch(j(), j()), lambda: dlite.asbool(j()),
               lambda: dlite.chk_semver(j(), j()), lambda: dlite.cmp_semver(j(), j(), j()), lambda: dlite.uriencode(j()), lambda: dlite.uridecode(j()),
               lambda: dlite.get_collection(j()), lambda: C(j()), lambda: dlite.istore_get_uuids()]
        if k is not None:
            o = w.slots[k]
            fns += 2 * [lambda: o.get_property(j()), lambda: o.get_property_by_index(j()), lambda: o.get_property_as_string(j()),
                    lambda: o.get_property_as_string(r.choice(PROPS)[0], r.choice([0, -1, 5, 200]), r.choice([-2, -1, 0, 3]), r.choice([0, 1, 2, 3, 4])),
                    lambda: o.set_property_from_string(j(), j()), lambda: o.get_dimension_size(j()), lambda: o.get_dimension_size_by_index(j()),
                    lambda: o.has_property(j()), lambda: o.has_property_by_index(j()), lambda: o.has_dimension(j()), lambda: o.has_dimension_by_index(j()),
                    lambda: o.set_property(j(), j()), lambda: o.set_property_by_index(r.choice([-100, 100, 2**31, 2**70]), j()), lambda: o.get_snapshot(r.choice([-1, 1, 5, 2**40])),
                    lambda: o.is_fresh() if hasattr(o, "is_fresh") else None, lambda: o.set_parent(j()), lambda: o.verify_hash(j()), lambda: o[j()], lambda: getattr(o, str(j())), lambda: j() in o,
                    lambda: o.copy(j()), lambda: o.meta.getprop(j()), lambda: o.asdict(j(), j()), lambda: o.asjson(r.choice([0, 1, 30]), r.choice([True, False])), lambda: o == j(), lambda: repr(o), lambda: str(o),
                    lambda: o.meta.asjson(), lambda: o.meta.asdict(), lambda: hash(o), lambda: o.save(j()), lambda: o.to_bytes("json")]
        if c is not None:
            fns += 2 * [lambda: c.add(j(), r.choice([j(), c])) if c.get_labels() == [] and 0 else None, lambda: c.get(j()), lambda: c.get(j(), j()), lambda: c.get_id(j()), lambda: c.has(j()),
                    lambda: c.has_id(j()), lambda: c.remove(j()), lambda: c.count(), lambda: c[j()], lambda: j() in c, lambda: list(c.get_relations(j(), j())), lambda: c.value(j(), j(), j()),
                    lambda: c.get_first_relation(j(), j()), lambda: list(c.get_subjects(j(), j())), lambda: list(c.get_instances(j())), lambda: c.add(j(), j()), lambda: repr(c), lambda: c.asjson(), lambda: c.asdict()]
        return fns

    def op_storage(a):
        """a storage holds what is saved in it when it is closed, whatever is done with it in between"""
        import json
        k = [x for x in {m[1].uuid: n for n, m in enumerate(w.model) if m and m[0] == "inst" and m[1].kind == "E"}.values()]
        k = [x for n, x in enumerate(k) if (a[0] >> n) % 2
             and not (flat(w.model[x][1].props["r"]) != [None] or any(flat(w.model[x][1].props["ar"]) + flat(w.model[x][1].props["r2"])) or None in [w.model[x][1].props["rel"]] + w.model[x][1].props["arel"])]
        path = d + "/st%d.json" % _dsim.opno()
        if not k:
            return
        ids = [w.model[x][1].uuid for x in k]
        seen = []
        its = []

        def iterate(st, limit):
            it = st.instances(EURI if a[3] % 3 == 0 else None) if a[4] % 2 else iter(iter(st))
            if a[3] % 5 == 0:
                its.append(it)
            for n, x in enumerate(it):
                if x.is_data:
                    seen.append(x.uuid)
                if n == limit:
                    break

        def session():
            with dlite.Storage("json", path, "mode=" + "wa"[a[3] % 2]) as st:
                for n, x in enumerate(k):
                    st.save(w.slots[x]) if a[5] % 2 else w.slots[x].save(st)
                    if n == a[2] % 4:
                        iterate(st, a[1] % 5)
                        seen.clear()
                iterate(st, a[1] % 9 - 1 if a[1] % 2 else 99)
            its.clear()

        ok, e = attempt("storage", session)
        its.clear()
        if not works(ok, "storage-failed", e):
            return
        check(len(set(seen)) == len(seen) and set(seen) <= set(ids) and (a[1] % 2 or set(seen) == set(ids)), "storage-iter", f"{seen} expected {ids}")
        if ids and not Faults.fired:
            with open(path) as f:
                dct = json.load(f)
            check(set(ids) <= set(dct), "storage-file", f"the file holds {list(dct)} after the storage is closed, expected {ids}")
        seen.clear()
        if ids and not Faults.fired:
            def again():
                with dlite.Storage("json", path, "mode=r") as st:
                    check(set(ids) <= set(st.get_uuids()), "storage-uuids", f"{st.get_uuids()} expected {ids}")
                    iterate(st, 99)
            ok, e = attempt("storage", again)
            check(ok, "storage-read-failed", e)
            check(len(set(seen)) == len(seen) and set(seen) == set(ids), "storage-read", f"{seen} expected {ids}")
        seen.clear()
        its.clear()

    table = [op_new, op_set, op_get, op_hold, op_use, op_drop, op_alias, op_getinst, op_coll_new, op_coll_add, op_coll_remove,
             op_coll_get, op_coll_iter, op_iter_next, op_dict, op_json, op_self, op_copy, op_gc, op_wrong, op_meta, op_relations, op_junk, op_frozen, op_leak, op_coll_file, op_storage]
    names = ["new", "set", "get", "hold_array", "use_array", "drop", "alias", "getinst", "coll_new", "coll_add", "coll_remove",
             "coll_get", "coll_iter", "iter_next", "dict", "json", "self", "copy", "gc", "wrong", "meta", "relations", "junk", "frozen", "leak", "coll_file", "storage"]
    for i, (client, kind, a, f) in enumerate(ops):
        _dsim.op(i)
        Faults.todo, Faults.fired = (f if f[0] else None), False
        _dsim.say(f"op {i} {names[kind % len(table)]} {a}")
        table[kind % len(table)](a)
        Faults.todo = None
        if Faults.fired:
            gc.collect()
        verify(names[kind % len(table)])
    # let everything go
    for k in range(NSLOT):
        put(k, None, None)
        verify("end")
    gc.collect()
    verify("end")
    check(meta._refcount == meta_ref0, "meta-refcount", f"the metadata has {meta._refcount} references, expected {meta_ref0}")
