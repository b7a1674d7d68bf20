"""C16: Headers is a case-insensitive ordered multimap, after any operation sequence."""
from mc.core import Check
from mc.rig import *  # noqa: F403

PROBE = ["a", "A", "b", "x-y", "X-Y", "zz", "", "aB"]


class Model:
    """list of (lower name, [values]) in first-insertion order"""

    def __init__(self):
        self.d = {}

    def add(self, k, v):
        self.d.setdefault(k.lower(), []).append(v)

    def set(self, k, v):
        # an existing name keeps its place
        if k.lower() in self.d:
            self.d[k.lower()][:] = [v]
        else:
            self.d[k.lower()] = [v]

    def rm(self, k):
        return self.d.pop(k.lower())

    def all(self):
        return [(k, v) for k, vs in self.d.items() for v in vs]


def ops(tier):
    out = []
    for k in ("a", "A", "B"):
        for v in ("1", ""):  # also a value that is false
            out += [("add", k, v)]
        out += [("set", k, "3"), ("del", k), ("pop", k), ("popd", k), ("setdefault", k, "4")]
    out += [("update",), ("updatepairs",), ("updateh",), ("clear",), ("popitem",), ("add", "X-Y", "1")]
    return out


OPS = ops("")
INITS = [
    ("empty",), ("pairs", (("A", "1"),)), ("pairs", (("A", "1"), ("b", "2"), ("a", "3"))),
    ("pairs", (("x-y", "1"), ("X-Y", "1"), ("b", "2"))), ("dict", (("A", "1"), ("B", ""))),
    ("headers", (("A", "1"), ("b", "2"), ("a", "3"))), ("headers", (("q", ""), ("Q", "1"))),
    ("allitems", (("A", "1"), ("b", "2"), ("a", "3"))),
    ("list", (("A", ""), ("a", ""), ("A", "3"))),
]


def make(init):
    kind, items = init[0], init[1] if len(init) > 1 else ()
    m = Model()
    for k, v in items:
        m.add(k, v)
    if kind == "empty":
        return Headers(), m
    if kind == "pairs":
        return Headers(tuple(items)), m
    if kind == "list":
        return Headers(list(items)), m
    if kind == "dict":
        return Headers(dict(items)), m
    src = Headers(tuple(items))
    if kind == "headers":
        h = Headers(src)
    else:
        h = Headers(tuple(src.allitems()))
    # the copy is independent of its source
    src.add("a", "zzz")
    src["b"] = "other"
    src.add("new", "n")
    return h, m


def both(name, f, g):
    """run on both; outcomes must agree"""
    def r(x):
        try:
            return ("ok", x())
        except KeyError:
            return ("KeyError",)
    a, b = r(f), r(g)
    expect(a == b, "operation-result", lambda: f"{name}: got {a} want {b}")


def apply(h, m, op):
    name = op[0]
    if name == "add":
        h.add(op[1], op[2])
        m.add(op[1], op[2])
    elif name == "set":
        h[op[1]] = op[2]
        m.set(op[1], op[2])
    elif name == "del":
        def d():
            del h[op[1]]
        both(op, d, lambda: m.rm(op[1]) and None)
    elif name == "pop":
        both(op, lambda: h.pop(op[1]), lambda: m.rm(op[1])[0])
    elif name == "popd":
        both(op, lambda: h.pop(op[1], None),
             lambda: m.rm(op[1])[0] if op[1].lower() in m.d else None)
    elif name == "setdefault":
        def sd():
            if op[1].lower() not in m.d:
                m.set(op[1], op[2])
            return m.d[op[1].lower()][0]
        both(op, lambda: h.setdefault(op[1], op[2]), sd)
    elif name == "update":
        h.update({"A": "u1", "N": "u2"})
        m.set("A", "u1"), m.set("N", "u2")
    elif name == "updatepairs":
        h.update([("b", "u3"), ("B", "u4")])
        m.set("b", "u4")
    elif name == "updateh":
        h.update(Headers([("B", "u5"), ("c", "u6")]))
        m.set("B", "u5"), m.set("c", "u6")
    elif name == "clear":
        h.clear()
        m.d.clear()
    elif name == "popitem":
        try:
            k, v = h.popitem()
        except KeyError:
            expect(not m.d, "popitem", f"KeyError with {m.d}")
            return
        expect(k in m.d and m.d[k][0] == v, "popitem", lambda: f"{k, v} from {m.d}")
        m.rm(k)


def compare(h, m):
    al = m.all()
    firsts = [(k, vs[0]) for k, vs in m.d.items()]
    expect(list(h.allitems()) == al, "allitems", lambda: f"{list(h.allitems())} want {al}")
    expect(len(h.allitems()) == len(al), "allitems-len", lambda: f"{len(h.allitems())} want {len(al)}")
    try:
        view = h.allitems()
        found = [i in view for i in al], ("a", "zzz") in view, ("nope", "1") in view
        same = view == set(al), view & {("a", "1")} == set(al) & {("a", "1")}
    except Exception as e:
        raise Violation("allitems-view", f"{e!r} with {al}") from e
    expect(found == ([True] * len(al), False, False), "allitems-view", lambda: f"{found} with {al}")
    expect(same == (len(set(al)) == len(al), True), "allitems-view", lambda: f"{same} with {al}")
    expect(all(i in h.items() for i in firsts) and ("a", "zzz") not in h.items(), "items-view", lambda: f"{firsts}")
    expect(all(k in h.keys() for k in m.d) and "nope" not in h.keys(), "keys-view", lambda: f"{firsts}")  # noqa: SIM118
    expect(list(h.items()) == firsts, "items", lambda: f"{list(h.items())} want {firsts}")
    expect(list(h) == list(m.d) and list(h.keys()) == list(m.d), "keys", lambda: f"{list(h)} want {list(m.d)}")
    expect(list(h.values()) == [v for _, v in firsts], "values", lambda: f"{list(h.values())}")
    expect(len(h) == len(m.d) and bool(h) == bool(m.d), "len", lambda: f"{len(h)} want {len(m.d)}")
    for k in PROBE:
        want = m.d.get(k.lower(), [])
        expect(list(h.getall(k)) == want, "getall", lambda: f"{k}: {h.getall(k)} want {want}")
        expect((k in h) == bool(want), "contains", lambda: f"{k}")
        expect(h.get(k, "dflt") == (want[0] if want else "dflt"), "get", lambda: f"{k}: {h.get(k)}")
        try:
            got = h[k]
            expect(bool(want) and got == want[0], "getitem", lambda: f"{k}: {got} want {want}")
        except KeyError:
            expect(not want, "getitem", lambda: f"{k}: KeyError want {want}")
    for k, v in al:
        expect(k == k.lower(), "lowercase", k)
    h2 = Headers(tuple(h.allitems()))
    expect(list(h2.allitems()) == al, "copy", lambda: f"{list(h2.allitems())} want {al}")
    expect(h == h2 and h2 == h and not h != h2, "equality", lambda: f"{al} is not equal to its copy")
    if len(al) == len(m.d):
        expect(h == dict(al) and dict(al) == h, "equality", lambda: f"{al} is not equal to the same dictionary")
    for i in range(len(al)):
        for other in (al[:i] + al[i + 1:], al[:i] + [(al[i][0], "zzz")] + al[i + 1:]):
            h3 = Headers(other)
            expect(h != h3 and h3 != h and not h == h3, "equality", lambda: f"{al} is equal to {other}")
    expect(h != Headers([*al, ("a", "zzz")]) and h != Headers([*al, ("new", "1")]), "equality", lambda: f"{al} is equal to more")
    expect(h != al and h != 1, "equality", lambda: f"{al} is equal to something else")


def body(ch, p):
    init, depth, first = p
    h, m = make(init)
    compare(h, m)
    views = h.allitems(), h.items(), h.keys(), h.values()  # views reflect what happens later
    for i in range(depth):
        op = OPS[first] if i == 0 else OPS[ch.choose(len(OPS), "op")]
        ch.ev(*op)
        apply(h, m, op)
        compare(h, m)
        for v, now in zip(views, (h.allitems(), h.items(), h.keys(), h.values())):
            expect(list(v) == list(now) and len(v) == len(now), "stale-view", lambda v=v, now=now: f"{type(v)} {list(v)} want {list(now)}")
    return f"{len(m.d)} names {len(m.all())} values"


def scenarios(tier):
    d = 4 if tier == "thorough" else 3
    return [(i, d, k) for i in INITS for k in range(len(OPS))]


CHECK = Check(
    id="C16", body=body, scenarios=scenarios,
    rule="every sequence of 3 (thorough 4) operations out of 27 from 9 initial states; after each "
         "operation all queries and views are compared with a list-based reference multimap",
    assumptions=("keys and values are str",),
)
