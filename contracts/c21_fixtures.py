"""C21: fixture store, lookup and inheritance."""
from pyvc.contract import contract
from pyvc.core import And, Iff, Not, eq

from shepherd_core.data_models.base.wrapper import Wrapper
from shepherd_core.testbed_client.client_abc_fix import FixturesClient
from shepherd_core.testbed_client.fixtures import Fixture
from shepherd_core.testbed_client.fixtures import Fixtures

M = "shepherd_core.testbed_client.fixtures:"
K = "shepherd_core.testbed_client.client_abc_fix:"
NAMES = ("Alpha", "beta", "GAMMA", "Delta2")
IDS = (11, 7, 300, 2)
PARAMS = ("p", "q")


def store(t, k, parents, has, vals, order=None):
    """A fixture with k entries; entry i inherits from entry parents[i] (None: from nothing) and defines the parameters has[i]."""
    f = t.new(Fixture, "Virtual")
    for i in order or range(k):
        d = {"id": IDS[i], "name": NAMES[i]}
        if parents[i] is not None:
            d["inherit_from"] = parents[i]
        for p in PARAMS:
            if p in has[i]:
                d[p] = vals[i][p]
        t.m(f, "insert", t.model(Wrapper, datatype="vIRTUAL", parameters=d))
    return f


def values(t, k):
    return [{p: t.real(f"{p}{i}") for p in PARAMS} for i in range(k)]


def spell(name, how):
    return {"as stored": name, "upper": name.upper(), "lower": name.lower(), "swap": name.swapcase()}[how]


def same(t, d, want):
    t.ensure("keys of the result", set(d) == set(want))
    if set(d) != set(want):
        return
    for key, v in want.items():
        have = t.at(d, key)
        t.ensure(f"value of {key}", have is None if v is None else t.eq(have, v))


HAS = [(), ("p",), ("q",), ("p", "q")]


# ------------------------------------------------------------------ lookup
@contract("C21", "lookup by name and id", on=[M + "Fixture.__init__", M + "Fixture.insert", M + "Fixture.__getitem__", M + "Fixture.query_id", M + "Fixture.query_name"],
          bounded=True, samples=200)
def _(t):
    k = t.choice("entries", [1, 2, 3, 4])
    order = t.choice("order", [(0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)])
    vals = values(t, k)
    f = store(t, k, [None] * k, [PARAMS] * k, vals, [i for i in order if i < k])
    i = t.choice("asked", [0, 1, 2, 3])
    how = t.choice("spelling", ["as stored", "upper", "lower", "swap"])
    via = t.choice("via", ["[name]", "query_name", "[id]", "[id as text]", "query_id"])
    key = {"[name]": spell(NAMES[i], how), "query_name": spell(NAMES[i], how), "[id]": IDS[i], "[id as text]": str(IDS[i]), "query_id": IDS[i]}[via]
    r = t.attempt_m(f, via if via.startswith("query") else "__getitem__", key)
    if i >= k:
        t.ensure("unknown key raises", r.raised(ValueError))
        return
    t.ensure("known key found", r.ok)
    if r.ok:
        same(t, r.value, {"id": IDS[i], "name": NAMES[i], **vals[i]})


@contract("C21", "unknown keys raise", on=[M + "Fixture.__getitem__", M + "Fixture.query_id", M + "Fixture.query_name", M + "Fixtures.__getitem__",
                                           K + "FixturesClient.query_item", K + "AbcClient.try_completing_model"], bounded=True)
def _(t):
    k = t.choice("entries", [0, 1, 3])
    f = store(t, k, [None] * k, [()] * k, values(t, k))
    cl = client(t, f)
    name = t.choice("name", ["", "alph", "alpha ", "alphaa", "12", "0", "-11", "p", "name", "1e1"])
    n = t.choice("id", [0, 1, -11, 12, 299, 2])
    t.ensure("[name]", t.attempt_m(f, "__getitem__", name).raised(ValueError))
    t.ensure("[id]", t.attempt_m(f, "__getitem__", n).raised(ValueError))
    t.ensure("query_name", t.attempt_m(f, "query_name", name).raised(ValueError))
    t.ensure("query_id", t.attempt_m(f, "query_id", n).raised(ValueError))
    t.ensure("query_item by name", t.attempt_m(cl, "query_item", "virtual", name=name).raised(ValueError))
    t.ensure("query_item by id", t.attempt_m(cl, "query_item", "virtual", uid=n).raised(ValueError))
    t.ensure("query_item by nothing", t.attempt_m(cl, "query_item", "virtual").raised(ValueError))
    t.ensure("query_item of unknown model", t.attempt_m(cl, "query_item", "virtua", uid=11).raised(ValueError))
    t.ensure("completing by name", t.attempt_m(cl, "try_completing_model", "virtual", {"name": name}).raised(ValueError))
    t.ensure("completing by id", t.attempt_m(cl, "try_completing_model", "virtual", {"id": n}).raised(ValueError))
    t.ensure("inheriting from unknown", t.attempt_m(cl, "try_completing_model", "virtual", {"name": "new", "inherit_from": name}).raised(ValueError))


def client(t, f):
    return t.obj(FixturesClient, _fixtures=t.obj(Fixtures, components={"virtual": f}))


@contract("C21", "store keeps models apart", on=[M + "Fixture.insert", M + "Fixtures.insert_model", M + "Fixtures.__getitem__", K + "FixturesClient.query_item",
                                                 K + "FixturesClient.query_ids", K + "FixturesClient.query_names"], bounded=True)
def _(t):
    fs = t.obj(Fixtures, components={})
    types = t.choice("types", [("Cape", "cape", "MCU"), ("cape", "MCU", "Target"), ("MCU", "mcu", "mcU"), ("Target", "cape", "target")])
    vals = values(t, 3)
    for i, ty in enumerate(types):
        t.m(fs, "insert_model", t.model(Wrapper, datatype=ty, parameters={"id": IDS[i], "name": NAMES[i], "p": vals[i]["p"]}))
    cl = t.obj(FixturesClient, _fixtures=fs)
    for ty in {x.lower() for x in types}:
        mine = [i for i in range(3) if types[i].lower() == ty]
        for spelling in (ty, ty.upper()):
            t.ensure(f"ids of {spelling}", sorted(t.m(cl, "query_ids", spelling)) == sorted(IDS[i] for i in mine))
            t.ensure(f"names of {spelling}", sorted(t.m(cl, "query_names", spelling)) == sorted(NAMES[i].lower() for i in mine))
            for i in range(3):
                r = t.attempt_m(cl, "query_item", spelling, uid=IDS[i])
                t.ensure(f"{i} in {spelling} iff inserted there", r.ok == (i in mine))
                if r.ok:
                    t.ensure(f"value of {i}", t.eq(t.at(r.value, "p"), vals[i]["p"]))


@contract("C21", "later insertions replace", on=[M + "Fixture.insert", M + "Fixture.query_name", M + "Fixture.query_id"], bounded=True)
def _(t):
    k = t.choice("entries", [1, 2, 3])
    vals = values(t, k)
    f = store(t, k, [None] * k, [PARAMS] * k, vals)
    i = t.choice("again", [0, 1, 2])
    new = t.real("new")
    t.m(f, "insert", t.model(Wrapper, datatype="virtual", parameters={"id": IDS[i], "name": spell(NAMES[i], "upper"), "p": new}))
    for j in range(k):
        if j != i:
            same(t, t.m(f, "query_name", NAMES[j]), {"id": IDS[j], "name": NAMES[j], **vals[j]})
            same(t, t.m(f, "query_id", IDS[j]), {"id": IDS[j], "name": NAMES[j], **vals[j]})
    want = {"id": IDS[i], "name": NAMES[i].upper(), "p": new}
    same(t, t.m(f, "query_name", NAMES[i]), want)
    same(t, t.m(f, "query_id", IDS[i]), want)


# ------------------------------------------------------------------ stores of any size
WORDS = ("alpha", "beta", "alphabet", "be_ta", "11", "x7")
NUMS = (0, 2, 7, 11, 300)


def any_store(t):
    """A fixture that holds whatever was inserted before."""
    word = lambda r: "".join(r.choice([c, c.upper()]) for c in r.choice(WORDS))
    entry = lambda k: {"id": t.int("id", gen=lambda r: r.choice(NUMS)), "name": t.text("name", gen=word), "p": t.real("p")}
    typ = t.choice("type", ["virtual", "cape"])
    f = t.new(Fixture, typ)
    t.set(f, "elements_by_name", t.anymap("by name", "str", entry, WORDS))
    t.set(f, "elements_by_id", t.anymap("by id", "int", entry, NUMS))
    return f, typ, word


def same_entry(t, name, now, old, k):
    there = t.has(old, k)
    t.ensure(f"{name}: present iff before", t.has(now, k) == there)
    if there and t.has(now, k):
        t.ensure(f"{name}: the very same entry", t.at(now, k) is t.at(old, k))


@contract("C21", "insertion into any store: found under name and id, nothing else changes", on=[M + "Fixture.__init__", M + "Fixture.insert"], samples=400)
def _(t):
    f, typ, word = any_store(t)
    names, ids = t.get(f, "elements_by_name"), t.get(f, "elements_by_id")
    names0, ids0 = t.mapcopy(names), t.mapcopy(ids)
    datatype = t.text("datatype", gen=lambda r: r.choice(["virtual", "VIRTUAL", "Cape", "cape", "capes"]))
    new = {"id": t.int("new id", gen=lambda r: r.choice(NUMS)), "name": t.text("new name", gen=word), "q": t.real("q")}
    t.m(f, "insert", t.model(Wrapper, datatype=datatype, parameters=new))
    names, ids = t.get(f, "elements_by_name"), t.get(f, "elements_by_id")
    other, n = t.text("other", gen=lambda r: r.choice(WORDS)), t.int("n", gen=lambda r: r.choice(NUMS))
    mine = t.branch(t.eq(t.m(datatype, "lower"), typ))
    low = t.m(new["name"], "lower")
    if mine:
        t.ensure("known by its name", t.has(names, low))
        t.ensure("known by its id", t.has(ids, new["id"]))
        if t.has(names, low) and t.has(ids, new["id"]):
            for what, e in (("name", t.at(names, low)), ("id", t.at(ids, new["id"]))):
                t.ensure(f"by {what}: keys", set(e) == set(new))
                t.ensure(f"by {what}: values", And(t.eq(e["id"], new["id"]), t.eq(e["name"], new["name"]), t.eq(e["q"], new["q"])))
    if not mine or not t.branch(t.eq(other, low)):
        same_entry(t, "other name", names, names0, other)
    if not mine or not t.branch(t.eq(n, new["id"])):
        same_entry(t, "other id", ids, ids0, n)


@contract("C21", "lookup in any store: the entry of that name or id, or an error", on=[M + "Fixture.__getitem__", M + "Fixture.query_id", M + "Fixture.query_name",
          K + "FixturesClient.query_item"], samples=600)
def _(t):
    f, typ, word = any_store(t)
    names, ids = t.get(f, "elements_by_name"), t.get(f, "elements_by_id")
    names0, ids0 = t.mapcopy(names), t.mapcopy(ids)
    cl = t.obj(FixturesClient, _fixtures=t.obj(Fixtures, components={typ: f}))
    via = t.choice("via", ["[name]", "[id]", "query_name", "query_id", "item by name", "item by id", "item by both"])
    name, n = t.text("asked", gen=word), t.int("number", gen=lambda r: r.choice([*NUMS, 1, -2]))
    low = t.m(name, "lower")
    by_name = via in ("[name]", "query_name", "item by name")
    if via == "[name]":
        t.assume(t.has(names0, low))  # other texts may be ids, see below
    known = t.has(names0, low) if by_name else t.has(ids0, n)
    if via.startswith("["):
        r = t.attempt_m(f, "__getitem__", name if by_name else n)
    elif via.startswith("query"):
        r = t.attempt_m(f, via, name if by_name else n)
    else:
        r = t.attempt_m(cl, "query_item", typ, **({"name": name} if by_name else {"uid": n} if via == "item by id" else {"uid": n, "name": name}))
    if not known:
        t.ensure("unknown key raises", r.raised(ValueError))
        return
    t.ensure("known key found", r.ok)
    if r.ok:
        t.ensure("the very entry", r.value is (t.at(names0, low) if by_name else t.at(ids0, n)))


# ------------------------------------------------------------------ inheritance
def expected(req, start, parents, has, vals):
    """Values and chain for a request that continues at entry `start`; the nearest definition wins."""
    out, i = {}, start
    while i is not None:
        for key, v in [("id", IDS[i]), ("name", NAMES[i]), *((p, vals[i][p]) for p in PARAMS if p in has[i])]:
            out.setdefault(key, v)
        i = None if parents[i] is None else [n.lower() for n in NAMES].index(parents[i].lower())
    return {**out, **{k: v for k, v in req.items() if k != "inherit_from"}}


def ancestors(start, parents):
    out, i = [], start
    while i is not None:
        out.append(NAMES[i].lower())
        i = None if parents[i] is None else [n.lower() for n in NAMES].index(parents[i].lower())
    return out


@contract("C21", "inheritance in any store: given values, then the nearest definition along the parents", on=[M + "Fixture.inheritance", M + "Fixture.__getitem__"],
          samples=800, note="induction over the length of the chain of parents: recursive calls by this contract (circles of parents are left out)")
def _(t):
    word = lambda r: "".join(r.choice([c, c.upper()]) for c in r.choice(WORDS))
    f = t.new(Fixture, "virtual")
    made, stored = [], {}
    has = {p: t.uf("defines." + p, "bool") for p in PARAMS} if t.sym else {}
    val = {p: t.uf("defined." + p, "real") for p in PARAMS} if t.sym else {}
    ident = t.uf("id of", "int") if t.sym else None

    def defined(k, p):
        """The nearest definition of p along the chain that starts with the entry of name k."""
        if t.sym:
            return has[p](k), val[p](k)
        e = stored[k]
        return (True, e[p]) if p in e else defined(e["inherit_from"].lower(), p) if "inherit_from" in e else (False, 0.0)

    def id_of(k):
        return ident(k) if t.sym else stored[k]["id"]

    def entry(k, parents=True):
        e = {"id": t.int("id", gen=lambda r: r.choice(NUMS)), "name": t.text("name", gen=word)}
        for p in PARAMS:
            if t.branch(t.bool("has " + p)):
                e[p] = t.real(p)
        if t.sym or stored:
            if t.branch(t.bool("inherits")):
                e["inherit_from"] = t.text("parent", gen=lambda r: r.choice(sorted(stored)).upper())
        made.append((e, dict(e)))
        return e

    def named(k):
        e = entry(k)
        if not t.sym:
            stored[k] = e
            return e
        t.assume(t.eq(ident(k), e["id"]))  # what the nearest definition is
        for p in PARAMS:
            if p in e:
                t.assume(And(has[p](k), t.eq(val[p](k), e[p])))
            elif "inherit_from" in e:
                up = t.m(e["inherit_from"], "lower")
                t.assume(And(Iff(has[p](k), has[p](up)), t.eq(val[p](k), val[p](up))))
            else:
                t.assume(Not(has[p](k)))
        return e

    names = t.anymap("by name", "str", named, WORDS)
    ids = t.anymap("by id", "int", entry, NUMS)
    t.set(f, "elements_by_name", names)
    t.set(f, "elements_by_id", ids)

    def resolved(v):
        """(defined, value) of p, q, id for a request; the name is checked apart."""
        out = {}
        e = None
        if "inherit_from" in v:
            k = t.m(v["inherit_from"], "lower")
        elif "name" in v and t.has(names, t.m(v["name"], "lower")):
            k = t.m(v["name"], "lower")
        else:
            k = None
            if "id" in v and t.has(ids, v["id"]):
                e = t.at(ids, v["id"])
                k = t.m(e["inherit_from"], "lower") if "inherit_from" in e else None
        for p in PARAMS:
            out[p] = (True, v[p]) if p in v else (True, e[p]) if e is not None and p in e else defined(k, p) if k is not None else (False, 0.0)
        out["id"] = (True, v["id"]) if "id" in v else (True, id_of(k)) if k is not None else (False, 0)
        return out

    def recursion(self, values, chain=None):
        out = {}
        for key, (there, v) in resolved(values).items():
            if t.branch(there):
                out[key] = v
        if "name" in values or "inherit_from" in values:
            out["name"] = values["name"] if "name" in values else values["inherit_from"]
        return out, ([] if chain is None else chain)

    t.stub(Fixture.inheritance, recursion, "C21", after=1)
    req = {}
    for key, v in (("p", lambda: t.real("given p")), ("q", lambda: t.real("given q")), ("id", lambda: t.int("given id", gen=lambda r: r.choice([*NUMS, 5]))),
                   ("name", lambda: t.text("given name", gen=word)), ("inherit_from", lambda: t.text("from", gen=word))):
        if t.branch(t.bool("gives " + key)):
            req[key] = v() if key not in PARAMS or t.branch(t.bool(key + " is set")) else None
    if "inherit_from" in req:
        t.assume(t.has(names, t.m(req["inherit_from"], "lower")))
        if "name" in req:
            t.assume(Not(t.eq(req["name"], req["inherit_from"])))
    e = None
    if "inherit_from" not in req and "id" in req and not ("name" in req and t.has(names, t.m(req["name"], "lower"))) and t.has(ids, req["id"]):
        e = t.at(ids, req["id"])
    chain = t.choice("called", ["by a user", "for a descendant"])
    given = dict(req)
    want = resolved(req)
    if t.sym:  # parents of stored entries are stored (unknown ones: see above)
        for x, _ in list(made):
            if "inherit_from" in x:
                t.assume(t.has(names, t.m(x["inherit_from"], "lower")))
    got, _ = t.m(f, "inheritance", req, *([] if chain == "by a user" else [["someone"]]))
    for key, (there, v) in want.items():
        there = t.branch(there)
        t.ensure(f"{key} in the result iff defined", (key in got) == there)
        if there and key in got:
            have = t.at(got, key)
            t.ensure(f"value of {key}", have is None if v is None else have is not None and t.eq(have, v))
    if "name" in req:
        t.ensure("name kept", "name" in got and t.eq(t.at(got, "name"), req["name"]))
    t.ensure("no marker of inheritance left", "inherit_from" not in got)
    t.ensure("the request is not altered", set(req) == set(given) and all(req[k] is given[k] for k in given))
    t.ensure("the result is a dictionary of its own", all(got is not x for x, _ in made) and got is not req)
    for x, old in made:
        t.ensure("stored entries are not altered", set(x) == set(old) and all(x[k] is old[k] for k in old))


TREES = [  # (entries, parents)
    (1, [None]), (2, ["beta", None]), (2, [None, "ALPHA"]), (3, ["BETA", "gamma", None]), (3, [None, "Alpha", "beta"]),
    (3, ["gamma", "GAMMA", None]), (4, ["Beta", "gamma", "delta2", None]), (4, [None, "delta2", None, "Alpha"]),
]


def draw_tree(t):
    k, parents = t.choice("tree", TREES)
    has = t.choice("defined", [[(), ("p",), ("q",), ("p", "q")], [("p",), ("p",), ("p",), ("p", "q")], [("p", "q"), ("q",), ("p", "q"), ()],
                               [("q",), (), ("p",), ("p",)]])[:k]
    i = t.choice("asked", [0, 1, 2, 3])
    if i >= k:
        t.assume(False)
    return k, parents, has, i


def request(t, i):
    """What the user supplies."""
    kind = t.choice("request", ["name", "name+", "id", "id+", "inherit", "inherit+", "inherit, known id", "name, none", "inherit, none"])
    how = t.choice("spelling", ["as stored", "upper", "lower"])
    name = spell(NAMES[i], how)
    mine = t.real("mine")
    return kind, {"name": {"name": name}, "name+": {"name": name, "p": mine}, "id": {"id": IDS[i]}, "id+": {"q": mine, "id": IDS[i]},
                  "inherit": {"name": "brand new", "inherit_from": name, "id": 999},
                  "inherit+": {"name": "brand new", "inherit_from": name, "q": mine, "id": 999},
                  "inherit, known id": {"inherit_from": name, "p": mine},
                  "name, none": {"name": name, "p": None}, "inherit, none": {"name": "brand new", "inherit_from": name, "q": None, "id": 999}}[kind]


@contract("C21", "completed by the nearest definition", on=[M + "Fixture.inheritance", M + "Fixture.__getitem__", M + "Fixture.query_name", M + "Fixture.query_id",
          K + "AbcClient.try_completing_model", K + "FixturesClient.try_inheritance", K + "FixturesClient.query_item"], bounded=True, samples=600, seconds=20)
def _(t):
    k, parents, has, i = draw_tree(t)
    vals = values(t, k)
    f = store(t, k, parents, has, vals)
    cl = client(t, f)
    kind, req = request(t, i)
    before = t.snap(f)
    given = dict(req)
    got, chain = t.m(cl, "try_completing_model", "Virtual", req)
    want = expected(given, i, parents, has, vals)
    if kind == "name":  # completed from the stored entry
        want["name"] = NAMES[i]
    if kind == "inherit, known id":
        t.ensure("named after its parent", t.at(got, "name").lower() == NAMES[i].lower())
        want["name"] = t.at(got, "name")
    same(t, got, want)
    have = [c.lower() for c in chain]
    need = ancestors(i, parents)
    t.ensure("chain lists every ancestor in order", [c for c in have if c in need] == (need if len(need) > 1 or kind.startswith("inherit") else [c for c in need if c in have]))
    t.ensure("chain lists nothing else but the entry itself", all(c in need or c == "brand new" for c in have))
    t.ensure("no ancestor twice", len(set(have)) == len(have))
    t.ensure("the request is not altered", set(req) == set(given))
    unchanged(t, f, before)


def unchanged(t, f, before):
    for d in ("elements_by_name", "elements_by_id"):
        now, old = t.get(f, d), t.get(before, d)
        t.ensure(f"{d}: same entries", set(now) == set(old))
        for key in old:
            t.ensure(f"{d}[{key}]: same keys", set(now[key]) == set(old[key]))
            for p in old[key]:
                t.ensure(f"{d}[{key}][{p}] unchanged", t.eq(now[key][p], old[key][p]))


@contract("C21", "history of queries leaves the store alone", on=[M + "Fixture.inheritance", K + "AbcClient.try_completing_model", K + "FixturesClient.fill_in_user_data",
                                                                  M + "Fixture.fill_model"], bounded=True, samples=300, seconds=20)
def _(t):
    k, parents, has, i = draw_tree(t)
    vals = values(t, k)
    f = store(t, k, parents, has, vals)
    cl = client(t, f)
    before = t.snap(f)
    kind = t.choice("first", ["name", "id", "inherit"])
    req = {"name": {"name": NAMES[i]}, "id": {"id": IDS[i]}, "inherit": {"name": "x", "id": 5, "inherit_from": NAMES[i]}}[kind]
    first, _ = t.m(cl, "try_completing_model", "virtual", req)
    first = t.m(cl, "fill_in_user_data", first)
    t.ensure("owner and group filled in", And(eq(t.at(first, "owner"), "unknown"), eq(t.at(first, "group"), "unknown")))
    first["p"] = -1.0
    first["name"] = "broken"
    unchanged(t, f, before)
    second, _ = t.m(cl, "try_completing_model", "virtual", {"id": IDS[i]})
    same(t, second, expected({}, i, parents, has, vals))
    third = t.m(f, "fill_model", {"p": 3.0, "zz": 1.0}, t.m(f, "query_id", IDS[i]))
    t.ensure("filled model: given value kept", And(eq(t.at(third, "p"), 3.0), eq(t.at(third, "zz"), 1.0)))
    unchanged(t, f, before)
