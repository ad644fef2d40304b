"""The checks, one function per property."""
import base64, json

import gen, lib
from lib import REPO, SPEC

SHAPES = ["random"] * 6 + ["chain", "tree", "naive", "collider"]


def many(n, make, prefix):
    return [make(f"{prefix}{i}") for i in range(n)]


def C01(c):
    rng = c.rng
    c.design([("MCElimination", "MCElimination", "elimination, all orders, three variables"),
              ("MCElimination", "MCEliminationWrong", "[elimination without multiplying]")],
             [("MCElimination", "MCEliminationMore", "elimination, all orders, four variables")])
    c.plant = ["marg", "fd"]

    def small(id_):
        net = gen.chance_net(rng, rng.randint(1, 8), joint=rng.choice([40, 200, 600]), shape=rng.choice(SHAPES), styles=gen.RARE)
        if rng.random() < .03:
            net = gen.widen(rng, gen.chance_net(rng, rng.randint(1, 4), joint=16))
        ev = [gen.query(rng, net) for _ in range(rng.randint(2, 5))]
        return gen.session(id_, net, ev, {"marg", "fac"})

    c.conform("TraceSession", many(c.pick(1500, 15000), small, "s"), "small networks")

    def large(id_):
        net = gen.chance_net(rng, rng.randint(9, 22), joint=10 ** 9, maxpar=2, cmax=rng.choice([2, 3, 4]), shape=rng.choice(SHAPES))
        ev = [gen.query(rng, net, size=24) for _ in range(rng.randint(1, 3))]
        return gen.session(id_, net, ev, {"marg", "fac"}, big=True)

    c.conform("TraceSession", many(c.pick(80, 800), large, "b"), "large networks")

    def direct(id_):
        net = gen.chance_net(rng, rng.randint(1, 8), joint=600, shape=rng.choice(SHAPES), styles=gen.RARE)
        ev = []
        for _ in range(rng.randint(1, 3)):
            q = gen.query(rng, net)
            ev.append({"op": "vesolve", "ev": q["ev"], "q": q["q"]})
        return gen.engine(rng, id_, net, ev)

    c.plant = ["fd"]
    c.conform("TraceAlgebra", many(c.pick(500, 6000), direct, "e"), "elimination engine")


def C02(c):
    rng = c.rng
    c.plant = ["marg"]
    styles = ["zeros", "det", "tiny", "zerorow", "plain", "zeros", "tiny"]

    def one(id_):
        st = rng.choice([["zeros", "det"], ["tiny"], styles, ["zeros", "zerorow"], ["tiny", "zeros"]])
        net = gen.chance_net(rng, rng.randint(1, 7), joint=rng.choice([40, 200, 400]), styles=st, shape=rng.choice(SHAPES))
        ev = []
        for _ in range(rng.randint(3, 6)):
            ev.append(gen.query(rng, net, ev=gen.evidence(rng, net, p=rng.choice([.2, .5, .8]))))
        return gen.session(id_, net, ev, {"nan", "dist"})

    c.conform("TraceSession", many(c.pick(1500, 15000), one, "z"), "zeros and tiny probabilities")

    def dec(id_):
        net = gen.decision_net(rng, rng.randint(1, 4), rng.randint(1, 2), rng.randint(1, 2), joint=120, styles=("zeros", "det", "plain"))
        ev = [gen.query(rng, net)] if rng.random() < .5 else []
        ev += [{"op": "policies", "step": rng.random() < .5}]
        ev += [gen.query(rng, net, ev=gen.evidence(rng, net, p=rng.choice([.3, .6]))) for _ in range(rng.randint(3, 6))]
        return gen.session(id_, net, ev, {"nan", "dist"})

    c.conform("TraceSession", many(c.pick(500, 5000), dec, "d"), "decisions")


def random_decision_net(rng, dyadic=False, joint=None, nd=None):
    if not nd and rng.random() < .03:  # more of everything
        return gen.decision_net(rng, rng.randint(1, 3), rng.choice([3, 4]), rng.randint(4, 9), dyadic=dyadic, joint=64, cmax=2, dcard=2)
    nd = nd or rng.choice([1, 1, 2, 2, 2, 3])
    net = gen.decision_net(rng, rng.randint(1, 4), nd, rng.randint(1, 3), dyadic=dyadic,
                           joint=joint or rng.choice([30, 80, 150]), cmax=rng.choice([2, 3, 4, 10]))
    if not joint and rng.random() < .08:  # very large or very small utilities
        x, up = gen.F(2) ** rng.choice([-200, -60, 40, 130, 200]), rng.choice([0, 0, 100, -100])
        for u in net.utilities():
            if u != net.total:
                net.tab[u - 1] = [(y + up) * x for y in net.tab[u - 1]]
    return net


def C04(c):
    rng = c.rng
    c.design([("MCPolicy", "MCPolicy", "solving decisions, three variables"), ("MCPolicy", "MCPolicyWrong", "[solving the first decision first]")],
             [("MCPolicy", "MCPolicyMore", "solving decisions, four variables")])
    c.plant = ["pol"]

    def one(dyadic):
        def make(id_):
            net = random_decision_net(rng, dyadic)
            ev = [{"op": "policies", "step": s} for s in rng.choice([[True], [False], [True, False], [False, True]])]
            return gen.session(id_, net, ev, {"pol"} | ({"exact"} if dyadic else set()))
        return make

    def wide(id_):
        k = rng.choice([9, 10, 12, 17, 40])
        net = gen.decision_net(rng, rng.randint(0, 2), rng.choice([1, 1, 2]), rng.randint(1, 2), dyadic=True, cmax=2, dcard=2, joint=16)
        d = rng.choice(net.decisions())
        net.card[d - 1], net.outs[d - 1] = k, [f"o{i}" for i in range(k)]
        for v in range(1, net.n + 1):
            if d in net.par[v - 1]:
                rows = gen.prod(net.card[p - 1] for p in net.par[v - 1])
                pool = [rng.randint(-3, 5) for _ in range(rng.choice([1, 2, 3]))]
                net.tab[v - 1] = [] if net.type[v - 1] == "d" else [gen.F(rng.choice(pool)) for _ in range(rows)] if net.type[v - 1] == "u" else gen.chance_table(rng, net.card[v - 1], rows, ["dyadic"])
        return gen.session(id_, net, [{"op": "policies", "step": rng.random() < .5}], {"pol", "exact"})

    def direct(id_):
        dyadic = rng.random() < .5
        net = gen.decision_net(rng, rng.randint(0, 4), rng.choice([1, 1, 2, 2, 3]), rng.randint(1, 3), dyadic=dyadic, joint=rng.choice([30, 80]), cmax=rng.choice([2, 3, 4]), total=False)
        w = [rng.choice([1, 1, 2, -1, 0, 3, gen.F(1, 2), gen.F(1, 4)]) for _ in net.utilities()] if rng.random() < .5 else []
        s = gen.engine(rng, id_, net, [{"op": "vepolicy", "step": rng.random() < .5, "w": [gen.exact(x) for x in w]}], pool=False)
        for u, x in zip(net.utilities(), w):  # what the weights mean
            net.tab[u - 1] = [y * x for y in net.tab[u - 1]]
        return dict(s, net=net.json(), exact=dyadic)

    c.conform("TraceAlgebra", many(c.pick(300, 3000), direct, "e"), "elimination engine")
    c.conform("TraceSession", many(c.pick(200, 2000), wide, "w"), "many options")
    c.conform("TraceSession", many(c.pick(700, 8000), one(True), "x"), "exact networks")
    c.conform("TraceSession", many(c.pick(700, 8000), one(False), "r"), "rounded networks")


def C05(c):
    rng = c.rng
    c.plant = ["fd"]

    def make(id_):
        net = random_decision_net(rng)
        if rng.random() < .25:
            net = gen.decision_net(rng, rng.randint(1, 5), rng.choice([0, 0, 1]), rng.randint(1, 3), joint=100, styles=rng.choice([("tiny",), ("tiny", "zeros"), ("det", "zeros", "counts")]))
        ev = []
        if rng.random() < .6:
            ev.append({"op": "policies", "step": rng.random() < .5})
            if rng.random() < .5:
                ev.append({"op": "utility", "ev": [], "q": [], "u": 0, "ign": False})
        for _ in range(rng.randint(2, 4)):
            ev.append(gen.utility(rng, net, op=rng.choice(["utility", "utility", "normutil"])))
        return gen.session(id_, net, ev, {"util"})

    c.conform("TraceSession", many(c.pick(1000, 10000), make, "u"), "utilities")

    def direct(id_):
        net = gen.decision_net(rng, rng.randint(1, 4), rng.choice([0, 1, 1, 2]), rng.randint(1, 4), joint=80, total=False, styles=rng.choice([("plain", "norm", "zeros"), ("tiny", "zeros")]))
        ev = []
        for _ in range(rng.randint(1, 3)):
            q = gen.utility(rng, net)
            if rng.random() < .5:
                q["w"] = [gen.exact(rng.choice([1, 2, -1, 0, 3, gen.F(1, 2)])) for _ in net.utilities()]
            ev.append({"op": "veutil", "ev": q["ev"], "q": q["q"], "u": q["u"], "w": q.get("w", [])})
        return gen.engine(rng, id_, net, ev)

    c.conform("TraceAlgebra", many(c.pick(400, 4000), direct, "e"), "elimination engine")


def C06(c):
    rng = c.rng
    c.plant = ["marg", "fd"]

    def make(id_):
        net = random_decision_net(rng)
        ev = []
        if rng.random() < .3:
            ev += [gen.query(rng, net) for _ in range(2)]
        ev.append({"op": "policies", "step": rng.random() < .5})
        ds = net.decisions()
        for _ in range(rng.randint(3, 5)):
            es = gen.evidence(rng, net, ds, .6) + gen.evidence(rng, net, net.chance(), rng.choice([0, .3]))
            ev.append(gen.query(rng, net, ev=es))
            if rng.random() < .3:
                ev.append(gen.utility(rng, net, ev=es))
        return gen.session(id_, net, ev, {"marg", "nan", "fac", "util"})

    c.conform("TraceSession", many(c.pick(1200, 12000), make, "p"), "policies and evidence")


# ---- C07: histories

BAD_OPS = {"rawquery": lambda rng, net: bad_query(rng, net), "rawutility": lambda rng, net: bad_utility(rng, net), "rawtoev": lambda rng, net: bad_toev(rng, net)}


def ev_names(net, ev):
    return {net.names[v - 1]: net.outs[v - 1][o] for v, o in ev}


def bad_query(rng, net):
    """A query that is wrong in one place."""
    e = gen.query(rng, net)
    evs, qs = ev_names(net, e["ev"]), [net.names[v - 1] for v in e["q"]]
    v = rng.choice(net.random_vars())
    kinds = ["evvar", "evout", "qvar"] + (["evutil", "qutil"] if net.utilities() else []) + (["evtotal", "qtotal"] if net.total else [])
    kind = rng.choice(kinds)
    if kind == "evvar":
        evs["no such variable"] = "x"
    elif kind == "evout":
        evs[net.names[v - 1]] = rng.choice(["no such outcome", "", net.outs[v - 1][0] + " ", net.outs[v - 1][0].upper() + "'"])
    elif kind == "qvar":
        qs.insert(rng.randrange(len(qs) + 1), rng.choice(["no such variable", ""]))
    elif kind in ("evutil", "evtotal"):
        u = rng.choice(net.utilities()) if kind == "evutil" else net.total
        evs[net.names[u - 1]] = net.outs[u - 1][0]
    else:
        u = rng.choice(net.utilities()) if kind == "qutil" else net.total
        qs.insert(rng.randrange(len(qs) + 1), net.names[u - 1])
    return {"op": "rawquery", "evs": evs, "qs": qs, "ign": e["ign"]}


def bad_utility(rng, net):
    if rng.random() < .5 or not net.utilities():
        e = bad_query(rng, net)
        e["op"] = "rawutility"
        e["uname"] = net.names[rng.choice(net.utilities()) - 1] if net.utilities() and rng.random() < .5 else ""
        return e
    e = gen.query(rng, net)
    u = rng.choice(["no such utility", net.names[rng.choice(net.random_vars()) - 1]] + ([net.names[net.total - 1]] if net.total else []))
    return {"op": "rawutility", "evs": ev_names(net, e["ev"]), "qs": [net.names[v - 1] for v in e["q"]], "ign": e["ign"], "uname": u}


def bad_toev(rng, net):
    v = rng.choice(net.random_vars())
    qs = rng.choice([["no such variable", "x"], [net.names[v - 1], "no such outcome"], ["", ""]])
    return {"op": "rawtoev", "qs": qs}


def samples(rng, net, full=True, missing=.1):
    """Training samples; with full, every table row gets at least one."""
    import itertools
    out = []

    def one(s):
        value = lambda: gen.rat(gen.F(rng.randint(-40, 40), rng.choice([1, 2, 4]))) if rng.random() < .7 else gen.exact(gen.F(rng.randint(-10 ** 8, 10 ** 8), rng.choice([3, 10 ** 3, 10 ** 9])))
        us = [value() if net.type[i] == "u" else "NaN" for i in range(net.n)]
        return {"s": s, "us": us, "unil": not net.utilities() and rng.random() < .5}

    def rnd():
        return [rng.randrange(k) for k in net.card]

    if full:
        for v in range(1, net.n + 1):
            if net.type[v - 1] == "d" or v == net.total:
                continue
            for combo in itertools.product(*[range(net.card[p - 1]) for p in net.par[v - 1]]):
                s = rnd()
                for p, o in zip(net.par[v - 1], combo):
                    s[p - 1] = o
                out.append(one(s))
    for _ in range(rng.randint(0, 6)):
        s = one(rnd())
        for i in range(net.n):
            if rng.random() < missing:
                s["s"][i] = -1
            if rng.random() < missing:
                s["us"][i] = "NaN"
        out.append(s)
    rng.shuffle(out)
    return out


def vary(rng, net, e):
    """The same call or one that differs in one respect."""
    x = rng.random()
    if x < .4:
        return e
    if x < .6 and e["ev"]:
        e["ev"] = [[v, rng.randrange(net.card[v - 1])] for v, _ in e["ev"]]
    elif x < .7:
        e["ign"] = not e["ign"]
    elif x < .8:
        e["q"] = rng.sample(e["q"], len(e["q"]))
    elif x < .9 and e["ev"]:
        e["ev"] = rng.sample(e["ev"], len(e["ev"]) - 1)
    elif e.get("u") is not None and net.utilities():
        e["u"] = rng.choice([0] + net.utilities())
    return e


def instantiate(rng, net, hist):
    """Events of an abstract history generated from Histories.tla."""
    events, at = [], {}
    for k, (op, arg) in enumerate(hist, 1):
        at[k] = len(events) + 2  # the first event is load
        old = [e for e in events if e["op"] == op]
        if op in ("query", "utility", "normutil") and old and rng.random() < .5:
            events.append(vary(rng, net, dict(rng.choice(old))))  # ask again
        elif op == "query":
            events.append(gen.query(rng, net, size=24))
        elif op in ("utility", "normutil"):
            events.append(gen.utility(rng, net, op=op, size=24) if net.utilities() else gen.query(rng, net, size=24))
        elif op == "policies":
            events.append({"op": op, "step": rng.random() < .5})
        elif op == "toev":
            v = rng.choice(net.random_vars())
            events.append({"op": op, "v": v, "o": rng.randrange(net.card[v - 1])})
        elif op in BAD_OPS:
            events.append(BAD_OPS[op](rng, net))
        elif op == "recheck":
            events.append({"op": op, "k": at[arg]})
        elif op == "sample":
            events.append({"op": op, "t": arg, "xs": samples(rng, net, full=rng.random() < .7)})
        elif op == "update":
            events.append({"op": op, "t": arg})
        else:
            events.append({"op": op})
    return events


def alone(t, step):
    """The last call of a history on a fresh network with the same tables and policies, if there is such a network."""
    import json
    e = t["events"][step - 1]
    if e["op"] not in ("query", "utility", "normutil", "policies"):
        return None
    net, pol = json.loads(json.dumps(t["net"])), None
    for x in t["events"][1:step - 1]:
        if x["op"] == "reload":
            pol = None
        elif x["op"] == "policies":
            pol = x
        elif x["op"] == "update" and x["res"].get("st") == "ok":
            if pol:
                return None
            net["tab"] = x["res"]["tab"]
    events = [{"op": "load"}] + ([{"op": "policies", "step": pol["step"]}] if pol and e["op"] != "policies" else [])
    events.append({k: v for k, v in e.items() if k != "res"})
    return dict(t, net=net, ftab=net["tab"], load="new", events=events)


def C07(c):
    rng = c.rng
    c.design([("Sharing", "MCSharing", "nothing shared"), ("Sharing", "MCSharingAlias", "[results are tables]"),
              ("Sharing", "MCSharingPolicies", "[policies handed out]"), ("Sharing", "MCSharingMemo", "[answers remembered]"),
              ("Sharing", "MCSharingStale", "[answers not forgotten]")])
    c.plant = ["marg", "fd", "p"]
    judge = {"marg", "nan", "fac", "util", "pure", "pol", "dump", "recheck"}
    hists = c.behaviours("Histories", "HIST", env={"DEPTH": "3"})
    hists.sort()
    c.notes["all_histories_of_length_3"] = len(hists)
    if not c.thorough:
        hists = rng.sample(hists, min(len(hists), c.pick(600, 0)))
    for d, n in ((6, c.pick(300, 3000)), (12, c.pick(300, 3000)), (30, c.pick(60, 800))):
        hists += c.behaviours("Histories", "HIST", env={"DEPTH": str(d)}, simulate=n, depth=d + 5)

    def make(id_, h):
        x = rng.random()
        if x < .25:  # few factors
            net = gen.decision_net(rng, rng.choice([0, 0, 1]), rng.choice([1, 1, 2]), 1, total=rng.random() < .2)
        elif x < .8:
            net = random_decision_net(rng, joint=rng.choice([20, 60]))
        else:
            net = gen.chance_net(rng, rng.choice([1, 2, 3, 5]), joint=60)
        return gen.session(id_, net, instantiate(rng, net, h), judge, load="new")

    c.conform("TraceSession", [make(f"h{i}", h) for i, h in enumerate(hists)], "histories", alone=alone)


# ---- C03: representation independence

def map_event(rng, e, vmap, omap):
    """A call for the rewritten network."""
    e = dict(e)
    if "ev" in e:
        e["ev"] = [[vmap[v - 1], omap[v - 1][o]] for v, o in e["ev"]]
        rng.shuffle(e["ev"])
    if "q" in e:
        e["q"] = [vmap[v - 1] for v in e["q"]]
        rng.shuffle(e["q"])
    if e.get("u"):
        e["u"] = vmap[e["u"] - 1]
    if "step" in e:
        e["step"] = rng.random() < .5
    return e


ALL_KINDS = ("order", "parents", "outcomes", "names", "scale", "unrelated")


def pair(rng, id_, net, events, solved, dyadic=False):
    kinds = ALL_KINDS if rng.random() < .5 else rng.sample(ALL_KINDS, 2)
    b, vmap, omap = gen.rewrite(rng, net, dyadic, kinds)
    ea, eb, match = [], [], []
    for e in events:
        reps = rng.choice([1, 1, 3]) if e["op"] != "policies" else 1
        i = len(ea) + 1
        ea.append(e)
        for _ in range(reps):
            match.append([i, len(eb) + 1])
            eb.append(map_event(rng, e, vmap, omap))
    head = {"vmap": vmap, "omap": omap, "card": net.card, "cardb": b.card, "solved": solved}
    return {"id": id_, "head": head, "match": match, "a": gen.session(id_ + "a", net, ea, set()), "b": gen.session(id_ + "b", b, eb, set())}


def windowed(rng, n, width, cmax):
    """Large networks of limited width."""
    card, par, tab = [], [], []
    for i in range(n):
        k = rng.randint(2, cmax)
        near = [j for j in range(max(1, i - width + 1), i + 1)]
        ps = rng.sample(near, min(len(near), rng.randint(0, 2)))
        card.append(k)
        par.append(ps)
        tab.append(gen.chance_table(rng, k, gen.prod(card[p - 1] for p in ps), ["plain", "norm", "zeros", "counts"]))
    return gen.Net(["c"] * n, card, par, tab, 0, gen.names(rng, n), [gen.outcomes(rng, k) for k in card]).shuffled(rng)


def C03(c):
    rng = c.rng
    ps = []
    for i in range(c.pick(500, 5000)):
        net = gen.chance_net(rng, rng.randint(2, 9), joint=2000, shape=rng.choice(SHAPES), styles=gen.RARE)
        ps.append(pair(rng, f"s{i}", net, [gen.query(rng, net) for _ in range(3)], True))
    c.relate("TraceRelation", ps, "small networks")
    ps = []
    for i in range(c.pick(250, 2500)):
        n = rng.choice([12, 16, 20, 25, 30, 40])
        shape = rng.choice(["window", "window", "chain", "tree", "naive"])
        if shape in ("chain", "tree") and rng.random() < .1:
            n = rng.choice([70, 100, 150])
        net = windowed(rng, n, rng.choice([2, 3]), rng.choice([2, 3])) if shape == "window" else gen.chance_net(rng, n * 2, joint=10 ** 40, cmax=3, shape=shape)
        ps.append(pair(rng, f"l{i}", net, [gen.query(rng, net, size=48) for _ in range(3)], True))
    c.relate("TraceRelation", ps, "large networks")
    ps = []
    for i in range(c.pick(500, 5000)):
        nd = rng.choice([1, 2, 2, 3])
        net = gen.decision_net(rng, rng.randint(1, 5), nd, rng.randint(1, 3), dyadic=True, dcard=2, joint=300, cmax=4)
        ev = [{"op": "policies", "step": rng.random() < .5}]
        for d in net.decisions():
            info = [p for p in net.par[d - 1]] + [d]
            if gen.prod(net.card[v - 1] for v in info) <= 64:
                ev.append({"op": "query", "ev": [], "q": info, "ign": False})
        for _ in range(3):
            ev.append(gen.query(rng, net, size=32))
            ev.append(gen.utility(rng, net, size=32))
        ps.append(pair(rng, f"d{i}", net, ev, True, dyadic=True))
    c.relate("TraceRelation", ps, "decision networks")
    ps = []
    for i in range(c.pick(200, 2000)):
        net = random_decision_net(rng)
        ev = []
        for _ in range(3):
            ev.append(gen.query(rng, net, size=32))
            ev.append(gen.utility(rng, net, size=32))
        ps.append(pair(rng, f"u{i}", net, ev, False))
    c.relate("TraceRelation", ps, "unsolved decision networks")


# ---- C08: factor algebra

def C08(c):
    rng = c.rng
    c.design([("MCRat", "MCRat", "rational arithmetic"), ("MCRadix", "MCRadix", "rows and assignments"), ("MCAlgebra", "MCAlgebra", "laws of factor algebra")],
             [("MCAlgebra", "MCAlgebraMore", "laws of factor algebra, more values")])
    c.plant = ["fd", "row"]
    c.conform("TraceAlgebra", [gen.algebra(rng, f"a{i}", rng.choice([4, 10, 20])) for i in range(c.pick(3000, 30000))], "factor operations")
    c.plant = ["at", "row"]
    c.conform("TraceLarge", [gen.large_tables(rng, f"l{i}") for i in range(c.pick(60, 600))], "large tables")


# ---- C09, C10: logic operators

UNARY = ["not", "equals", "equals-not", "if-then", "if-not-then", "if-then-not", "if-not-then-not"]
BINARY = ["and", "not-and", "and-not", "not-and-not", "or", "not-or", "or-not", "not-or-not", "xor", "cond", "not-cond", "cond-not", "not-cond-not", "bicond"]
MULTI = ["count-true", "count-false", "bits"]
ONEARG = ["count-is", "count-less", "count-greater", "given", "given-not", "given-excl"]
PAIRS = ["outcome-is", "outcome-is-not", "outcome-less", "outcome-greater"]


def uses(thorough):
    """(operator, arguments, number of parents), also ones that make no sense."""
    import itertools
    top = 8 if thorough else 6
    for name in UNARY + BINARY + MULTI:
        for n in range(top + 1):
            yield name, [], n
        for args in ([0], [1], [-1], [0, 2], [1, 2, 3]):
            yield name, args, 1
            yield name, args, 2
    for name in ONEARG:
        for n in range(top + 1):
            for x in range(-2, n + 3):
                yield name, [x], n
        for n in (range(9, 13) if thorough else (8, 9, 11)):
            for x in (0, 1, n // 2, n - 1, n):
                yield name, [x], n
        for args in ([], [0, 1], [1, 2, 3]):
            yield name, args, 2
    for name in ("count-true", "count-false"):
        for n in range(7, 13 if thorough else 11):
            yield name, [], n
    yield "bits", [], 7
    for name in PAIRS:
        for n in range(4):
            for k in range(-1, 8):
                for x in range(-2, k + 3):
                    yield name, [x, k], n
        for args in ([], [0], [1, 2, 3]):
            yield name, args, 1
        yield name, [57, 300], 1
    for k in range(-1, 6):
        for m in range(1, 4):
            for idx in itertools.product(range(-1, k + 2), repeat=m):
                yield "outcome-either", list(idx) + [k], 1
        yield "outcome-either", [0, k], 2
        yield "outcome-either", [0, k], 0
    for args in ([], [3]):
        yield "outcome-either", args, 1
    for name in ("", "nand", "and ", "AND", "count", "outcome"):
        yield name, [], 2


def logic_doc(rng, name, args, n, fit=True):
    """A document whose last or first variable uses the operator; None if there is no suitable one."""
    outcome = name.startswith("outcome-")
    if outcome and args and args[-1] > 0:
        pc = [args[-1]] * n
    else:
        pc = [2] * n
    cols = n + 1 if name in ("count-true", "count-false") else 2 ** n if name == "bits" else 2
    if not fit:
        if rng.random() < .5 and n:
            pc[rng.randrange(n)] += 1
        else:
            cols += 1
    q = lambda s: '"' + s + '"'
    outs = lambda k: "[" + ", ".join(q(f"o{i}") for i in range(k)) + "]"
    ps = [f"- variable: p{i}\n  outcomes: {outs(k)}\n  table: [[{', '.join(['1'] * k)}]]" for i, k in enumerate(pc)]
    v = f"- variable: x\n  given: [{', '.join('p%d' % i for i in range(n))}]\n  outcomes: {outs(cols)}\n  logic: {q(' '.join([name] + [str(a) for a in args]))}"
    at = rng.randint(0, n)
    ps.insert(at, v)
    return "name: test\nvariables:\n" + "\n".join(ps) + "\n", at



def C09(c):
    rng = c.rng
    known = [x for x in ("outcome-greater",) if any(x in k for k in c.findings())]
    scen, ev = [], []
    seen = set()
    for name, args, n in uses(c.thorough):
        key = (name, tuple(args), n)
        if key in seen:
            continue
        seen.add(key)
        ev.append({"op": "full", "c": 1, "name": name, "args": args, "given": n})
        fits = {0: UNARY + BINARY + MULTI, 1: ONEARG, 2: PAIRS}
        if name in fits.get(len(args), []) or name == "outcome-either" and len(args) >= 2:
            ev.append({"op": "make", "c": 1, "name": name, "args": args})
            ev.append({"op": "table", "c": 1, "given": n})
        if name not in ("", "AND") and (name != "bits" or n <= 6):
            doc, at = logic_doc(rng, name, args, n)
            # a fitting table has as many rows as there are parent outcomes
            ev.append({"op": "yaml", "c": 1, "name": name, "args": args, "given": n, "doc": doc, "v": at, "fit": True})
            if rng.random() < .3:
                doc, at = logic_doc(rng, name, args, n, fit=False)
                ev.append({"op": "yaml", "c": 1, "name": name, "args": args, "given": n, "doc": doc, "v": at, "fit": False})
        while len(ev) >= 6:
            scen.append({"id": f"l{len(scen)}", "kind": "logic", "known": known, "events": ev})
            ev = []
    if ev:
        scen.append({"id": f"l{len(scen)}", "kind": "logic", "known": known, "events": ev})
    c.plant = ["tab"]
    c.conform("TraceLogic", scen, "operators, parents, arguments")


def schedule(rng, id_, hist):
    """Executes an interleaving generated from Registry.tla: which operators the abstract ones stand for is random."""
    def operator():
        kind = rng.choice(["one", "one", "pair", "either", "none"])
        if kind == "one":
            return rng.choice(ONEARG), 3, [[0], [2]]
        if kind == "pair":
            name = rng.choice(["outcome-is", "outcome-is-not", "outcome-less"])
            return name, 1, [[0, 3], [2, 4]]
        if kind == "either":
            return "outcome-either", 1, [[0, 2, 4], [1, 3]]
        return rng.choice(BINARY), 2, [[], []]
    ops = {"f": operator(), "g": operator()}
    ev, tabled = [], set()
    for cl, act, name, x in hist:
        e = {"op": act, "c": cl}
        if act == "get":
            e["name"] = ops[name][0]
        elif act == "setargs":
            e["args"] = ops[name][2][x]
        elif act == "table":
            e["given"] = ops[name][1]
            tabled.add(cl)
        ev.append(e)
        if act in ("scribble", "table"):
            ev += [{"op": "look", "c": k} for k in sorted(tabled)]
    return {"id": id_, "kind": "logic", "known": [], "events": ev}


def C10(c):
    rng = c.rng
    c.plant = ["tab"]
    c.design([("Registry", "MCRegistry", "registry of operators"), ("Registry", "MCRegistrySharedOps", "[registry with shared operators]"),
              ("Registry", "MCRegistrySharedTabs", "[registry with shared tables]")])
    hists = sorted(c.behaviours("Registry", "SCHED", cfg=SPEC / "Registry.cfg"))
    c.notes["all_schedules_of_length_5"] = len(hists)
    if not c.thorough:
        hists = rng.sample(hists, min(len(hists), c.pick(6000, 0)))
    hists += c.behaviours("Registry", "SCHED", cfg=SPEC / "RegistryLong.cfg", simulate=c.pick(600, 6000), depth=20)
    c.conform("TraceLogic", [schedule(rng, f"i{i}", h) for i, h in enumerate(hists)], "interleaved clients")

    # at the same time, watched by the race detector
    def client(rng, forced=None):
        name, args, n = forced or rng.choice(good)
        e = {"name": name, "args": args, "given": n, "doc": "", "fit": True, "v": 0}
        if rng.random() < .5:
            e["doc"], e["v"] = logic_doc(rng, name, args, n)
        return e

    good = [(nm, a, n) for nm, a, n in uses(False) if nm and nm not in ("outcome-greater", "AND", "and ", "bits") and n <= 4 and not any(x > 20 for x in a)]
    by_name = {}
    for g in good:
        by_name.setdefault(g[0], []).append(g)
    scen = []
    for i in range(c.pick(60, 600)):
        pool = by_name[rng.choice(sorted(by_name))] if rng.random() < .6 else good
        cl = [client(rng, rng.choice(pool)) for _ in range(8)]
        scen.append({"id": f"p{i}", "kind": "logic", "known": [], "events": [{"op": "parallel", "c": 1, "clients": cl, "rounds": 40}]})
    c.plant = []
    c.conform("TraceLogic", scen, "parallel clients", race=True)

    # whole networks in parallel
    judge = {"marg", "nan", "fac", "util", "pure", "pol", "dump", "recheck", "train", "save", "row", "bad"}
    hists = []
    for d, n in ((6, c.pick(250, 2500)), (14, c.pick(200, 2000))):
        hists += c.behaviours("Histories", "HIST", env={"DEPTH": str(d)}, simulate=n, depth=d + 5)
    scen = []
    for i, h in enumerate(hists):
        net = random_decision_net(rng, joint=rng.choice([20, 60])) if rng.random() < .8 else gen.chance_net(rng, rng.randint(2, 5), joint=60)
        scen.append(gen.session(f"n{i}", net, instantiate(rng, net, h), judge, load="new"))
    c.conform("TraceSession", scen, "parallel networks", race=True, alone=lambda t, step: {k: v for k, v in t.items() if k != "x"})


# ---- C11: training

def train_events(rng, net, trainers, steps):
    ev = []
    for t in range(1, trainers + 1):
        ev.append({"op": "trainer"})
        xs = samples(rng, net, full=rng.random() < .8)
        k = rng.randrange(len(xs) + 1)
        if rng.random() < .1:  # a lot of data
            for x in rng.sample(xs, min(len(xs), 4)):
                x["rep"] = rng.choice([2, 130, 256, 300, 40000, 65536, 70000])
        ev += [{"op": "sample", "t": t, "xs": xs[:k]}, {"op": "sample", "t": rng.randint(1, t), "xs": xs[k:]}]
    for _ in range(steps):
        t = rng.randint(1, trainers)
        x = rng.random()
        if x < .5:
            ev.append({"op": "update", "t": t})
            if rng.random() < .5:
                ev.append({"op": "dump"})
        elif x < .9:
            more = samples(rng, net, full=rng.random() < .3, missing=rng.choice([0, .1, .5]))
            ev.append({"op": "sample", "t": t, "xs": more[:12]})
        else:
            if rng.random() < .3:
                ev.append({"op": "policies", "step": rng.random() < .5})
            ev.append(gen.query(rng, net, size=24))
    ev += [{"op": "update", "t": rng.randint(1, trainers)}, {"op": "dump"}]
    return ev


def C11(c):
    rng = c.rng
    c.design([("MCTrainer", "MCTrainer", "two trainers"), ("MCTrainer", "MCTrainerPartial", "[updating node by node]")],
             [("MCTrainer", "MCTrainerMore", "two trainers, more samples")])
    c.plant = ["tab"]

    def make(id_):
        x = rng.random()
        if x < .5:
            net = random_decision_net(rng, joint=rng.choice([20, 60]))
        elif x < .9:
            net = gen.chance_net(rng, rng.randint(1, 6), joint=rng.choice([20, 100]), styles=["plain", "zeros", "zerorow"])
        else:
            net = gen.chance_net(rng, rng.randint(1, 3), joint=4000, cmax=300)
            k = rng.choice([60, 129, 257, 300])
            net.card[0], net.outs[0] = k, [f"o{i}" for i in range(k)]
            if net.n == 3 and rng.random() < .5:
                net.card[1:], net.outs[1:] = [2, 2], [["yes", "no"]] * 2
                net.par = [[], [], rng.choice([[1, 2], [2, 1]])]
            for v in range(net.n):
                while gen.prod(net.card[p - 1] for p in net.par[v]) * net.card[v] > 1200:
                    net.par[v].pop()
                net.tab[v] = gen.chance_table(rng, net.card[v], gen.prod(net.card[p - 1] for p in net.par[v]), ["counts"])
        if rng.random() < .3:  # nothing there yet
            net.tab = [t if net.type[v] == "u" and v + 1 == net.total or rng.random() < .3 else [] for v, t in enumerate(net.tab)]
        return gen.session(id_, net, train_events(rng, net, rng.choice([1, 1, 2, 3]), rng.randint(1, 8)), {"train", "dump"})

    c.conform("TraceSession", many(c.pick(1200, 12000), make, "t"), "trainers")


# ---- C13, C14: documents

def C13(c):
    rng = c.rng
    c.plant = ["tab"]

    def odd(id_):
        net = random_decision_net(rng) if rng.random() < .6 else gen.chance_net(rng, rng.randint(1, 7), joint=400)
        gen.decorate(rng, net, floats=rng.random() < .6)
        if rng.random() < .1:
            net.tab = [t if v + 1 == net.total or rng.random() < .5 else [] for v, t in enumerate(net.tab)]
        ev = [{"op": rng.choice(["save", "dump", "reload"])} for _ in range(rng.randint(1, 3))]
        return gen.session(id_, net, ev + [{"op": "save"}, {"op": "dump"}], {"save", "dump"})

    c.conform("TraceSession", many(c.pick(2000, 20000), odd, "o"), "unusual names and values")

    def used(id_):
        net = random_decision_net(rng, joint=60) if rng.random() < .7 else gen.chance_net(rng, rng.randint(1, 6), joint=60)
        gen.decorate(rng, net)
        ev, trained = [], False
        for _ in range(rng.randint(3, 8)):
            op = rng.choice(["save", "save", "dump", "reload", "query", "policies", "train"])
            if op == "query":
                ev.append(gen.query(rng, net, size=24))
            elif op == "policies":
                ev.append({"op": op, "step": rng.random() < .5})
            elif op == "train":
                t = 1
                ev += [{"op": "reload"}, {"op": "trainer"}, {"op": "sample", "t": t, "xs": samples(rng, net)}, {"op": "update", "t": t}]
            else:
                ev.append({"op": op})
        return gen.session(id_, net, ev + [{"op": "save"}, {"op": "reload"}, gen.query(rng, net, size=24), {"op": "dump"}], {"save", "dump", "marg"})

    c.conform("TraceSession", many(c.pick(800, 8000), used, "u"), "networks in use")


XMLNAMES = [x for x in gen.ODD if x.isprintable() and "\n" not in x and "\r" not in x and "\u00a0" not in x] + ["a & b", "<tag>", "x > y"]


def rows(rng, net, n):
    ev = []
    for _ in range(n):
        v = rng.randint(1, net.n)
        if v == net.total or not net.tab[v - 1]:
            continue
        idx = [rng.randrange(net.card[p - 1]) if rng.random() < .95 else -1 for p in net.par[v - 1]]
        ev.append({"op": "row", "v": v, "index": idx})
    return ev


def C14(c):
    rng = c.rng
    c.plant = ["tab", "row", "marg"]

    def make(id_):
        net = random_decision_net(rng) if rng.random() < .5 else gen.chance_net(rng, rng.randint(1, 7), joint=200)
        if rng.random() < .02:
            net = gen.widen(rng, gen.chance_net(rng, rng.randint(1, 3), joint=8))
        fmt = rng.choice(["yaml", "yaml", "xml"])
        logic = {}
        if rng.random() < .5:
            gen.decorate(rng, net, XMLNAMES if fmt == "xml" else gen.ODD, floats=rng.random() < .2)
        if fmt == "yaml" and rng.random() < .3:
            logic = put_logic(rng, net)
        if fmt == "yaml":
            doc = gen.yaml_doc(rng, net, logic)
        else:
            raw = [[rng.randint(0, 500), rng.randint(0, 500)] if rng.random() < .8 else [0, 0] for _ in range(net.n)]
            if rng.random() < .2:
                raw = [[x * rng.choice([1, -1]), y * rng.choice([1, -1])] for x, y in raw]
            net.pos = [[int(x / 2), int(y / 12)] for x, y in raw]
            net.colors, net.info = [""] * net.n, ""
            doc = gen.xml_doc(rng, net, raw)
        ev = [{"op": "dump"}] + rows(rng, net, 6)
        if rng.random() < .7 and not any(abs(x) > 10 ** 9 or 0 < abs(x) < gen.F(1, 10 ** 9) for t in net.tab for x in t):
            if rng.random() < .3:
                ev.append({"op": "policies", "step": True})
            ev += [gen.query(rng, net, size=24) for _ in range(2)]
        load = fmt
        if rng.random() < .15:
            doc = doc.replace("\r\n", "\n").replace("\n", "\r\n")
        if rng.random() < .4:
            load = rng.choice([".yml", ".YML", ".Yml"] if fmt == "yaml" else [".xml", ".XML", ".bifxml", ".BIFXML", ".BifXml"])
        return gen.session(id_, net, ev, {"dump", "row", "marg"}, load=load, doc=doc)

    c.conform("TraceSession", many(c.pick(2000, 20000), make, "d"), "documents")


def put_logic(rng, net):
    """Replaces tables by logic operators where the numbers of outcomes fit."""
    logic = {}
    for v in net.chance():
        pc = [net.card[p - 1] for p in net.par[v - 1]]
        n, k = len(pc), net.card[v - 1]
        if k == 2 and n == 1 and pc[0] != 2:
            op = rng.choice(["outcome-is", "outcome-is-not", "outcome-less"])
            i = rng.randrange(pc[0])
            logic[v] = f"{op} {i} {pc[0]}"
            f = {"outcome-is": lambda r: r == i, "outcome-is-not": lambda r: r != i, "outcome-less": lambda r: r < i}[op]
            net.tab[v - 1] = [gen.F(x) for r in range(pc[0]) for x in ((1, 0) if f(r) else (0, 1))]
        elif k == 2 and n == 2 and pc == [2, 2]:
            op = rng.choice(["and", "or", "xor", "and-not", "cond"])
            logic[v] = op
            f = {"and": lambda a, b: a and b, "or": lambda a, b: a or b, "xor": lambda a, b: a != b, "and-not": lambda a, b: a and not b, "cond": lambda a, b: not a or b}[op]
            net.tab[v - 1] = [gen.F(x) for a in (True, False) for b in (True, False) for x in ((1, 0) if f(a, b) else (0, 1))]
    return logic


# ---- C12, C17: command line tool

def bad_doc(rng, net):
    """A document that is no network."""
    doc = gen.yaml_doc(rng, net)
    return rng.choice(["", "variables: 3\n", doc + "nonsense: x\n", doc.replace("variable:", "varible:", 1), "]]", doc + "- [\n", "name: x\nvariables:\n- variable: a\n  outcomes: [x, y]\n  table: [[1]]\n"])


def train_event(rng, net, doc, ext, full=None):
    delim = rng.choice([",", ",", ",", ";", "\t", "|", "ä"])
    nd = rng.choice(["", "", "NA", "-", "?", "-999", "none"])
    e = {"op": "train", "doc": doc, "ext": ext, "nonet": False, "nofile": False, "fault": "", "args": []}
    if any(nd in os and (net.type[v] == "u" or rng.random() < .6) for v, os in enumerate(net.outs)):
        nd = "n/a"
    xs = samples(rng, net, full=rng.random() < .85 if full is None else full, missing=rng.choice([0, .1, .4]))
    cols = list(range(net.n))
    hdr = list(net.names)
    for k in range(rng.choice([0, 0, 1, 2])):
        hdr.append(f"extra {k}")
    rows = []
    for x in xs:
        r = []
        for v in range(net.n):
            if net.type[v] == "u":
                r.append(nd if x["us"][v] == "NaN" else gen.number(rng, gen.F(x["us"][v])))
            else:
                r.append(nd if x["s"][v] < 0 else net.outs[v][x["s"][v]])
        r += [rng.choice(["", "x", nd, "7"]) for _ in hdr[net.n:]]
        rows.append(r)
    x = rng.random()
    if x < .01 and len(hdr) > net.n and rows:  # longer than any buffer
        rng.choice(rows)[-1] = "long " * rng.choice([900, 14000])
    elif x < .03 and rows and net.n <= 5:
        rows = [list(rng.choice(rows)) for _ in range(rng.choice([300, 1100]))] + rows
    needed = [v for v in range(net.n) if v + 1 != net.total]
    fault = rng.choice(["none"] * 9 + ["column", "outcome", "outcome", "utility", "collide", "ragged", "nofile", "empty", "delim", "nonet", "badnet", "args"])
    if fault == "column":
        del_ = rng.choice(needed)
        hdr[del_] = rng.choice([hdr[del_] + "x", hdr[del_].swapcase() + "_", " " + hdr[del_] + " ", hdr[del_] + " ", " " + hdr[del_], hdr[del_].swapcase(), hdr[del_][:-1], '"' + hdr[del_] + '"'])
        if hdr[del_] in net.names:
            hdr[del_] = "no such column"
    elif fault == "outcome" and rows:
        v = rng.choice(needed)
        r = rng.choice(rows)
        if net.type[v] != "u":
            r[v] = rng.choice([r[v] + "x", " " + r[v], r[v] + " ", r[v].swapcase() + "'", "no such outcome", str(rng.randrange(net.card[v]))])
    elif fault == "utility" and rows and net.utilities():
        rng.choice(rows)[rng.choice(net.utilities()) - 1] = rng.choice(["abc", "1,5", "1.2.3", "--1", "5 ", " 5", "1e", "", "five", "0x10", "1;5"])
    elif fault == "collide":
        nd = rng.choice(net.outs[rng.choice(net.random_vars()) - 1])
    elif fault == "ragged" and rows:
        r = rng.choice(rows)
        if rng.random() < .5 or len(r) == 1:
            r.append(rng.choice(["", "x"]))
        else:
            r.pop()
    elif fault in ("nofile", "empty", "delim", "nonet", "badnet", "args"):
        e["fault"] = fault
    if fault != "ragged":
        rng.shuffle(cols)
        cols += list(range(net.n, len(hdr)))
        if rng.random() < .5:
            cols.sort(key=lambda _: rng.random())
        hdr, rows = [hdr[i] for i in cols], [[r[i] for i in cols] for r in rows]
    text = "" if fault == "empty" else gen.csv_text(rng, hdr, rows, delim)
    e.update(hdr=hdr, rows=rows, nd=nd, data=gen.b64(text), nofile=fault == "nofile", nonet=fault == "nonet")
    if fault == "badnet":
        e["doc"], e["ext"] = bad_doc(rng, net), ".yml"
    if fault == "delim":
        delim = rng.choice(["", ",;", '"', "\n", "\r", "\t\t"])
    opts = []
    if nd != "" or rng.random() < .2:
        opts.append(rng.choice([["-n", nd], ["--no-data", nd], ["--no-data=" + nd]]))
    if delim != "," or rng.random() < .2:
        opts.append(rng.choice([["-d", delim], ["--delim", delim], ["--delim=" + delim]]))
    rng.shuffle(opts)
    pos = ["{net}", "{data}"]
    if fault == "args":
        pos = rng.choice([["{net}"], [], pos + ["{data}"]])
    flat = [x for o in opts for x in o]
    e["args"] = ["train"] + (flat + pos if rng.random() < .5 else pos + flat)
    return e


def net_file(rng, net):
    """(document, extension) of a network; positions may be changed to what the format can express."""
    if rng.random() < .8:
        return gen.yaml_doc(rng, net), rng.choice([".yml", ".YML"])
    raw = [[rng.randint(0, 500), rng.randint(0, 500)] if rng.random() < .8 else [0, 0] for _ in range(net.n)]
    net.pos = [[x // 2, y // 12] for x, y in raw]
    net.colors, net.info = [""] * net.n, ""
    return gen.xml_doc(rng, net, raw), rng.choice([".xml", ".bifxml"])


def cli(id_, net, events, solve):
    return {"id": id_, "kind": "cli", "net": net.json(), "ftab": net.ftab(), "solve": solve, "events": events}


def C12(c):
    rng = c.rng
    c.env["VERIF_BBN"] = str(c.binary("bbn"))
    c.plant = ["doc"]

    def make(id_):
        x = rng.random()
        net = random_decision_net(rng, joint=rng.choice([12, 30])) if x < .5 else gen.chance_net(rng, rng.randint(1, 5), joint=rng.choice([12, 40]))
        pool = [x for x in gen.CSVNAMES if x]
        if rng.random() < .5:
            gen.decorate(rng, net, pool if rng.random() < .7 else XMLNAMES)
        if rng.random() < .4:
            net.tab = [t if net.type[v] == "u" and v + 1 == net.total or rng.random() < .3 else [] for v, t in enumerate(net.tab)]
        if rng.random() < .15 and net.n > 1:  # an outcome that looks like missing data
            v = rng.choice(net.random_vars()) - 1
            net.outs[v][rng.randrange(net.card[v])] = ""
        simple = all(s.isprintable() and s in XMLNAMES + gen.WORDS or s.isalnum() for s in net.names + [o for os in net.outs for o in os] + [net.name])
        doc, ext = net_file(rng, net) if simple and all(net.tab[v] or net.type[v] == "d" for v in range(net.n)) else (gen.yaml_doc(rng, net), rng.choice([".yml", ".YML"]))
        return cli(id_, net, [train_event(rng, net, doc, ext) for _ in range(rng.randint(2, 4))], False)

    c.conform("TraceCommand", many(c.pick(800, 8000), make, "t"), "training")


def infer_event(rng, net, doc, ext):
    e = {"op": "infer", "doc": doc, "ext": ext, "nonet": False, "nofile": True, "data": "", "fault": "", "ev": gen.evidence(rng, net),
         "ow": [[o.split() for o in os] for os in net.outs], "nw": [n.split() for n in net.names]}
    entries = [f"{net.names[v - 1]}={net.outs[v - 1][o]}" for v, o in e["ev"]]
    fault = rng.choice(["none"] * 9 + ["var", "outcome", "utility", "syntax", "syntax", "nonet", "badnet", "ext", "args"])
    if fault == "var":
        entries.append("no such variable=x")
    elif fault == "outcome":
        v = rng.choice(net.random_vars())
        entries = [x for x, (w, _) in zip(entries, e["ev"]) if w != v]
        o = rng.choice(["no such outcome", net.outs[v - 1][0] + " ", ""])
        if o in net.outs[v - 1]:
            fault = "none"
        entries.append(f"{net.names[v - 1]}={o if fault != 'none' else net.outs[v - 1][0]}")
        if fault == "none":
            e["ev"] = [x for x in e["ev"] if x[0] != v] + [[v, 0]]
    elif fault == "utility":
        if net.utilities():
            u = rng.choice(net.utilities() + ([net.total] if net.total else []))
            entries.append(f"{net.names[u - 1]}={net.outs[u - 1][0]}")
        else:
            fault = "none"
    elif fault == "syntax":
        v = rng.choice(net.random_vars())
        entries.append(rng.choice([net.names[v - 1], f"{net.names[v - 1]}:{net.outs[v - 1][0]}", f"{net.names[v - 1]}={net.outs[v - 1][0]}={net.outs[v - 1][0]}", "=="]))
    if fault in ("var", "outcome", "syntax", "utility"):
        rng.shuffle(entries)
    e["fault"] = "" if fault == "none" else fault
    e["nonet"] = fault == "nonet"
    if fault == "badnet":
        e["doc"], e["ext"] = bad_doc(rng, net), ".yml"
    if fault == "ext":
        e["ext"] = rng.choice([".txt", "", ".csv", ".yml.bak"])
    quoted = ['"' + x.replace('"', '""') + '"' if any(ch in x for ch in ',"') or rng.random() < .1 else x for x in entries]
    flags, i = [], 0
    while i < len(quoted):
        k = rng.randint(1, len(quoted))
        text = ",".join(quoted[i:i + k])
        flags += rng.choice([["-e", text], ["--evidence", text], ["--evidence=" + text]])
        i += k
    pos = ["{net}"] if fault != "args" else rng.choice([[], ["{net}", "{net}"]])
    e["args"] = ["inference"] + (pos + flags if rng.random() < .5 else flags + pos)
    return e


def shown_net(rng, big=False):
    """A network whose values are the same for everyone."""
    r = rng.random()
    if r < .5:
        return gen.decision_net(rng, rng.randint(1, 4), rng.choice([1, 1, 2, 2, 3]), rng.randint(1, 3), dyadic=True, dcard=2, joint=rng.choice([16, 40]), cmax=4)
    if r < .65:  # nothing to decide
        return gen.decision_net(rng, rng.randint(1, 5), 0, rng.randint(1, 3), joint=100, styles=rng.choice([("tiny",), ("tiny", "zeros"), ("plain", "norm", "zeros", "counts")]))
    return gen.chance_net(rng, rng.randint(1, 6), joint=100)


def C17(c):
    rng = c.rng
    c.env["VERIF_BBN"] = str(c.binary("bbn"))

    def make(id_):
        net = shown_net(rng)
        if rng.random() < .5:
            net.names = gen.odd_names(rng, net.n, gen.CLINAMES)
            net.outs = [gen.odd_names(rng, k, gen.CLINAMES) for k in net.card]
        net.colors = [rng.choice(["", rng.choice(gen.COLORS)]) for _ in range(net.n)]
        simple = all(s in XMLNAMES + gen.WORDS or s.isalnum() for s in net.names + [o for os in net.outs for o in os])
        doc, ext = net_file(rng, net) if simple else (gen.yaml_doc(rng, net), ".yml")
        return cli(id_, net, [infer_event(rng, net, doc, ext) for _ in range(rng.randint(2, 5))], True)

    c.conform("TraceCommand", many(c.pick(700, 7000), make, "i"), "inference")


# ---- C16: interactive tool

TUINAMES = ["Rain", "Sprinkler", "Grass wet", "x", "A", "b", "Kälte", "node-7", "_n", "Z9", "true", "42", "a.b", "Fire", "yes", "No", "ü", "Größe",
            "a longer name of a node", "fifteen letters", "sixteen letters!", "seventeen letters", "an outcome with a very long name", "naïve", "ñ", "50%", "a, b", "q'r", "Σx",
            "a name that is so long that it certainly does not fit into a node", "!", "$", "+", "v", "??", "%d", "NaN"]


def tui_net(rng, pool=TUINAMES):
    net = shown_net(rng)
    if rng.random() < .7:
        short = [x for x in pool if len(x) < 12]
        net.names = gen.odd_names(rng, net.n, pool if rng.random() < .5 else short)
        net.outs = [gen.odd_names(rng, k, pool if rng.random() < .3 else short) for k in net.card]
    edge = lambda xs: [x if x == x.strip() else f"{x.strip()}_{i}" for i, x in enumerate(xs)]  # spaces at the edges cannot be seen
    net.names, net.outs = edge(net.names), [edge(o) for o in net.outs]
    if rng.random() < .15:  # numbers that hardly fit
        scale = lambda x: x * rng.choice([1, 1000, 10 ** 6, -10 ** 6, -3 * 10 ** 6, 4 * 10 ** 6])
        net.tab = [[scale(x) for x in t] if net.type[v] == "u" and v + 1 != net.total else t for v, t in enumerate(net.tab)]
    net.name = rng.choice(["", "net", "A network", "Größe", "x" * 90])
    net.info = rng.choice(["", "", "", "Some information.", "Line one\nLine two", "A text. " * 40])
    net.colors = [rng.choice(["", "", rng.choice(gen.COLORS)]) for _ in range(net.n)]
    x = rng.random()
    if x < .6:  # apart
        net.pos = [[(i % 3) * rng.randint(28, 40) + rng.randint(0, 3), (i // 3) * rng.randint(7, 10) + rng.randint(0, 3)] for i in range(net.n)]
        rng.shuffle(net.pos)
    elif x < .9:  # anywhere, with overlaps
        net.pos = [[rng.randint(-3, 70), rng.randint(-3, 25)] for _ in range(net.n)]
    else:
        net.pos = [[rng.randint(0, 200), rng.randint(0, 90)] for _ in range(net.n)]
    return net


def tui_start(rng, net, w, h, fault=.15, train=.15):
    """Start of the tool; sometimes with something wrong, sometimes with training."""
    doc, ext = gen.yaml_doc(rng, net), rng.choice([".yml", ".yml", ".YML"])
    if rng.random() < train and not net.decisions():
        e = train_event(rng, net, doc, ext, full=True)
        if e["fault"] == "args":
            e["fault"] = ""
        opts = [x for x in e["args"][1:] if x not in ("{net}", "{data}")]
        file = rng.choice([["-t", "{data}"], ["--train", "{data}"]])
        e["args"] = ["{net}"] + file + opts if rng.random() < .5 else opts + file + ["{net}"]
        e.update(train=True, ev=[])
    else:
        while True:
            e = infer_event(rng, net, doc, ext)
            if not e["fault"] or rng.random() < fault:
                break
        e["args"] = e["args"][1:]
        e.update(train=False)
    e.update(op="start", w=w, h=h)
    return e


def tui_runs(c, bases, depth, simulate=None, cfg=None):
    """Runs TLC generates, as scenarios."""
    path = c.scratch / "runs.ndjson"
    path.write_text("".join(json.dumps({"net": b["net"], "ev": b["start"]["ev"], "w": b["start"]["w"], "h": b["start"]["h"]}) + "\n" for b in bases))
    runs = c.behaviours("TuiRuns", "RUN", env={"RUNS": str(path), "DEPTH": str(depth)}, text=True, simulate=simulate, depth=depth + 3 if simulate else None, cfg=cfg)
    return [json.loads(r) for r in dict.fromkeys(runs)]


def C16(c):
    rng = c.rng
    c.env["VERIF_BBNI"] = str(c.interactive())
    c.plant = ["rows"]
    c.design([("MCTui", "MCTui", "two nodes"), ("MCText", "MCText", "texts")],
             [("MCTui", "MCTuiFar", "two nodes, further"), ("MCTui", "MCTuiMore", "three nodes"), ("MCText", "MCTextMore", "longer texts")])

    def base():
        net = tui_net(rng)
        w, h = rng.choice([(80, 25), (120, 40), (100, 30), (140, 50), (72, 24), (200, 60)])
        return {"net": net.json(), "ftab": net.ftab(), "start": tui_start(rng, net, w, h)}

    def scenario(id_, b, script, judged=True):
        return {"id": id_, "kind": "tui", "judged": judged, "net": b["net"], "ftab": b["ftab"], "events": [b["start"]] + script}

    bases = [base() for _ in range(c.pick(400, 4000))]
    runs = tui_runs(c, bases, c.pick(14, 24), simulate=c.pick(700, 7000), cfg=SPEC / "TuiRuns.cfg")
    c.conform("TraceTui", [scenario(f"r{i}", bases[r["sc"] - 1], r["script"]) for i, r in enumerate(runs)], "random runs")

    def start(id_):
        net = tui_net(rng)
        b = {"net": net.json(), "ftab": net.ftab(), "start": tui_start(rng, net, 120, 40, fault=.7, train=.8)}
        return scenario(id_, b, [])

    c.conform("TraceTui", many(c.pick(150, 1500), start, "b"), "starts")

    def small():
        while True:
            b = base()
            if b["net"]["n"] in (2, 3) and not b["start"]["fault"] and not b["start"]["train"] and set(b["net"]["type"]) != {"c"}:
                return b

    bases = [small() for _ in range(c.pick(1, 2))]
    runs = tui_runs(c, bases, c.pick(2, 3), cfg=SPEC / "TuiShort.cfg")
    c.conform("TraceTui", [scenario(f"s{i}", bases[r["sc"] - 1], r["script"]) for i, r in enumerate(runs)], "all short runs")

    def wild(id_):
        net = tui_net(rng, [x for x in gen.CLINAMES if x.isprintable()] + ["[red]", "[]", '["x"]', "日本", "a\u0301", "x[y]z", "[:", "\U0001f600"])
        w, h = rng.choice([(80, 25), (40, 12), (20, 8), (5, 4), (1, 1), (300, 100)])
        script = []
        for _ in range(rng.randint(1, 25)):
            x = rng.random()
            if x < .6:
                script.append({"op": "key", "key": rng.choice(["tab", "backtab", "enter", " ", "up", "down", "left", "right", "pgup", "pgdn", "home", "end", "delete", "f1"] + list("0123456789hitpwasdjklgGHITPWASDxyz٣²"))})
            elif x < .95:
                script.append({"op": "click", "button": rng.choice(["left", "right", "middle"]), "x": rng.randrange(-1, w + 2), "y": rng.randrange(-1, h + 2)})
            else:
                script.append({"op": "resize", "w": rng.randint(1, 120), "h": rng.randint(1, 60)})
        e = tui_start(rng, net, w, h, fault=0)
        return scenario(id_, {"net": net.json(), "ftab": net.ftab(), "start": e}, script, judged=False)

    c.plant = ()
    c.conform("TraceTui", many(c.pick(200, 2000), wild, "w"), "anything at all")


# ---- C15: descriptions that are wrong

def named(rng, net):
    """Mostly simple names."""
    net.names = rng.sample("abcdefgh", net.n)
    net.outs = [[f"{x}{i}" for i in range(k)] for x, k in zip(net.names, net.card)]
    if rng.random() < .4:
        net.names = gen.odd_names(rng, net.n, XMLNAMES)
        net.outs = [gen.odd_names(rng, k, XMLNAMES) for k in net.card]
    return net


def small_net(rng, nmax=4):
    while True:
        net = random_decision_net(rng, joint=60, nd=1) if rng.random() < .6 else gen.chance_net(rng, rng.randint(1, nmax), cmax=4, joint=60)
        if net.n <= nmax:
            return named(rng, net)


def total_net(rng):
    while True:
        net = random_decision_net(rng, joint=40, nd=1)
        if net.total and net.n <= 6:
            return named(rng, net)


def descriptions(c, bases, depth, simulate=None):
    """Descriptions TLC reaches from given ones."""
    path = c.scratch / "bases.ndjson"
    path.write_text("".join(json.dumps(b) + "\n" for b in bases))
    env = {"BASES": str(path), "DEPTH": str(depth)}
    docs = c.behaviours("Documents", "DOC", env=env, text=True, simulate=simulate, depth=depth + 2 if simulate else None, cfg=SPEC / ("DocumentsRandom.cfg" if simulate else "Documents.cfg"))
    return list(dict.fromkeys(docs))  # as text, without repetitions


def C15(c):
    rng = c.rng
    examples = [(p.suffix, p.read_bytes()) for p in sorted((REPO / "_examples").rglob("*")) if p.suffix in (".yml", ".xml", ".bifxml")]

    def judged(id_, text):
        d = json.loads(text)
        e = gen.render(rng, d)
        return {"id": id_, "kind": "docs", "described": True, "desc": d, "events": [dict(e, op="load"), dict(e, op="use")]}

    fmts = ["yaml", "xml", "new"]
    near = descriptions(c, [gen.describe(small_net(rng, 3), f) for f in fmts for _ in range(c.pick(4, 20))] + [gen.describe(total_net(rng), f) for f in fmts for _ in range(c.pick(2, 10))], 1)
    far = descriptions(c, [gen.describe(rng.choice([small_net, total_net])(rng), rng.choice(fmts)) for _ in range(60)], 3, simulate=c.pick(1500, 20000))
    pairs = descriptions(c, [gen.describe(small_net(rng, 2), "yaml")], 2) if c.thorough else []
    for label, docs in (("one slip", near), ("several slips", far), ("all pairs of slips", pairs)):
        if docs:
            docs += [t for t in docs for _ in range(30) if json.loads(t)["junk"]]  # each written in several ways
            rec, _ = c.conform("TraceLoader", [judged(f"{label}-{i}", t) for i, t in enumerate(docs)], label)
            for t in rec:
                c.note("descriptions_" + t["events"][0]["res"]["st"], 1)

    def deep(id_):
        """Long chains, children first; some of them closed."""
        n = rng.choice([30, 40, 70, 130, 150, 200, 300])
        par = [[i + 2] if i < n - 1 else [] for i in range(n)]
        if rng.random() < .5:
            i = rng.choice([n, n, n, rng.randint(1, n)])
            j = rng.choice([1, i, max(1, i - 1), rng.randint(1, i)])
            if j not in par[i - 1]:
                par[i - 1] = par[i - 1] + [j]
        net = gen.Net(["c"] * n, [2] * n, par, [[1] * 2 ** (len(p) + 1) for p in par], 0, [f"v{i}" for i in range(n)], [["y", "n"]] * n)
        s = judged(id_, json.dumps(gen.describe(net, rng.choice(fmts))))
        s["events"] = s["events"][:1]
        return s

    c.conform("TraceLoader", many(c.pick(30, 300), deep, "deep"), "long chains")

    def damaged(id_):
        if rng.random() < .3 and examples:
            ext, data = rng.choice(examples)
            fmt = "yaml" if ext == ".yml" else "xml"
        else:
            net = small_net(rng, 6)
            fmt = rng.choice(["yaml", "yaml", "xml"])
            logic = put_logic(rng, net) if fmt == "yaml" else {}
            net.name, net.info, net.colors, net.pos = "x", "", [""] * net.n, [[3, 4]] * net.n
            data = (gen.yaml_doc(rng, net, logic) if fmt == "yaml" else gen.xml_doc(rng, net, net.pos)).encode()
        e = {"fmt": fmt, "b64": base64.b64encode(gen.damage(rng, data)).decode(), "op": "use"}
        return {"id": id_, "kind": "docs", "described": False, "events": [e]}

    rec, _ = c.conform("TraceLoader", many(c.pick(6000, 60000), damaged, "x"), "damaged documents")
    for t in rec:
        c.note("damaged_" + t["events"][0]["res"]["st"], 1)

    def asked(id_):
        net = random_decision_net(rng) if rng.random() < .6 else gen.chance_net(rng, rng.randint(1, 6), joint=100)
        ev = []
        for _ in range(rng.randint(4, 10)):
            k = rng.random()
            if k < .1:
                ev.append({"op": "policies", "step": rng.random() < .5})
            else:
                ev.append(rng.choice([bad_query, bad_query, bad_utility, bad_toev])(rng, net))
        return gen.session(id_, net, ev, {"bad"})

    c.conform("TraceSession", many(c.pick(800, 8000), asked, "q"), "unsuitable queries")
