"""Random networks and call sequences. Everything is derived from a seeded generator."""
from fractions import Fraction as F

WORDS = ["Rain", "Sprinkler", "Grass wet", "x", "A", "b", "Kälte", "node-7", "_n", "Z9", "true", "42", "a.b", "Fire", "Smoke", "Test: 1", "#q", "yes", "No", "ü"]


def rat(x):
    x = F(x)
    return str(x.numerator) if x.denominator == 1 else f"{x.numerator}/{x.denominator}"


def exact(s):
    """The float nearest to a rational, as an exact rational."""
    return rat(F(float(F(s))))


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def row(rng, k, style):
    """One table row of k weights."""
    if style == "dyadic":  # sums to one, few bits
        bits = 16 if k <= 16 else 1 << (k - 1).bit_length()
        w = [0] * k
        for _ in range(bits):
            w[rng.randrange(k)] += 1
        return [F(x, bits) for x in w]
    if style == "det":
        w = [F(0)] * k
        w[rng.randrange(k)] = F(1)
        return w
    if style == "tiny":
        return [F(1, 10 ** rng.choice([0, 1, 5, 12, 20, 45])) * rng.randint(1, 9) for _ in range(k)]
    if style == "rare":
        return [F(1, 10 ** rng.choice([0, 1, 3, 6, 8, 10, 12])) * rng.randint(1, 9) for _ in range(k)]
    if style == "near":  # almost certain
        w = [F(rng.randint(0, 9), 10 ** rng.choice([6, 7, 8, 9, 11])) for _ in range(k)]
        w[rng.randrange(k)] = 0
        i = rng.randrange(k)
        w[i] = 1 - sum(w[:i] + w[i + 1:])
        return w
    if style == "rounded":  # sums almost to one
        w = [F(rng.randint(1, 50)) for _ in range(k)]
        d = 10 ** rng.choice([2, 4, 6, 7, 8])
        return [F(round(x * d / sum(w)), d) for x in w] if k <= 20 else w
    if style == "zeros":
        w = [F(rng.choice([0, 0, 1, 2, 3, 7]), 10) for _ in range(k)]
        if not any(w):
            w[rng.randrange(k)] = F(1, 2)
        return w
    if style == "zerorow":
        return [F(0)] * k
    if style == "counts":
        return [F(rng.randint(0, 30)) if rng.random() < .8 else F(1) for _ in range(k - 1)] + [F(rng.randint(1, 9))]
    if style == "uniform":
        return [F(1)] * k
    w = [F(rng.randint(1, 19), 20) for _ in range(k)]
    if style == "norm":
        s = sum(w)
        return [x / s for x in w]
    return w


MIX = ["plain", "plain", "norm", "zeros", "det", "counts"]
RARE = MIX + ["rare", "near", "rounded"]


ALIKE = ["a", "A", "aa", "aA", "a a", "a:a", "a,a", "aaa", "a ", " a", "b", "B", "ab", "a b", "á", "a1", "a01", "1", "01", "1.0"]  # easily confused


def names(rng, n):
    if rng.random() < .5:
        pool = [f"v{i}" for i in range(n)]
        if rng.random() < .5:
            rng.shuffle(pool)
        return pool
    if n <= len(ALIKE) and rng.random() < .3:
        return rng.sample(ALIKE, n)
    pool = rng.sample(WORDS, min(n, len(WORDS)))
    return pool + [f"w{i}" for i in range(n - len(pool))]


def outcomes(rng, k):
    if k <= len(ALIKE) and rng.random() < .15:
        return rng.sample(ALIKE, k)
    base = rng.choice([["yes", "no"], ["true", "false"], ["low", "mid", "high"], ["a", "b", "c", "d"], ["0", "1", "2"], ["no", "yes"]])
    return base[:k] if k <= len(base) and rng.random() < .7 else [f"o{i}" for i in range(k)]


class Net:
    """A network as in the specification; variables are numbered from 1."""

    def __init__(self, type_, card, par, tab, total=0, names_=None, outs=None, **kw):
        self.type, self.card, self.par, self.tab, self.total = type_, card, par, tab, total
        self.n = len(type_)
        self.names = names_ or [f"v{i}" for i in range(self.n)]
        self.outs = outs or [[f"o{i}" for i in range(k)] for k in card]
        self.pos = kw.get("pos") or [[0, 0]] * self.n
        self.colors = kw.get("colors") or [""] * self.n
        self.name = kw.get("name", "net")
        self.info = kw.get("info", "")

    def json(self):
        return {"n": self.n, "type": self.type, "card": self.card, "par": self.par, "total": self.total,
                "tab": [[rat(x) for x in t] for t in self.tab], "names": self.names, "outs": self.outs, "pos": self.pos,
                "colors": self.colors, "name": self.name, "info": self.info}

    def ftab(self):
        return [[exact(x) for x in t] for t in self.tab]

    def random_vars(self):
        return [v for v in range(1, self.n + 1) if self.type[v - 1] != "u"]

    def chance(self):
        return [v for v in range(1, self.n + 1) if self.type[v - 1] == "c"]

    def decisions(self):
        return [v for v in range(1, self.n + 1) if self.type[v - 1] == "d"]

    def utilities(self):
        return [v for v in range(1, self.n + 1) if self.type[v - 1] == "u" and v != self.total]

    def joint(self):
        return prod(self.card[v - 1] for v in self.random_vars())

    def shuffled(self, rng):
        """The same network, declared in another order."""
        order = list(range(self.n))
        rng.shuffle(order)
        return self.reordered(order)

    def reordered(self, order):
        new = {old + 1: i + 1 for i, old in enumerate(order)}
        take = lambda xs: [xs[o] for o in order]
        return Net(take(self.type), take(self.card), [[new[p] for p in self.par[o]] for o in order], take(self.tab),
                   new[self.total] if self.total else 0, take(self.names), take(self.outs), pos=take(self.pos), colors=take(self.colors),
                   name=self.name, info=self.info)


def widen(rng, net):
    """Gives one variable without parents more outcomes than fit into a byte, if the rest is small."""
    cand = [v for v in range(net.n) if net.type[v] == "c" and not net.par[v] and sum(prod(net.card[p - 1] for p in net.par[w]) * net.card[w] for w in range(net.n) if v + 1 in net.par[w]) <= 12 * net.card[v]]
    if not cand or prod(net.card) > 40:
        return net
    v = rng.choice(cand)
    k = rng.choice([256, 257, 300])
    old = net.card[v]
    net.card[v], net.outs[v] = k, [f"o{i}" for i in range(k)]
    net.tab[v] = row(rng, k, rng.choice(["plain", "counts", "norm"]))
    for w in range(net.n):
        if v + 1 in net.par[w] and net.tab[w]:
            rows = prod(net.card[p - 1] for p in net.par[w])
            net.tab[w] = [F(rng.randint(-9, 9)) for _ in range(rows * net.card[w])] if net.type[w] == "u" else chance_table(rng, net.card[w], rows, ["plain"])
    return net


def card(rng, cmax):
    return min(cmax, rng.choice([2, 2, 2, 3, 3, 4, 5, 1, rng.randint(1, 9)]))


def chance_table(rng, k, rows, styles):
    style = rng.choice(styles)
    t = []
    for _ in range(rows):
        t += row(rng, k, rng.choice(styles) if rng.random() < .15 else style)
    return t


def chance_net(rng, n, cmax=9, maxpar=3, joint=600, styles=MIX, shuffle=True, shape="random"):
    """Chance variables only."""
    card_, par, tab = [], [], []
    left = joint
    for i in range(n):
        k = card(rng, cmax)
        while k > 1 and left // k < 1:
            k -= 1
        left //= k
        card_.append(k)
        if shape == "chain":
            ps = [i] if i else []
        elif shape == "tree":
            ps = [rng.randint(1, i)] if i else []
        elif shape == "naive":
            ps = [1] if i else []
        elif shape == "collider":
            ps = list(range(1, n)) if i == n - 1 else []
        else:
            ps = rng.sample(range(1, i + 1), min(i, rng.randint(0, maxpar)))
        while prod(card_[p - 1] for p in ps) * k > 400:
            ps.pop()
        par.append(ps)
        tab.append(chance_table(rng, k, prod(card_[p - 1] for p in ps), styles))
    net = Net(["c"] * n, card_, par, tab, 0, names(rng, n), [outcomes(rng, k) for k in card_])
    return net.shuffled(rng) if shuffle else net


def decision_net(rng, nc, nd, nu, cmax=4, dcard=None, joint=300, styles=("plain", "norm", "zeros"), dyadic=False, total=None, through=.5, observe=.5, utilcard=1):
    """Decisions that know what earlier ones knew, and are ordered by arcs."""
    if dyadic:
        styles = ("dyadic", "dyadic", "det")
    kinds = ["c"] * nc + ["d"] * nd
    rng.shuffle(kinds)
    m = len(kinds)
    card_, par, tab = [], [], []
    left = joint
    for kind in kinds:
        k = max(2, card(rng, cmax)) if kind == "d" and rng.random() < .9 else card(rng, cmax)
        if kind == "d" and dcard:
            k = dcard
        while k > 1 and left // k < 1:
            k -= 1
        left //= k
        card_.append(k)
    anc = [set() for _ in range(m)]
    prev = None
    for i, kind in enumerate(kinds):
        before = list(range(1, i + 1))
        ch = [v for v in before if kinds[v - 1] == "c"]
        if kind == "c":
            ps = rng.sample(before, min(i, rng.choice([0, 1, 1, 2, 2, 3])))
            while ps and prod(card_[p - 1] for p in ps) * card_[i] > 120:
                ps.pop()
        else:
            ps = [v for v in ch if rng.random() < observe / max(1, len(ch) - 1)]
            if prev is not None:
                ps += [p for p in par[prev - 1] if kinds[p - 1] == "c" and p not in ps]
                link = [v for v in ch if prev in anc[v - 1] and v not in ps]
                ordered = any(p == prev or prev in anc[p - 1] for p in ps)
                if not ordered:
                    if link and rng.random() < through:
                        ps.append(rng.choice(link))
                    else:
                        ps.append(prev)
                elif rng.random() < .3 and prev not in ps:
                    ps.append(prev)
            rng.shuffle(ps)
            prev = i + 1
        anc[i] = set(ps).union(*[anc[p - 1] for p in ps]) if ps else set()
        par.append(ps)
        rows = prod(card_[p - 1] for p in ps)
        tab.append([] if kind == "d" else chance_table(rng, card_[i], rows, styles))
    type_ = list(kinds)
    for _ in range(nu):
        ps = rng.sample(range(1, m + 1), min(m, rng.choice([1, 1, 2, 2, 3])))
        while len(ps) > 1 and prod(card_[p - 1] for p in ps) > 120:
            ps.pop()
        rows = prod(card_[p - 1] for p in ps)
        lo = rng.choice([0, -10, -100])
        vals = [F(rng.randint(lo, 20)) if dyadic or rng.random() < .7 else F(rng.randint(-99, 99), 7) for _ in range(rows)]
        r = rng.random()
        if r < .3:
            pool = [F(rng.randint(lo, 9)) for _ in range(2)]
            vals = [rng.choice(pool) for _ in vals]
        elif r < .4:  # all but equal
            d = F(1, 2 ** rng.choice([10, 15, 20, 24]))
            vals = [vals[0] + d * rng.randint(0, 3) for _ in vals]
        elif r < .45:  # small
            d = F(1, 2 ** rng.choice([10, 20, 30]))
            vals = [x * d for x in vals]
        type_.append("u"); card_.append(1); par.append(ps); tab.append(vals)
    tot = 0
    if nu and (total if total is not None else rng.random() < .4):
        us = list(range(m + 1, m + nu + 1))
        rng.shuffle(us)
        type_.append("u"); card_.append(nu); par.append(us)
        tab.append([F(rng.choice([1, 1, 2, -1, 0, 3, F(1, 2), F(1, 4)])) for _ in us])
        tot = m + nu + 1
    n = len(type_)
    net = Net(type_, card_, par, tab, tot, names(rng, n), [outcomes(rng, k) for k in card_])
    return net.shuffled(rng)


def evidence(rng, net, among=None, p=None):
    vs = list(among if among is not None else net.random_vars())
    p = rng.choice([0, .2, .4, .8]) if p is None else p
    ev = [[v, rng.randrange(net.card[v - 1])] for v in vs if rng.random() < p]
    rng.shuffle(ev)
    return ev


def limit_vars(rng, net, vs, size):
    """A random selection with a joint table of limited size."""
    vs = list(vs)
    rng.shuffle(vs)
    out, k = [], 1
    for v in vs:
        if k * net.card[v - 1] <= size:
            out.append(v)
            k *= net.card[v - 1]
    return out


def query(rng, net, ign=None, size=64, ev=None, q=None):
    ev = evidence(rng, net) if ev is None else ev
    if q is None:
        vs = net.random_vars()
        q = limit_vars(rng, net, rng.sample(vs, min(len(vs), rng.choice([1, 1, 2, 2, 3, len(vs)]))), max(size, *net.card))
        if q and rng.random() < .03:
            q.append(rng.choice(q))
    return {"op": "query", "ev": ev, "q": q, "ign": rng.random() < .5 if ign is None else ign}


def utility(rng, net, ign=None, size=48, op="utility", ev=None, q=None):
    u = 0 if rng.random() < .5 else rng.choice(net.utilities())
    e = query(rng, net, ign, size, ev, q)
    if q is None and rng.random() < .4:
        e["q"] = []
    if op == "normutil" and not e["q"]:
        e["q"] = [rng.choice(net.random_vars())]
    e["op"], e["u"] = op, u
    return e


FLAGS = ["marg", "nan", "dist", "fac", "util", "pure", "pol", "exact", "dump", "save", "row", "recheck", "train", "bad"]


def session(id_, net, events, judge, big=False, load="new", doc=""):
    return {"id": id_, "kind": "session", "net": net.json(), "ftab": net.ftab(), "load": load, "doc": doc, "big": big,
            "judge": {f: f in judge for f in FLAGS}, "events": [{"op": "load"}] + events}


def unrank(i, cards):
    out = []
    for k in reversed(cards):
        out.append(i % k)
        i //= k
    return out[::-1]


def rank(idx, cards):
    r = 0
    for i, k in zip(idx, cards):
        r = r * k + i
    return r


def rewrite(rng, net, dyadic=False, kinds=("order", "parents", "outcomes", "names", "scale", "unrelated")):
    """The same network, written down differently: (network, vmap, omap)."""
    n = net.n
    cards = net.card
    op = [list(range(k)) for k in cards]
    if "outcomes" in kinds:
        for v in net.random_vars():
            rng.shuffle(op[v - 1])
    par, tab, outs = [], [], []
    for v in range(1, n + 1):
        ps = list(net.par[v - 1])
        if "parents" in kinds:
            rng.shuffle(ps)
        outs.append([None] * cards[v - 1])
        if v == net.total:
            perm = [net.par[v - 1].index(p) for p in ps]
            op[v - 1] = [perm.index(i) for i in range(cards[v - 1])]
            t = [net.tab[v - 1][i] for i in perm]
        elif not net.tab[v - 1]:
            t = []
        else:
            old = [cards[p - 1] for p in net.par[v - 1]] + [cards[v - 1]]
            new = [cards[p - 1] for p in ps] + [cards[v - 1]]
            t = [None] * len(net.tab[v - 1])
            for i, x in enumerate(net.tab[v - 1]):
                a = unrank(i, old)
                val = {p: op[p - 1][a[k]] for k, p in enumerate(net.par[v - 1])}
                t[rank([val[p] for p in ps] + [op[v - 1][a[-1]]], new)] = x
            if "scale" in kinds and net.type[v - 1] == "c":
                k = cards[v - 1]
                for r in range(len(t) // k):
                    f = F(2) ** rng.randint(-3, 3) if dyadic else F(rng.randint(1, 30), rng.randint(1, 30))
                    t[r * k:(r + 1) * k] = [x * f for x in t[r * k:(r + 1) * k]]
        for o in range(cards[v - 1]):
            outs[-1][op[v - 1][o]] = net.outs[v - 1][o]
        par.append(ps)
        tab.append(t)
    nm = list(net.names)
    if "names" in kinds:
        nm = [f"q{i}" for i in rng.sample(range(1000), n)]
        outs = [[f"r{i}" for i in rng.sample(range(1000), k)] for k in cards]
    type_, card_ = list(net.type), list(cards)
    if "unrelated" in kinds:
        for j in range(rng.randint(0, 2)):
            k = rng.randint(1, 3)
            ps = [n + 1] if j and rng.random() < .5 else []
            type_.append("c"); card_.append(k); par.append(ps); nm.append(f"extra{j}"); outs.append([f"e{i}" for i in range(k)])
            tab.append(chance_table(rng, k, prod(card_[p - 1] for p in ps), ["dyadic"] if dyadic else ["plain", "norm"]))
    b = Net(type_, card_, par, tab, net.total, nm, outs)
    order = list(range(b.n))
    if "order" in kinds:
        rng.shuffle(order)
    new = {old + 1: i + 1 for i, old in enumerate(order)}
    return b.reordered(order), [new[v] for v in range(1, n + 1)], op


# ---- factor algebra

def algebra_head(rng, cards, types=None):
    ids = rng.sample(range(0, rng.choice([60, 60, 60, 70000])), len(cards)) if rng.random() < .6 else list(range(len(cards)))
    types = types or [rng.choice("cccdu") for _ in cards]
    return {"kind": "algebra", "vars": [{"id": i, "type": t, "card": k} for i, t, k in zip(ids, types, cards)], "card": cards, "types": types,
            "exact": False, "net": {}}


def values(rng, n, signed=False):
    kind = rng.choice(["int", "frac", "dyadic", "few", "tiny"])
    def one():
        if kind == "int":
            x = F(rng.randint(0, 12))
        elif kind == "frac":
            x = F(rng.randint(0, 99), 100)
        elif kind == "dyadic":
            x = F(rng.randint(0, 64), 16)
        elif kind == "few":
            x = F(rng.choice([0, 1, 1, 3]), 4)
        else:
            x = F(rng.randint(0, 9)) / 10 ** rng.choice([0, 3, 20, 40])
        return x if not signed or rng.random() < .5 else -x
    return [exact(one()) for _ in range(n)]


def algebra(rng, id_, steps=10, size=200):
    """A random sequence of factor operations."""
    nv = rng.randint(1, 6)
    cards = [min(card(rng, 6), 6) for _ in range(nv)]
    r = rng.random()
    if r < .1:
        cards[0] = rng.choice([9, 17, 40])
    elif r < .12:  # more than fits into a byte
        cards = [rng.choice([256, 257, 300, 600])] + [2] * rng.randint(0, 1)
        rng.shuffle(cards)
        size = 1200
    elif r < .17:  # many variables
        cards = [rng.choice([1, 2, 2, 2, 3]) for _ in range(rng.randint(7, 14))]
        size = rng.choice([64, 600, 1500])
    nv = len(cards)
    s = algebra_head(rng, cards)
    dead = set()
    used = {v["id"] for v in s["vars"]}
    ev, pool = [], []  # pool: (scope, order known, signed, depth)
    sz = lambda sc: prod(cards[v - 1] for v in sc)

    def create():
        sc = limit_vars(rng, Net(["c"] * nv, cards, [], []), rng.sample(range(1, nv + 1), rng.randint(0, nv)), size)
        signed = rng.random() < .3
        nil = rng.random() < .05
        ev.append({"op": "create", "vs": sc, "nil": nil, "d": [] if nil else values(rng, sz(sc), signed)})
        pool.append((sc, True, signed, 0))

    create()
    if rng.random() < .7:
        create()
    for _ in range(steps):
        k = rng.randrange(len(pool))
        sc, known, signed, depth = pool[k]
        op = rng.choice(["create", "restrict", "sumout", "product", "product", "sum", "marginal", "normalize", "normfor", "rearrange",
                         "policy", "invert", "look", "look", "look", "set", "pool", "addvar"])
        if k in dead and op not in ("look", "create", "addvar", "pool"):
            continue
        e = {"op": op, "f": k + 1}
        if op == "create":
            create()
            continue
        if op == "addvar":
            i = rng.choice([rng.randint(0, 60), rng.choice(sorted(used))])
            used.add(i)
            ev.append({"op": op, "id": i})
            continue
        if op == "pool":
            ev.append({"op": op})
            continue
        if op in ("product", "sum"):
            fs = [rng.choice([i for i in range(len(pool)) if i not in dead]) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 6]))]
            un = []
            for i in fs:
                un += [v for v in pool[i][0] if v not in un]
            if sz(un) > size or sum(pool[i][3] for i in fs) > 6:
                continue
            ev.append({"op": op, "fs": [i + 1 for i in fs]})
            pool.append((un, False, any(pool[i][2] for i in fs), sum(pool[i][3] for i in fs) + 1))
            continue
        if op == "look" or op == "set":
            if not known:
                continue
            a = [rng.randrange(cards[v - 1]) for v in sc]
            if op == "set":
                ev.append({"op": "set", "f": k + 1, "a": a, "x": exact(F(rng.randint(0, 50), 7))})
                continue
            op = rng.choice(["index", "nodata", "outcomes", "rowindex", "row", "get"])
            e = {"op": op, "f": k + 1, "a": a}
            if op == "outcomes":
                e = {"op": op, "f": k + 1, "i": rng.randrange(sz(sc))}
            if op in ("rowindex", "row"):
                if not sc:
                    continue
                e["a"] = a[:-1]
            if op == "nodata" and a and rng.random() < .5:
                a[rng.randrange(len(a))] = -1
            ev.append(e)
            continue
        if not sc and op in ("restrict", "sumout", "marginal", "normfor", "policy"):
            continue
        if op in ("normalize", "normfor", "invert") and signed:
            continue
        if sc:
            e["v"] = rng.choice(sc)
        if op == "restrict":
            e["o"] = rng.randrange(cards[e["v"] - 1])
        rest = [v for v in sc if v != e.get("v")]
        if op == "rearrange":
            e["vs"] = rng.sample(sc, len(sc))
            pool.append((e["vs"], True, signed, depth))
        elif op in ("restrict", "sumout"):
            pool.append((rest, False, signed, depth))
        elif op == "marginal":
            pool.append(([e["v"]], True, signed, depth))
        elif op == "normfor":
            pool.append((sc, False, False, depth))
        elif op == "policy":
            pool.append((sc, False, False, 0))
        elif op in ("normalize", "invert"):
            dead.add(len(pool))  # may contain NaN or Inf: not used any further
            pool.append((sc, False, True, 99))
        ev.append(e)
    ev.append({"op": "pool"})
    s.update(id=id_, events=ev)
    return s


def large_tables(rng, id_):
    """Operations on factors with many thousands of entries, recorded at a few positions only."""
    r = rng.random()
    if r < .4:
        cards = [rng.choice([256, 257, 300, 512, 600]), rng.choice([256, 260, 300]), rng.choice([1, 2, 3])]
    elif r < .7:
        cards = [rng.choice([20, 40, 64]) for _ in range(3)] + [rng.choice([2, 3, 5]) for _ in range(2)]
    else:
        cards = [2] * rng.randint(17, 18) + [1]
    rng.shuffle(cards)
    s = algebra_head(rng, cards)
    s["kind"] = "large"
    nv, cap = len(cards), 700000
    sz = lambda sc: prod(cards[v - 1] for v in sc)
    ev, pool = [], []

    def put(sc, known, depth, e):
        pool.append((sc, known, depth))
        ev.append(dict({"v": 0, "o": 0, "vs": [], "fs": [], "pos": sorted({0, 1000000, *(rng.randint(0, 1000000) for _ in range(10))})}, **e))

    def rule():
        sc = rng.sample(range(1, nv + 1), nv if rng.random() < .7 else rng.randint(0, nv))
        while sz(sc) > cap:
            sc.pop()
        m = rng.choice([7, 31, 101, 997])
        put(sc, True, 0, {"op": "lrule", "vs": sc, "a0": rng.choice([1, 3, 17, 613]), "b0": rng.randrange(m), "m0": m})

    rule()
    rule()
    for _ in range(rng.randint(3, 7)):
        k = rng.randrange(len(pool))
        sc, known, depth = pool[k]
        op = rng.choice(["restrict", "sumout", "product", "sum", "rearrange", "normfor", "policy", "look", "look", "look"])
        if op == "look":
            for _ in range(4):
                if not known or depth:
                    break
                a = [rng.randrange(cards[v - 1]) for v in sc]
                op = rng.choice(["index", "nodata", "outcomes", "rowindex", "row", "get"])
                e = {"op": op, "f": k + 1, "a": a}
                if op == "outcomes":
                    e = {"op": op, "f": k + 1, "i": rng.randrange(sz(sc))}
                if op in ("rowindex", "row"):
                    if not sc:
                        continue
                    e["a"] = a[:-1]
                if op == "nodata" and a and rng.random() < .3:
                    a[rng.randrange(len(a))] = -1
                ev.append(e)
            continue
        if depth >= 2:
            continue
        if op in ("product", "sum"):
            fs = [i for i in (k, rng.randrange(len(pool))) if pool[i][2] < 2]
            un = list(dict.fromkeys(v for i in fs for v in pool[i][0]))
            if sz(un) <= cap:
                put(un, False, max(pool[i][2] for i in fs) + 1, {"op": op, "fs": [i + 1 for i in fs]})
            continue
        if op == "rearrange":
            vs = rng.sample(sc, len(sc))
            if known or depth == 0:
                put(vs, True, depth + 1, {"op": op, "fs": [k + 1], "vs": vs})
            continue
        if not sc:
            continue
        v = rng.choice(sc)
        e = {"op": op, "fs": [k + 1], "v": v}
        if op == "restrict":
            e["o"] = rng.randrange(cards[v - 1])
        put([w for w in sc if w != v] if op in ("restrict", "sumout") else sc, False, 9 if op in ("normfor", "policy") else depth + 1, e)
    s.update(id=id_, events=ev)
    return s


def engine(rng, id_, net, events, pool=True):
    """The tables of a network as factors for the elimination engine, in random order; calls refer to all of them."""
    s = algebra_head(rng, net.card, net.type)
    ev, fs = [], []
    order = list(range(1, net.n + 1))
    rng.shuffle(order)
    for v in order:
        if net.type[v - 1] == "d":
            continue
        scope = net.par[v - 1] + [v]
        tab = [exact(x) for x in net.tab[v - 1]]
        if net.type[v - 1] == "c":
            k = net.card[v - 1]
            norm = []
            for r in range(len(tab) // k):
                w = [F(x) for x in tab[r * k:(r + 1) * k]]
                t = sum(w)
                norm += [exact(x / t) if t else "0" for x in w]
            tab = norm
            perm = rng.sample(range(len(scope)), len(scope))  # any order of variables
            old = [net.card[u - 1] for u in scope]
            new = [old[p] for p in perm]
            t2 = [None] * len(tab)
            for i, x in enumerate(tab):
                a = unrank(i, old)
                t2[rank([a[p] for p in perm], new)] = x
            tab, scope = t2, [scope[p] for p in perm]
        ev.append({"op": "create", "vs": scope, "nil": False, "d": tab})
        fs.append(len(ev))
    for e in events:
        e = dict(e, fs=fs, deps=[net.par[v] if net.type[v] != "u" else [] for v in range(net.n)])
        ev.append(e)
    if pool:
        ev.append({"op": "pool"})
    s.update(id=id_, events=ev, net=net.json())
    return s


# ---- documents

def number(rng, x):
    """A decimal numeral for the float nearest to x."""
    f = float(F(x))
    forms = [repr(f), repr(f), "%.17g" % f, "%.17e" % f]
    if f == int(f) and abs(f) < 1e15:
        forms += [str(int(f)), str(int(f)), f"{int(f)}.0", f"{int(f)}.00"]
    if 0 < f < 1 and "e" not in repr(f):
        forms.append(repr(f)[1:])
    return rng.choice(forms)


PLAIN = __import__("re").compile(r"[A-Za-z_][A-Za-z0-9_.]*( [A-Za-z0-9_.]+)*")


def yaml_str(rng, s):
    odd = any(not ch.isprintable() for ch in s)  # among them line breaks, which are folded if not escaped
    esc = lambda ch: "\\" + ch if ch in '"\\' else ch if ch.isprintable() else f"\\u{ord(ch):04x}"
    forms = ['"' + "".join(esc(ch) for ch in s) + '"']
    if not odd:
        forms.append("'" + s.replace("'", "''") + "'")
    if PLAIN.fullmatch(s) and s.lower() not in ("null", "nan"):
        forms += [s, s]
    return rng.choice(forms)


def yaml_doc(rng, net, logic=None):
    """A YAML document for a network; logic maps variables to operator expressions used instead of tables."""
    q = lambda s: yaml_str(rng, s)
    ind = rng.choice(["", "  "])
    lines = [f"name: {q(net.name)}"]
    if net.info or rng.random() < .1:
        lines.append(f"info: {q(net.info)}")
    if rng.random() < .3:
        rng.shuffle(lines)
    if rng.random() < .3:
        lines.insert(0, "# a comment")
    lines.append("variables:")
    for i in range(net.n):
        fields = [f"variable: {q(net.names[i])}"]
        if net.par[i]:
            if rng.random() < .8:
                fields.append("given: [" + ", ".join(q(net.names[p - 1]) for p in net.par[i]) + "]")
            else:
                fields.append("given:\n" + "\n".join(f"{ind}  - {q(net.names[p - 1])}" for p in net.par[i]))
        t = {"c": rng.choice([None, None, "nature"]), "d": "decision", "u": "utility"}[net.type[i]]
        if t:
            fields.append("type: " + t)
        fields.append("outcomes: [" + ", ".join(q(o) for o in net.outs[i]) + "]")
        if net.pos[i] != [0, 0] or rng.random() < .3:
            fields.append(f"position: [{net.pos[i][0]}, {net.pos[i][1]}]")
        if net.colors[i]:
            fields.append("color: " + q(net.colors[i]))
        if logic and i + 1 in logic:
            fields.append("logic: " + q(logic[i + 1]))
        elif net.tab[i]:
            k = net.card[i]
            rows = [net.tab[i][r:r + k] for r in range(0, len(net.tab[i]), k)]
            txt = ["[" + ", ".join(number(rng, x) for x in r) + "]" for r in rows]
            if rng.random() < .5:
                fields.append("table: [" + ", ".join(txt) + "]")
            else:
                fields.append("table:\n" + "\n".join(f"{ind}  - {r}" for r in txt))
        first, rest = fields[0], fields[1:]
        if rng.random() < .5:
            rng.shuffle(rest)
        if rng.random() < .2:
            rest.append(first)
            first = rest.pop(0) if "\n" not in rest[0] else rest.pop()
        lines.append(f"{ind}- {first}")
        lines += [f"{ind}  {x}" for x in rest]
        if rng.random() < .2:
            lines.append("")
    return "\n".join(lines) + "\n"


def xml_doc(rng, net, pos):
    """A BIF-XML document; pos are the positions as written."""
    from xml.sax.saxutils import escape
    def esc(s):
        r = rng.random()
        if r < .7 or "]" in s:
            return escape(s, {'"': "&quot;"})
        if r < .8:
            return "".join(f"&#{ord(ch)};" if rng.random() < .5 and ch.isprintable() else escape(ch) for ch in s)
        if r < .83:
            return escape(s) + "<!-- " + rng.choice(["", "=", "x"]) + " -->"
        return f"<![CDATA[{s}]]>"
    out = ['<?xml version="1.0"?>'] if rng.random() < .5 else []
    if rng.random() < .2:
        out.append("<!-- Bayesian network in XMLBIF v0.3 -->")
    if rng.random() < .2:
        out.append("<!DOCTYPE BIF [\n  <!ELEMENT BIF ( NETWORK )*>\n  <!ATTLIST BIF VERSION CDATA #REQUIRED>\n  <!ELEMENT NAME (#PCDATA)>\n]>")
    out += [rng.choice(['<BIF VERSION="0.3">', '<BIF VERSION="0.3" xmlns="http://www.cs.ubc.ca/labs/lci/fopi/ve/XMLBIFv0_3">', "<BIF>"]), "<NETWORK>", f"<NAME>{esc(net.name)}</NAME>"]
    vs = []
    for i in range(net.n):
        t = {"c": "nature", "d": "decision", "u": "utility"}[net.type[i]]
        x = [f'<VARIABLE TYPE="{t}">', f"<NAME>{esc(net.names[i])}</NAME>"] + [f"<OUTCOME>{esc(o)}</OUTCOME>" for o in net.outs[i]]
        if pos[i] != [0, 0]:
            odd = rng.random() < .3
            sp = lambda: rng.choice(["", " ", "\n", "\t", "\r\n  ", "   "] if odd else ["", " ", " "])
            x.append(f"<PROPERTY>{sp() if odd else ''}position{sp()}={sp()}({sp() if odd else ''}{pos[i][0]}{sp() if odd else ''},{sp()}{pos[i][1]}{sp() if odd else ''}){sp() if odd else ''}</PROPERTY>")
        for _ in range(rng.choice([0, 0, 0, 0, 1, 2])):
            x.insert(rng.randint(1, len(x)), rng.choice(["<PROPERTY>weight = 3</PROPERTY>", "<!-- comment -->", "<PROPERTY>text</PROPERTY>", "<PROPERTY></PROPERTY>", "<OBS>1</OBS>", "<PROPERTY>position</PROPERTY>", "<PROPERTY>a = b = (3, 4)</PROPERTY>"]))
        if rng.random() < .1:
            x[1:] = x[2:] + x[1:2]
        vs.append("\n\t".join(x) + "\n</VARIABLE>")
    ds = []
    for i in range(net.n):
        if net.type[i] == "d" and not net.par[i] and rng.random() < .5:
            continue
        x = ["<DEFINITION>", f"<FOR>{esc(net.names[i])}</FOR>"] + [f"<GIVEN>{esc(net.names[p - 1])}</GIVEN>" for p in net.par[i]]
        if net.tab[i] or rng.random() < .3:
            sep = rng.choice([" ", "\n", "  \t"])
            nums = [number(rng, y) for y in net.tab[i]]
            if nums and rng.random() < .15:
                nums.insert(rng.randrange(len(nums)), "<!-- a row -->")
            x.append("<TABLE>" + rng.choice(["", "", "\n\t"]) + sep.join(nums) + rng.choice(["", " ", "\n"]) + "</TABLE>")
        ds.append("\n\t".join(x) + "\n</DEFINITION>")
    rng.shuffle(ds)
    if rng.random() < .3:  # definitions first
        out += ds + vs
    else:
        out += vs + ds
    return "\n".join(out + ["</NETWORK>", "</BIF>"]) + "\n"


ODD = ["", " ", "a b", " lead", "trail ", "x: y", "#no", "- item", "yes", "No", "true", "null", "~", "1", "1.0", "1e3", "0x1F", "2024-01-01", "'q'", '"dq"', "back\\slash", "tab\there", "\ttab\nx", "\n", "two\nlines",
       "trailing\n", "\nleading", "ümläut", "日本語", "🙂", "[x]", "{y}", "a,b", "&anchor", "*alias", "!tag", "|", ">", "%d", "@at", "`tick`", "<<", "=", "a=b", "-", "?", ":", "...", "---", "\u00a0nbsp",
       "w" * 120, "long words " * 15, "\u2028", "a\n\n\nb", "  \n x", "crlf\r\nx", "\x7f", "\u0085nel", "nan", ".inf", "0o17", "12:30:45", "+1", "-.5", "<xml>&amp;", "]]>", "\ufeffbom",
       "on", "off", "y", "N", "OFF", "0777", "1_000", "0b11", ".5", "-0", "1.", "a: ", "a #b", "a:", "'", '"', "\\", "{", "]", ",", "&", "*", "%", "\t", "x\\n", "Yes", "YES", "A B", "a  b", "a\u0301", "NULL", "False", "1e400", "!!str x", "- ", "? ", "key: [1, 2]"]


def odd_names(rng, n, pool=ODD):
    out = []
    while len(out) < n:
        x = rng.choice(pool) if rng.random() < .7 else rng.choice(pool) + str(rng.randint(0, 99))
        if x not in out:
            out.append(x)
    return out


def odd_float(rng):
    import struct
    while True:
        x = rng.choice([lambda: 5e-324, lambda: 1.7976931348623157e308, lambda: .1 + .2, lambda: 1 / 3, lambda: 1e22, lambda: 1e21, lambda: 123456789012345680.0, lambda: 2.0 ** -1074 * 3,
                        lambda: struct.unpack("d", struct.pack("Q", rng.getrandbits(62)))[0], lambda: rng.random(), lambda: float(rng.randint(0, 10 ** 18)), lambda: rng.random() * 1e-7])()
        if x == x and x not in (float("inf"), float("-inf")):
            return F(x)


def decorate(rng, net, pool=ODD, floats=False):
    """Unusual names, positions, colors and table values."""
    if rng.random() < .7:
        net.names = odd_names(rng, net.n, pool)
        net.outs = [odd_names(rng, k, pool) for k in net.card]
    net.name = rng.choice(pool)
    net.info = rng.choice(pool + [""] * 5) if rng.random() < .8 else "\n".join(rng.sample(pool, 4))
    net.pos = [[rng.choice([0, 1, 7, -3, 120, 99999, rng.randint(0, 300)]), rng.choice([0, 2, -1, rng.randint(0, 300)])] for _ in range(net.n)]
    net.colors = [rng.choice(["", "red", "blue", rng.choice(pool)]) for _ in range(net.n)]
    if floats:
        net.tab = [[odd_float(rng) * (rng.choice([1, -1]) if net.type[v] == "u" else 1) for _ in t] for v, t in enumerate(net.tab)]
    return net


# ---- command line

CSVNAMES = [x for x in ODD if "\r" not in x and "\ufeff" not in x] + ["a;b", "a\tb", "a|b", 'say "x"', "NA", "-999", "?"]
CLINAMES = [x for x in ODD if x and not set(x) & set("\n\r=")] + ['say "x"', "x, y"]
COLORS = ["black", "maroon", "green", "olive", "navy", "purple", "teal", "silver", "gray", "red", "lime", "yellow", "blue", "fuchsia", "aqua", "white"]


def csv_cell(rng, s, delim, single):
    need = any(ch in s for ch in (delim, '"', "\n", "\r")) or single and s == ""
    return '"' + s.replace('"', '""') + '"' if need or rng.random() < .1 else s


def csv_text(rng, hdr, rows, delim):
    eol = rng.choice(["\n", "\n", "\r\n"])
    lines = [delim.join(csv_cell(rng, x, delim, len(r) == 1) for x in r) for r in [hdr] + rows]
    for _ in range(rng.choice([0, 0, 0, 2])):
        lines.insert(rng.randrange(1, len(lines) + 1), "")
    return eol.join(lines) + (eol if rng.random() < .7 else "")


def b64(text):
    import base64
    return base64.b64encode(text.encode()).decode()


# ---- descriptions of networks (see Loader.tla)

def describe(net, fmt):
    vs, fs = [], []
    for i in range(net.n):
        k = net.card[i]
        rows = len(net.tab[i]) // k
        vs.append({"name": net.names[i], "type": {"c": "nature", "d": "decision", "u": "utility"}[net.type[i]], "outs": list(net.outs[i])})
        fs.append({"for": net.names[i], "given": [net.names[p - 1] for p in net.par[i]], "rows": ([k] * rows if fmt == "yaml" else [k * rows]) if rows else [], "odd": "", "op": "", "args": [], "bad": False})
    return {"fmt": fmt, "ext": "", "junk": False, "vars": vs, "facs": fs}


def render(rng, d):
    """Arguments of the driver for a description."""
    def vals(n, odd=""):  # one of the values may be odd
        r = [rng.choice(["1", "2", "3", "0.5", "7"]) for _ in range(n)]
        if odd and n:
            r[rng.randrange(n)] = rng.choice({"neg": ["-1", "-0.5", "-1e-9", "-7"], "nan": ["NaN"], "inf": ["+Inf", "-Inf"]}[odd])
        return r
    y = lambda x: {"NaN": rng.choice([".nan", ".NaN"]), "+Inf": rng.choice([".inf", "+.inf"]), "-Inf": "-.inf"}.get(x, x)
    e = {"fmt": d["fmt"], "doc": ""}
    if d["fmt"] == "new":
        e["vars"] = [{"name": v["name"], "type": {"": 0, "nature": 0, "decision": 1, "utility": 2, "Decision": 3, "chance": 255}[v["type"]], "outs": v["outs"], "color": ""} for v in d["vars"]]
        e["facs"] = [{"for": f["for"], "given": f["given"], "tab": vals(sum(f["rows"]), f["odd"]), "nil": not f["rows"]} for f in d["facs"]]
        return e
    if d["fmt"] == "yaml":
        q = lambda s: yaml_str(rng, s)
        lines = ["name: " + (q(rng.choice(ODD)) if rng.random() < .4 else "x"), "variables:" + ("" if d["vars"] else " []")]
        odd = rng.random() < .4
        junk = rng.randrange(len(d["vars"]) + 1) if d["junk"] else -1
        for i, (v, f) in enumerate(zip(d["vars"], d["facs"])):
            x = ["variable: " + q(v["name"]), "outcomes: [" + ", ".join(map(q, v["outs"])) + "]"]
            if v["type"]:
                x.append("type: " + v["type"])
            if f["given"]:
                x.append("given: [" + ", ".join(map(q, f["given"])) + "]")
            if f["rows"]:
                flat = iter(vals(sum(f["rows"]), f["odd"]))
                x.append("table: [" + ", ".join("[" + ", ".join(y(next(flat)) for _ in range(r)) + "]" for r in f["rows"]) + "]")
            if f["op"]:
                args = [str(a) for a in f["args"]]
                if f["bad"]:
                    args[rng.randrange(len(args))] = rng.choice(["x", "1.5", "", "--1", "one"])
                x.append("logic: " + q(" ".join([f["op"]] + args)))
            if odd and rng.random() < .5:
                x.append("color: " + q(rng.choice(ODD + COLORS)))
            if odd and rng.random() < .5:
                x.append(f"position: [{rng.randint(-9, 99)}, {rng.randint(-9, 99)}]")
            if i == junk:
                x.append(rng.choice(["parents: [a]", "outcome: [a]", "Variable2: b", "tables: [[1]]", "Type: decision"]))
            if rng.random() < .3:
                rng.shuffle(x)
            lines += ["- " + x[0]] + ["  " + y for y in x[1:]]
        if odd and rng.random() < .5:
            lines.insert(1, "info: " + q(rng.choice(ODD)))
        if rng.random() < .2:
            lines.insert(rng.choice([0, 1, len(lines)]), rng.choice(["# a comment", "#", "# <<: *a", "# variable: x", "# ---"]))
        if junk == len(d["vars"]):
            lines.insert(1, rng.choice(["title: y", "Name: y", "variable: y", "version: 1"]))
        e["doc"] = "\n".join(lines) + "\n"
    else:
        from xml.sax.saxutils import escape as q
        out = ["<BIF>", "<NETWORK>", "<NAME>x</NAME>"]
        for v in d["vars"]:
            t = f' TYPE="{v["type"]}"' if v["type"] or rng.random() < .5 else ""
            out += [f"<VARIABLE{t}>", f"<NAME>{q(v['name'])}</NAME>"] + [f"<OUTCOME>{q(o)}</OUTCOME>" for o in v["outs"]] + ["</VARIABLE>"]
        for f in d["facs"]:
            out += ["<DEFINITION>", f"<FOR>{q(f['for'])}</FOR>"] + [f"<GIVEN>{q(g)}</GIVEN>" for g in f["given"]]
            if f["rows"]:
                out.append("<TABLE>" + " ".join(vals(sum(f["rows"]), f["odd"])) + "</TABLE>")
            out.append("</DEFINITION>")
        e["doc"] = "\n".join(out + ["</NETWORK>", "</BIF>"]) + "\n"
    if d["ext"]:
        e["fmt"], e["ext"] = "file", d["ext"]
    return e


def damage(rng, data):
    """Bytes with a few random edits."""
    data = bytearray(data)
    toks = [b"-1", b"[", b"]", b"{", b"}", b": ", b"\n", b"  ", b"- ", b"0", b"1e309", b".nan", b"-.inf", b"NaN", b"&a ", b"*a", b"!!", b"|", b"<", b">", b"</", b"&", b"\x00", b"\xff", b"\t", b"99999999999999999999", b"~", b"\"", b"'",
            b"given", b"table", b"outcomes", b"utility", b"decision", b"logic: and", b"logic: outcome-is 0 0", b"logic: bits", b"position: [1]", b"position: (a,b)", b"<TABLE>", b"</DEFINITION>", b"#", b"<<: ", b",", b", ,", b"[]", b"[[]]"]
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        i = rng.randrange(len(data) + 1)
        k = rng.random()
        if k < .25 and data:
            data[min(i, len(data) - 1)] = rng.choice(b"0123456789abcXYZ-:[]{},.# \n<>/&\"'\t") if rng.random() < .9 else rng.randrange(256)
        elif k < .45:
            data[i:i] = rng.choice(toks)
        elif k < .65:
            del data[i:i + rng.choice([1, 1, 2, 5, 30])]
        elif k < .8:
            j = rng.randrange(len(data) + 1)
            data[i:i] = data[j:j + rng.randint(1, 60)]
        elif k < .9:  # a line somewhere else
            lines = bytes(data).split(b"\n")
            x = lines.pop(rng.randrange(len(lines)))
            lines.insert(rng.randrange(len(lines) + 1), x)
            if rng.random() < .5:
                lines.insert(rng.randrange(len(lines) + 1), x)
            data = bytearray(b"\n".join(lines))
        else:
            del data[i:]
    return bytes(data)
