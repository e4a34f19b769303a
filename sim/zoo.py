"""Seeded generation of symmetry spaces, field types and architectures as plain JSON specs (no torch needed)."""
import math

PI = math.pi


def gspace_spec(rng, small=False):
    c = rng.random()
    if c < 0.06:
        return ["triv"]
    if c < 0.18:
        return ["flip", rng.choice([0.0, PI / 2, PI / 4, 3 * PI / 4, PI / 2])]
    if c < 0.52:
        return ["rot", rng.choice([2, 4, 4, 8, 3, 6] if not small else [2, 4, 4])]
    if c < 0.62:
        return ["so2", rng.choice([1, 2, 3])]
    if c < 0.90:
        return ["fliprot", rng.choice([2, 4, 4, 3, 6, 8] if not small else [2, 4, 3]), rng.choice([PI / 2, PI / 2, 0.0, PI / 4, 3 * PI / 4])]
    return ["o2", rng.choice([1, 2, 3]), rng.choice([PI / 2, 0.0, PI / 4])]


def irreps(g):
    k = g[0]
    if k == "triv":
        return [[0]]
    if k == "flip":
        return [[0], [1]]
    if k == "rot":
        return [[i] for i in range(g[1] // 2 + 1)]
    if k == "so2":
        return [[i] for i in range(g[1] + 1)]
    if k == "fliprot":
        N = g[1]
        out = [[0, 0], [1, 0]] + [[1, i] for i in range(1, (N - 1) // 2 + 1)]
        if N % 2 == 0:
            out += [[0, N // 2], [1, N // 2]]
        return out
    if k == "o2":
        return [[0, 0], [1, 0]] + [[1, i] for i in range(1, g[1] + 1)]
    raise ValueError(g)


def irrep_size(g, i):
    k = g[0]
    if k in ("triv", "flip"):
        return 1
    if k == "rot":
        return 1 if i[0] == 0 or 2 * i[0] == g[1] else 2
    if k == "so2":
        return 1 if i[0] == 0 else 2
    if k == "fliprot":
        return 1 if i[1] == 0 or 2 * i[1] == g[1] else 2
    return 1 if i[1] == 0 else 2


def order(g):
    return {"triv": 1, "flip": 2, "rot": g[1] if len(g) > 1 else 0, "fliprot": 2 * g[1] if len(g) > 1 else 0}.get(g[0], -1)


def quotients(g):
    k = g[0]
    if k == "rot":
        return [m for m in range(1, g[1] + 1) if g[1] % m == 0 and m > 1]
    if k == "fliprot":
        N = g[1]
        out = []
        for m in range(1, N + 1):
            if N % m == 0:
                if m > 1:
                    out.append([None, m])
                out += [[f, m] for f in range(N // m)]
        return out
    if k == "flip":
        return [2]
    return []


def subgroup_irrep(g, q):
    """non-trivial irreps of the subgroup q usable for induction: list of irrep ids of the subgroup"""
    k = g[0]
    if k == "rot":
        return [[i] for i in range(0, q // 2 + 1)]
    if k == "fliprot":
        if q[0] is None:
            return [[i] for i in range(0, q[1] // 2 + 1)]
        if q[1] == 1:
            return [[0], [1]]
        return irreps(["fliprot", q[1], 0.0])
    return [[0]]


def rep_spec(rng, g, kinds=None):
    ks = ["triv", "irrep", "irrep", "reg", "quot", "ind", "sum"] * 2 + ["cb"] if kinds is None else kinds
    k = rng.choice(ks)
    if k == "reg" and 0 < order(g) <= 16:
        return ["reg"]
    if k == "quot" and quotients(g):
        return ["quot", rng.choice(quotients(g))]
    if k == "ind":
        if quotients(g):
            q = rng.choice(quotients(g))
            return ["ind", q, rng.choice(subgroup_irrep(g, q))]
        if g[0] == "o2":
            return ["ind", [None, -1], [rng.randint(0, g[1])]]
    if k == "sum":
        n = rng.randint(2, 3)
        ids = [rng.choice(irreps(g)) for _ in range(n)]
        return ["sum", ids]
    if k == "triv":
        return ["triv"]
    if k == "cb":
        # another, in general not orthogonal, basis of a representation
        return ["cb", rep_spec(rng, g, ["irrep", "sum", "reg", "quot"]), rng.randint(0, 3)]
    return ["irrep", rng.choice(irreps(g))]


def rep_size(g, r):
    k = r[0]
    if k == "triv":
        return 1
    if k == "irrep":
        return irrep_size(g, r[1])
    if k == "cb":
        return rep_size(g, r[1])
    if k == "reg":
        return order(g)
    if k == "sum":
        return sum(irrep_size(g, i) for i in r[1])
    if k == "quot":
        q = r[1]
        m = q if g[0] != "fliprot" else (q[1] * (2 if q[0] is not None else 1))
        return order(g) // m
    if k == "ind":
        if g[0] == "o2":
            return 2 if r[2][0] == 0 else 4
        q = r[1]
        if g[0] in ("rot", "flip", "triv"):
            m, s = q, (1 if r[2][0] == 0 or 2 * r[2][0] == q else 2)
        else:
            if q[0] is None:
                m, s = q[1], (1 if r[2][0] == 0 or 2 * r[2][0] == q[1] else 2)
            elif q[1] == 1:
                m, s = 2, 1
            else:
                m, s = 2 * q[1], irrep_size(["fliprot", q[1], 0.], r[2])
        return order(g) // m * s
    raise ValueError(r)


def type_spec(rng, g, maxsize=20, nmax=4, kinds=None):
    """list of representation specs; often with repeated, non-adjacent fields"""
    n = rng.randint(1, nmax)
    pool = [rep_spec(rng, g, kinds) for _ in range(rng.randint(1, 3))]
    for r in list(pool):
        if r[0] == "cb" and rng.random() < 0.6:
            # a different representation of the same name
            pool.append(["cb", r[1], 7])
        if r[0] == "ind" and g[0] != "o2" and rng.random() < 0.5:
            # induced from another irrep of the same subgroup
            pool.append(["ind", r[1], rng.choice(subgroup_irrep(g, r[1]))])
    out = []
    for _ in range(n):
        r = rng.choice(pool)
        if sum(rep_size(g, x) for x in out) + rep_size(g, r) > maxsize and out:
            break
        out.append(r)
    return out


def irrep_field(rng, g):
    return ["irrep", rng.choice(irreps(g))]


LAYERS = ["conv", "conv", "conv", "tconv", "diffop", "bn", "bn", "nonlin", "nonlin", "nonlin", "pool", "drop", "shuf",
          "dis", "restrict", "up", "mask", "multi", "gpool", "idt", "res", "cat"]


BF = ["f_even", "f_odd", "f_le1", "f_ge1", "r_le1", "r_ge1", "r_is1", "r_is2", "inner0", "inner1"]


def layer_spec(rng, g, kind=None, maxsize=20):
    k = kind or rng.choice(LAYERS)
    r = rng.randint(0, 10 ** 6)
    if k in ("conv", "tconv", "diffop"):
        d = {"out": type_spec(rng, g, maxsize), "k": rng.choice([1, 3, 3, 5]), "pad": rng.choice(["same", "same", "none"]),
             "stride": rng.choice([1, 1, 1, 2]), "dil": rng.choice([1, 1, 1, 2]), "bias": rng.random() < 0.75, "r": r}
        if k == "conv":
            d["pm"] = rng.choice(["zeros"] * 4 + ["circular", "replicate", "reflect"])
            d["groups"] = rng.choice([1, 1, 1, 2])
            o = rng.random()
            if o < 0.15:
                d["opt"] = {"frequencies_cutoff": rng.choice([1.0, 2.0, 3.0])}
            elif o < 0.25:
                d["opt"] = {"sigma": rng.choice([0.5, 0.7])}
            elif o < 0.32:
                d["opt"] = {"maximum_offset": rng.choice([1, 2])}
            elif o < 0.40:
                d["opt"] = {"recompute": True}
            elif o < 0.45:
                d["opt"] = {"rings": rng.choice([True, 0.04, -0.2])}
        if k == "tconv":
            d["k"] = rng.choice([3, 3, 5])
            d["op"] = 0
            o = rng.random()
            if o < 0.15:
                d["opt"] = {"frequencies_cutoff": rng.choice([1.0, 2.0, 3.0])}
            elif o < 0.25:
                d["opt"] = {"sigma": rng.choice([0.5, 0.7])}
            elif o < 0.32:
                d["opt"] = {"maximum_offset": rng.choice([1, 2])}
            d["groups"] = rng.choice([1, 1, 1, 2])
        if k == "diffop":
            d["k"] = rng.choice([3, 3, 5])
            d["groups"] = rng.choice([1, 1, 1, 2])
            d["pm"] = rng.choice(["zeros"] * 4 + ["circular", "replicate", "reflect"])
            o = rng.random()
            if o < 0.3:
                d["opt"] = {"maximum_order": rng.choice([1, 2])}
            elif o < 0.45:
                d["opt"] = {"maximum_power": rng.choice([0, 1])}
            elif o < 0.55:
                d["opt"] = {"angle_offset": rng.choice([0.4, 0.8])}
            elif o < 0.65:
                d["opt"] = {"accuracy": 2}
        if "opt" not in d and rng.random() < 0.15:
            d["opt"] = {"bf": rng.choice(BF)}
        return [k, d]
    if k == "bn":
        return ["bn", {"r": r, "momentum": rng.choice([0.1, 0.1, 0.3, None]), "affine": rng.random() < 0.8, "eps": rng.choice([1e-5, 1e-3])}]
    if k == "drop":
        return ["drop", {"r": r, "p": rng.choice([0.1, 0.3, 0.5]), "inplace": False}]
    return [k, {"r": r}]


def model_spec(rng, depth=None, small=False, g=None, layers=None, maxsize=None):
    g = g or gspace_spec(rng, small)
    maxsize = maxsize or (12 if small else 20)
    n = depth or rng.randint(2, 5)
    spec = {"g": g, "in": type_spec(rng, g, min(maxsize, 10), 3), "size": rng.choice([7, 9, 8] if not small else [5, 7, 6]),
            "rect": rng.choice([0, 0, 0, 2, 4, 1]), "layers": []}
    kinds = []
    for i in range(n):
        kinds.append(rng.choice(layers or LAYERS))
    if not any(k in ("conv", "tconv", "diffop") for k in kinds):
        kinds[rng.randrange(n)] = rng.choice(["conv", "conv", "tconv", "diffop"])
    for k in kinds:
        spec["layers"].append(layer_spec(rng, g, k, maxsize))
    return spec


FOCUS = ["bn", "nonlin", "nonlin", "nonlin", "pool", "pool", "gpool", "drop", "shuf", "dis", "multi", "mask", "up", "restrict", "cat", "res"]


def focus_spec(rng, layers=FOCUS):
    """one or two modules, of every kind alike, on fields of a few kinds which take turns in the type"""
    g = gspace_spec(rng, True)
    kinds = rng.choice([None, ["reg", "quot", "triv"], ["irrep", "sum"], ["ind"], ["ind", "irrep"], ["reg", "quot"]])
    rs = [rep_spec(rng, g, kinds) for _ in range(rng.choice([2, 2, 3]))]
    rs = [r for r in rs if rep_size(g, r) <= 8] or [["triv"], irrep_field(rng, g)]
    if kinds == ["ind"] and quotients(g):
        # induced from one subgroup: what the induced gates need
        q = max((rng.choice(quotients(g)) for _ in range(2)), key=lambda q: len(subgroup_irrep(g, q)))
        same = [["ind", q, i] for i in subgroup_irrep(g, q)]
        same = [r for r in same if rep_size(g, r) <= 8]
        rs = rng.sample(same, min(len(same), 3)) or rs
    t = [rng.choice(rs) for _ in range(rng.randint(3, 6))] if rng.random() < 0.6 else (rs * 3)[:rng.randint(2, 6)]
    while sum(rep_size(g, r) for r in t) > 24 and len(t) > 2:
        t.pop()
    if kinds == ["ind"] and "nonlin" in layers and rng.random() < 0.6:
        layers = ["nonlin"]
    ls = [layer_spec(rng, g, rng.choice(layers), 12) for _ in range(rng.choice([1, 1, 2]))]
    ls.insert(rng.choice([len(ls), len(ls), 0]), layer_spec(rng, g, "conv", 10))
    if ls[0][0] == "conv":
        ls[0][1]["out"] = list(t)
    return {"g": g, "in": t, "size": rng.choice([5, 7, 6]), "rect": rng.choice([0, 0, 1, 2]), "layers": ls}


def trainable(spec):
    """the same without reflecting borders: those cancel odd filters up to rounding, and the gradient of the norm of a rounding error is arbitrary"""
    for _, p in spec["layers"]:
        if p.get("pm") == "reflect":
            p["pm"] = "replicate"
    return spec


def mutate(rng, spec):
    """the same architecture with one argument changed: what a cache with an incomplete key would confuse"""
    import copy
    s = copy.deepcopy(spec)
    g = s["g"]
    cands = []
    if g[0] in ("flip", "fliprot", "o2"):
        cands.append("axis")
    convs = [i for i, l in enumerate(s["layers"]) if l[0] in ("conv", "tconv", "diffop")]
    if convs:
        cands += ["k", "dil", "opt", "opt", "opt", "out", "groups", "stride"]
    if g[0] in ("so2", "o2"):
        cands.append("freq")
    cbs = [r for t in [s["in"]] + [l[1].get("out", []) for l in s["layers"]] for r in t if r[0] == "cb"]
    if cbs:
        cands += ["cb"] * 4
    if not cands:
        cands = ["in"]
    c = rng.choice(cands)
    if c == "axis":
        g[-1] = rng.choice([a for a in (0.0, PI / 4, PI / 2, 3 * PI / 4) if abs(a - g[-1]) > 1e-6])
        return s
    if c == "cb":
        for r in cbs:
            r[2] += 11
        return s
    if c == "freq":
        g[1] = g[1] + rng.choice([1, 2])
        return s
    if c == "in":
        s["in"] = type_spec(rng, g, 10, 3)
        return s
    kind, d = s["layers"][rng.choice(convs)]
    if c == "k":
        d["k"] = rng.choice([k for k in (3, 5) if k != d["k"]])
    elif c == "dil":
        d["dil"] = 2 if d["dil"] == 1 else 1
    elif c == "stride":
        d["stride"] = 2 if d["stride"] == 1 else 1
    elif c == "out":
        rng.shuffle(d["out"])
    elif c == "groups":
        d["groups"] = 3 - d.get("groups", 1)
    else:
        o = dict(d.get("opt", {}))
        if rng.random() < (0.25 if "bf" not in o else 0.8):
            o = {"bf": rng.choice([b for b in BF if b != o.get("bf")])}
        elif kind == "conv":
            k = rng.choice(["frequencies_cutoff", "sigma", "maximum_offset", "recompute", "rings"])
            o = {k: {"frequencies_cutoff": rng.choice([1.0, 2.0, 3.0]), "sigma": rng.choice([0.45, 0.8]), "maximum_offset": rng.choice([1, 2]),
                     "recompute": True, "rings": rng.choice([True, 0.04, 0.003, -0.2])}[k]} if rng.random() < 0.85 else {}
            if "sigma" in o and "sigma" in d.get("opt", {}) and rng.random() < 0.7:
                o["sigma"] = d["opt"]["sigma"] + rng.choice([0.003, 0.02, 0.1])
        elif kind == "tconv":
            k = rng.choice(["frequencies_cutoff", "sigma", "maximum_offset"])
            o = {k: {"frequencies_cutoff": rng.choice([1.0, 2.0, 3.0]), "sigma": rng.choice([0.45, 0.8]), "maximum_offset": rng.choice([1, 2])}[k]} if not o else {}
        else:
            k = rng.choice(["maximum_order", "maximum_power", "angle_offset", "accuracy"])
            o = {k: {"maximum_order": rng.choice([1, 2]), "maximum_power": rng.choice([0, 1]), "angle_offset": rng.choice([0.4, 0.8]), "accuracy": 2}[k]} if rng.random() < 0.85 else {}
        d["opt"] = o
    return s


# ---- requests for groups, representations, types and bases (see objs.py)
def group_spec(rng, freqs=(1, 2, 3, 4, 6)):
    c = rng.random()
    if c < 0.3:
        return ["C", rng.choice([1, 2, 3, 4, 6, 8])]
    if c < 0.6:
        return ["D", rng.choice([1, 2, 3, 4, 6, 8])]
    if c < 0.78:
        return ["SO2", rng.choice(freqs)]
    return ["O2", rng.choice(freqs)]


def g_irreps(G):
    k, n = G
    if k == "C":
        return [[i] for i in range(n // 2 + 1)]
    if k == "D":
        out = [[0, 0], [1, 0]] + [[1, i] for i in range(1, (n - 1) // 2 + 1)]
        if n % 2 == 0:
            out += [[0, n // 2], [1, n // 2]]
        return out
    if k == "SO2":
        return [[i] for i in range(n + 1)]
    return [[0, 0], [1, 0]] + [[1, i] for i in range(1, n + 1)]


def g_subs(G):
    k, n = G
    if k == "C":
        return [m for m in range(1, n + 1) if n % m == 0]
    if k == "D":
        out = []
        for m in range(1, n + 1):
            if n % m == 0:
                out.append([None, m])
                out += [[f, m] for f in range(n // m)]
        return out
    if k == "SO2":
        return [1, 2, 3, 4, 6]
    return [[None, -1], [None, 1], [None, 4], [0., 1], [0., 2], [0., 4], [PI / 4, 4], [0.5, 2], [0., -1], [1.0, -1], [0.7, 1]]


def sub_spec(G, s):
    """group spec of a subgroup"""
    k, n = G
    if k == "C":
        return ["C", s]
    if k == "D":
        return ["C", s[1]] if s[0] is None else (["C", 2] if s[1] == 1 else ["D", s[1]])
    if k == "SO2":
        return ["C", s]
    if s[1] == -1:
        return ["SO2", n] if s[0] is None else ["O2", n]
    return ["C", s[1]] if s[0] is None else (["C", 2] if s[1] == 1 else ["D", s[1]])


def obj_request(rng, kinds=None, G=None):
    G = G or group_spec(rng)
    k = rng.choice(kinds or ["group", "irrep", "irrep", "irreps", "byname", "triv", "reg", "quot", "ind", "sub", "restrict", "restrictreg", "dsum", "disent"])
    finite = G[0] in "CD"
    if k in ("reg", "quot", "restrictreg") and not finite:
        k = "irrep"
    if k == "ind" and G[0] == "SO2":
        k = "restrict"
    if k in ("restrictreg",) and G[1] > 4:
        k = "reg"
    if k in ("group", "triv", "irreps"):
        return [k, G]
    if k == "reg":
        return [k, G]
    if k in ("irrep", "byname"):
        # irreps of continuous groups may lie beyond the frequency the group was asked for
        hi = [G[0], G[1] + rng.choice([0, 2, 4])] if k == "irrep" and not finite else G
        return [k, G, rng.choice(g_irreps(hi)[-3:] if hi != G else g_irreps(G))]
    if k == "dsum":
        return [k, G, [rng.choice(g_irreps(G)) for _ in range(rng.randint(2, 3))], rng.choice([None, None, rng.randint(0, 9)])]
    s = rng.choice(g_subs(G))
    if k == "sub" or k == "quot" or k == "restrictreg":
        return [k, G, s]
    if k in ("restrict", "disent"):
        return [k, G, s, rng.choice(g_irreps(G))]
    if k == "ind":
        if G[0] == "O2":
            s = [None, -1]
        return [k, G, s, rng.choice(g_irreps(sub_spec(G, s)))]
    raise ValueError(k)


def many_request(rng, kinds=("C", "D", "SO2", "O2", "subs", "quots", "spaces", "bases", "layers")):
    return ["many", rng.choice(kinds), rng.randint(1, 4), rng.choice([12, 20, 36])]


def gs_request(rng, g=None, kinds=None):
    g = g or gspace_spec(rng, True)
    k = rng.choice(kinds or ["gs", "type", "typerestrict", "gsrestrict", "basis", "basis", "basis", "diffop"])
    if k == "gs":
        return [k, g]
    if k in ("gsrestrict", "typerestrict"):
        s = rng.choice(gs_subs(g))
        return [k, g, s] if k == "gsrestrict" else [k, g, [rr(rng, g) for _ in range(rng.randint(1, 3))], s]
    if k == "type":
        return [k, g, [rr(rng, g) for _ in range(rng.randint(1, 4))]]
    if k == "basis":
        rings = rng.choice([[0., 1.], [0., 1., 2.], [1.], [0., 1.5]])
        a = {"sigma": rng.choice([[0.6] * len(rings), [0.5 + 0.1 * i for i in range(len(rings))]]), "rings": rings}
        a[rng.choice(["maximum_frequency", "maximum_offset"]) if g[0] in ("rot", "fliprot") else "maximum_frequency"] = rng.choice([1, 2, 3])
        if g[0] in ("so2", "o2"):
            a.pop("maximum_frequency")
        return [k, g, rr(rng, g), rr(rng, g), a]
    disc = {"method": "fd"}  # the other methods need a package which is not installed
    if rng.random() < 0.2:
        disc["angle_offset"] = 0.4
    a = {"max_power": rng.choice([0, 1]), "disc": disc}
    if g[0] in ("rot", "fliprot"):
        a[rng.choice(["maximum_frequency", "maximum_offset"])] = rng.choice([1, 2])
    elif g[0] in ("flip", "triv"):
        a["maximum_frequency"] = rng.choice([1, 2])
    return [k, g, rr(rng, g), rr(rng, g), a]


def rr(rng, g):
    if rng.random() < 0.2:
        ids = [rng.choice(irreps(g)[:3]) for _ in range(2)]
        return ["sumq", ids, rng.randint(0, 3)] if rng.random() < 0.5 else ["sum", ids]
    return rep_spec(rng, g)


def gs_subs(g):
    k = g[0]
    if k == "triv":
        return [1]
    if k == "flip":
        return [1]
    if k == "rot":
        return [m for m in range(1, g[1] + 1) if g[1] % m == 0]
    if k == "so2":
        return [1, 2, 3, 4]
    if k == "fliprot":
        return g_subs(["D", g[1]])
    return [[None, -1], [None, 1], [None, 4], [0., 1], [0., 4], [PI / 4, 4]]
