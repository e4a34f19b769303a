"""Groups, representations, subgroups and bases as requests of a simulated process.

A request is JSON: ["group", G], ["irrep", G, id], ["triv", G], ["reg", G], ["quot", G, sid], ["ind", G, sid, rid], ["sub", G, sid],
["restrict", G, sid, rid], ["dsum", G, [ids], qseed or None], ["gs", g], ["type", g, reps], ["basis", g, rin, rout, args],
["diffop", g, rin, rout, args], ["gsrestrict", g, id], ["endom", G, id].
G is ["C", N], ["D", N], ["SO2", f] or ["O2", f]."""
import math
import numpy as np
import torch
from e2cnn import group, gspaces
import e2cnn.nn as enn
from e2cnn.nn import FieldType
from e2cnn.diffops import DiscretizationArgs
from sim import build as B
from sim.build import tup

PI = math.pi


def grp(G):
    k = G[0]
    if k == "C":
        return group.cyclic_group(G[1])
    if k == "D":
        return group.dihedral_group(G[1])
    if k == "SO2":
        return group.so2_group(G[1])
    if k == "O2":
        return group.o2_group(G[1])
    if k == "T":
        return group.trivial_group()
    raise ValueError(G)


def gs_of(ctx, g):
    d = ctx.setdefault("gspaces", {})
    k = repr(g)
    if k not in d:
        d[k] = B.gspace(g)
    return d[k]


def rep_of(gs, r):
    if r[0] == "sumq":
        rs = [gs.irrep(*i) for i in r[1]]
        n = sum(x.size for x in rs)
        q, _ = np.linalg.qr(np.random.RandomState(r[2]).randn(n, n))
        return group.directsum(rs, change_of_basis=q)
    if r[0] == "cb":
        return B.change_of_basis(rep_of(gs, r[1]), r)
    return {"triv": lambda: gs.trivial_repr, "irrep": lambda: gs.irrep(*r[1]), "reg": lambda: gs.regular_repr, "quot": lambda: gs.quotient_repr(tup(r[1])),
            "ind": lambda: gs.induced_repr(tup(r[1]), gs.fibergroup.subgroup(tup(r[1]))[0].irrep(*r[2])),
            "sum": lambda: group.directsum([gs.irrep(*i) for i in r[1]])}[r[0]]()


def request(ctx, q):
    k = q[0]
    if k == "group":
        return grp(q[1])
    if k == "irrep":
        return grp(q[1]).irrep(*q[2])
    if k == "irreps":
        # all irreps (of continuous groups: up to the frequency that was asked for), from the group's dictionary
        G = grp(q[1])
        if G.order() > 0:
            return [G.irreps[n] for n in sorted(G.irreps)]
        return [G.irreps[n] for n in sorted(G.irreps) if G.irreps[n].attributes["frequency"] <= q[1][1]]
    if k == "byname":
        return grp(q[1]).irreps["irrep_" + ",".join(str(i) for i in q[2])]
    if k == "triv":
        return grp(q[1]).trivial_representation
    if k == "reg":
        return grp(q[1]).regular_representation
    if k == "quot":
        return grp(q[1]).quotient_representation(tup(q[2]))
    if k == "ind":
        G = grp(q[1])
        return G.induced_representation(tup(q[2]), G.subgroup(tup(q[2]))[0].irrep(*q[3]))
    if k == "sub":
        return grp(q[1]).subgroup(tup(q[2]))
    if k == "restrict":
        G = grp(q[1])
        return G.restrict_representation(tup(q[2]), G.irrep(*q[3]))
    if k == "restrictreg":
        G = grp(q[1])
        return G.restrict_representation(tup(q[2]), G.regular_representation)
    if k == "dsum":
        G = grp(q[1])
        rs = [G.irrep(*i) for i in q[2]]
        if q[3] is None:
            return group.directsum(rs)
        n = sum(r.size for r in rs)
        o, _ = np.linalg.qr(np.random.RandomState(q[3]).randn(n, n))
        return group.directsum(rs, change_of_basis=o)
    if k == "disent":
        G = grp(q[1])
        return group.disentangle(G.restrict_representation(tup(q[2]), G.irrep(*q[3])))
    if k == "many":
        # a long-lived process meets many groups, subgroups, representations and bases
        _, what, lo, n = q
        if what in ("C", "D"):
            return [grp([what, i]) for i in range(lo, lo + n)]
        if what == "SO2":
            return [grp(["SO2", 1]).irrep(i) for i in range(lo, lo + n)]
        if what == "O2":
            return [grp(["O2", 1]).irrep(1, i) for i in range(lo, lo + n)]
        if what == "subs":
            return [grp(["O2", 1]).subgroup((0.01 * (lo + i), 1 + i % 3)) for i in range(n)]
        if what == "quots":
            G = grp(["D", 12])
            return [G.quotient_representation((f, m)) for m in (1, 2, 3, 4, 6) for f in range(12 // m)][:n]
        if what == "spaces":
            return [B.gspace(["rot", i]) for i in range(max(2, lo), max(2, lo) + n)]
        if what == "bases":
            gs = gs_of(ctx, ["rot", 4])
            r = gs.irrep(1)
            return [gs.build_kernel_basis(r, r, sigma=[0.5 + 0.01 * (lo + i)], rings=[1.], maximum_frequency=2) for i in range(n)]
        if what == "layers":
            gs = gs_of(ctx, ["rot", 2])
            t = FieldType(gs, [gs.regular_repr])
            return [enn.R2Conv(t, t, 3, sigma=0.5 + 0.01 * (lo + i)) for i in range(n)]
        raise ValueError(q)
    if k == "gs":
        return gs_of(ctx, q[1])
    if k == "gsrestrict":
        return gs_of(ctx, q[1]).restrict(tup(q[2]))
    if k == "type":
        gs = gs_of(ctx, q[1])
        return FieldType(gs, [rep_of(gs, r) for r in q[2]])
    if k == "typerestrict":
        gs = gs_of(ctx, q[1])
        return FieldType(gs, [rep_of(gs, r) for r in q[2]]).restrict(tup(q[3]))
    if k == "basis":
        gs = gs_of(ctx, q[1])
        try:
            return gs.build_kernel_basis(rep_of(gs, q[2]), rep_of(gs, q[3]), **q[4])
        except Exception as e:
            if type(e).__name__ == "EmptyBasisException":
                return None
            raise
    if k == "diffop":
        gs = gs_of(ctx, q[1])
        a = dict(q[4])
        disc = DiscretizationArgs(**a.pop("disc"))
        try:
            return gs.build_diffop_basis(rep_of(gs, q[2]), rep_of(gs, q[3]), discretization=disc, **a)
        except Exception as e:
            if type(e).__name__ == "EmptyBasisException":
                return None
            raise
    raise ValueError(q)


def els(G):
    if G.order() > 0:
        return list(G.elements)
    if isinstance(G, group.SO2):
        return [0., 0.3, 1.7, PI, 4.]
    return [(0, 0.), (0, 0.3), (1, 0.), (1, 1.7), (0, 4.), (1, 4.)]


def arr(a):
    return np.asarray(a, dtype=float)


def view(o, q=None):
    """value of an object: plain data, comparable across processes"""
    if o is None:
        return {"empty": True}
    if isinstance(o, group.Representation):
        d = {"name": o.name, "group": o.group.name, "size": o.size, "irreps": list(o.irreps), "nl": sorted(o.supported_nonlinearities),
             "cob": arr(o.change_of_basis), "cobinv": arr(o.change_of_basis_inv), "irreducible": bool(o.irreducible), "trivial": bool(o.is_trivial()),
             "mats": np.stack([arr(o(e)) for e in els(o.group)]), "chars": arr([float(o.character(e)) for e in els(o.group)])}
        if isinstance(o, group.IrreducibleRepresentation):
            d["attr"] = {k: (float(v) if isinstance(v, (int, float, np.number)) else str(v)) for k, v in sorted(o.attributes.items())}
            d["ssc"] = int(o.sum_of_squares_constituents)
        return d
    if isinstance(o, list):
        return {"irreps": [[r.name, r.size, r.irreducible] for r in o], "mats": np.concatenate([arr(r(els(r.group)[-1])).ravel() for r in o])}
    if isinstance(o, group.Group):
        return {"name": o.name, "order": o.order(), "cont": bool(o.continuous), "abel": bool(o.abelian), "id": str(o.identity),
                "mul": [str(o.combine(a, b)) for a in els(o)[:6] for b in els(o)[:6]], "inv": [str(o.inverse(a)) for a in els(o)[:8]],
                "triv": o.trivial_representation.name}
    if isinstance(o, FieldType):
        d = {"repr": repr(o), "size": o.size, "irreps": list(o.irreps), "start": list(o.fields_start), "end": list(o.fields_end),
             "names": [r.name for r in o.representations], "cob": arr(o.change_of_basis.todense() if hasattr(o.change_of_basis, "todense") else o.change_of_basis)}
        d["uniq"] = sorted({r.name for r in o.representations})
        d["reps"] = np.concatenate([arr(r(e)).ravel() for r in o.representations for e in els(o.fibergroup)[:6]])
        return d
    if isinstance(o, gspaces.GSpace):
        return {"name": o.name, "dim": o.dimensionality, "group": view(o.fibergroup), "trivial": o.trivial_repr.name}
    if isinstance(o, tuple) and len(o) == 3 and isinstance(o[0], (group.Group, gspaces.GSpace)):
        G = o[0] if isinstance(o[0], group.Group) else o[0].fibergroup
        up = [o[1](e) for e in els(G)[:8]]
        return {"sub": view(o[0]), "up": [tupf(u) for u in up], "down": [str(rnd(o[2](u))) for u in up]}
    if isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], list):
        return {"cob": arr(o[0]), "parts": [view(r) for r in o[1]]}
    if hasattr(o, "sample"):
        pts = np.random.RandomState(3).randn(2, 7)
        n = len(o)
        d = {"dim": n, "attrs": [sorted((k, str(v)) for k, v in a.items()) for a in o]}
        if type(o).__module__.startswith("e2cnn.diffops"):
            for k in (3, 5, 7):
                try:
                    d[f"values{k}"] = arr(o.sample(grid(k)))
                except (AssertionError, RuntimeError) as e:
                    d[f"values{k}"] = type(e).__name__  # too few points for the order
        else:
            d["values"] = arr(o.sample(pts))
        return d
    raise TypeError(type(o))


def grid(k):
    r = np.arange(-(k // 2), k // 2 + 1)
    y, x = np.meshgrid(r[::-1], r, indexing="ij")
    return np.stack([x.ravel(), y.ravel()]).astype(float)


def tupf(u):
    return [float(i) for i in u] if isinstance(u, tuple) else float(u)


def rnd(e):
    if isinstance(e, tuple):
        return tuple(rnd(i) for i in e)
    return round(e, 9) if isinstance(e, float) else e


# ---- operations
def views(ctx, qs):
    return [view(request(ctx, q)) for q in qs]


def ask(ctx, qs, keep=None):
    """requests one after the other, results kept alive under ``keep``"""
    out = [request(ctx, q) for q in qs]
    if keep is not None:
        ctx.setdefault("kept", {})[keep] = out
    return len(out)


def tryask(ctx, q):
    """a request which may be refused"""
    try:
        request(ctx, q)
        return "ok"
    except Exception as e:
        return type(e).__name__


def abortask(ctx, at, exc, q):
    from sim import seams
    r = seams.Injector(at, exc).run(lambda: request(ctx, q))
    return r[0]
