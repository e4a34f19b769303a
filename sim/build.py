"""Builders and oracles which run inside a simulated process (torch and the library are imported)."""
import hashlib, math, zlib, copy, io
from collections import OrderedDict
import numpy as np
import torch
import e2cnn
from e2cnn import gspaces, group
import e2cnn.nn as enn
from e2cnn.nn import FieldType, GeometricTensor

PI = math.pi
FILTERED = (enn.R2Conv, enn.R2ConvTransposed, enn.R2Diffop)


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, list) else x


def gspace(g):
    k = g[0]
    if k == "triv":
        return gspaces.TrivialOnR2()
    if k == "flip":
        return gspaces.Flip2dOnR2(axis=g[1])
    if k == "rot":
        return gspaces.Rot2dOnR2(N=g[1])
    if k == "so2":
        return gspaces.Rot2dOnR2(N=-1, maximum_frequency=g[1])
    if k == "fliprot":
        return gspaces.FlipRot2dOnR2(N=g[1], axis=g[2])
    if k == "o2":
        return gspaces.FlipRot2dOnR2(N=-1, maximum_frequency=g[1], axis=g[2])
    raise ValueError(g)


def same_group(gs, g):
    fg = gs.fibergroup
    k = g[0]
    if k == "triv":
        return fg.order() == 1
    if k == "flip":
        return isinstance(gs, gspaces.Flip2dOnR2)
    if k == "rot":
        return isinstance(fg, group.CyclicGroup) and fg.order() == g[1] and isinstance(gs, gspaces.Rot2dOnR2)
    if k == "so2":
        return isinstance(fg, group.SO2)
    if k == "fliprot":
        return isinstance(fg, group.DihedralGroup) and fg.order() == 2 * g[1]
    if k == "o2":
        return isinstance(fg, group.O2)


def rep(gs, r, g):
    """representation of gs for spec r (written for group spec g; another group gets a deterministic substitute)"""
    if not same_group(gs, g):
        fg = gs.fibergroup
        # the choice must not depend on which irreps of a continuous group this process happened to build
        if isinstance(fg, group.SO2):
            opts = [gs.trivial_repr] + [gs.irrep(k) for k in range(3)]
        elif isinstance(fg, group.O2):
            opts = [gs.trivial_repr] + [gs.irrep(*k) for k in ((0, 0), (1, 0), (1, 1), (1, 2))]
        else:
            opts = [gs.trivial_repr] + [fg.irreps[n] for n in sorted(fg.irreps)]
        if 0 < fg.order() <= 12:
            opts.append(gs.regular_repr)
        return opts[zlib.crc32(repr(r).encode()) % len(opts)]
    k = r[0]
    if k == "triv":
        return gs.trivial_repr
    if k == "irrep":
        return gs.irrep(*r[1])
    if k == "reg":
        return gs.regular_repr
    if k == "quot":
        return gs.quotient_repr(tup(r[1]))
    if k == "ind":
        sg, _, _ = gs.fibergroup.subgroup(tup(r[1]))
        return gs.induced_repr(tup(r[1]), sg.irrep(*r[2]))
    if k == "sum":
        return group.directsum([gs.irrep(*i) for i in r[1]])
    if k == "cb":
        return change_of_basis(rep(gs, r[1], g), r)
    raise ValueError(r)


def change_of_basis(b, r):
    """a representation in another (well conditioned) basis; those of one representation have the same name, as the direct sums made by the library"""
    rs = np.random.RandomState(r[2])
    u, _ = np.linalg.qr(rs.randn(b.size, b.size))
    v, _ = np.linalg.qr(rs.randn(b.size, b.size))
    return group.change_basis(b, u @ np.diag(rs.uniform(0.6, 1.6, b.size)) @ v, "cb%d" % zlib.crc32(repr(r[1]).encode()), ["gated"])


def orthogonal(t):
    """norms of the fields are invariant"""
    return not any("cb" in r.name for r in t.representations)


def ftype(gs, reps, g):
    memo = {}
    out = []
    for r in reps:
        key = repr(r)
        if key not in memo:
            memo[key] = rep(gs, r, g)
        out.append(memo[key])
    return FieldType(gs, out)


def supp(t, what):
    return all(what in r.supported_nonlinearities for r in t.representations)


def supp_prefix(t, what):
    return all(sum(nl.startswith(what) for nl in r.supported_nonlinearities) == 1 for r in t.representations)


def supp_inorm(t):
    return supp_prefix(t, "induced_norm") and all(
        r.size % int(nl.split("_")[-1]) == 0 for r in t.representations for nl in r.supported_nonlinearities if nl.startswith("induced_norm"))


def has_trivial(t):
    return any(t.fibergroup.irreps[i].is_trivial() for r in t.representations for i in r.irreps)


class Gated2(enn.EquivariantModule):
    """the two-input gated non-linearity as a module with one input"""

    def __init__(self, gates, gated):
        super().__init__()
        self.n = gates.size
        self.gate_type, self.gated_type = gates, gated
        self.nl = enn.GatedNonLinearity2((gates, gated))
        self.in_type = gates + gated
        self.out_type = gated

    def forward(self, x):
        a = GeometricTensor(x.tensor[:, :self.n], self.gate_type)
        b = GeometricTensor(x.tensor[:, self.n:], self.gated_type)
        return self.nl(a, b)

    def evaluate_output_shape(self, s):
        return (s[0], self.out_type.size) + tuple(s[2:])


class Net:
    """a network plus what the oracles need to know about it"""

    def __init__(self, model, spec, gs, in_type, disc, size, maps, exact, kinds):
        self.model, self.spec, self.gs, self.in_type = model, spec, gs, in_type
        self.disc, self.size, self.maps, self.exact, self.kinds = disc, size, maps, exact, kinds

    @property
    def out_type(self):
        return self.model.out_type


def build(spec, seed=None, nested=False):
    """Build the network of a spec.  ``seed``: torch seed set right before (None: use the current random state)."""
    if seed is not None:
        torch.manual_seed(seed)
    g = spec["g"]
    gs = gspace(g)
    t = t0 = ftype(gs, spec["in"], g)
    st = {"H": spec["size"], "disc": False, "exact": True, "maps": [], "kinds": [], "pixelwise": True, "D": spec.get("rect", 0)}
    mods = []
    for kind, p in spec["layers"]:
        keep = (st["H"], st["disc"], st["exact"], len(st["maps"]), len(st["kinds"]), st["pixelwise"], st["D"])
        try:
            new = LAYER[kind](t, p, g, st)
        except ValueError as e:
            if "basis" not in str(e) or "empty" not in str(e):
                raise
            # documented refusal: no equivariant map between these types exists
            new = []
            st["H"], st["disc"], st["exact"], a, b, st["pixelwise"], st["D"] = keep
            del st["maps"][a:]
            del st["kinds"][b:]
        if new:
            st["prev"] = kind
        for m in new:
            mods.append(m)
            t = m.out_type
    if not mods:
        mods = [enn.IdentityModule(t)]
    if nested and len(mods) > 2:
        h = len(mods) // 2
        model = enn.SequentialModule(enn.SequentialModule(*mods[:h]), enn.SequentialModule(*mods[h:]))
    elif spec["size"] % 2 == 0:
        # the documented alternative: an ordered dictionary, whose own order counts (not the names')
        model = enn.SequentialModule(OrderedDict(("m%d" % (len(mods) - i), m) for i, m in enumerate(mods)))
    else:
        model = enn.SequentialModule(*mods)
    n = Net(model, spec, gs, t0, st["disc"], spec["size"], st["maps"], st["exact"], st["kinds"])
    n.pixelwise = st["pixelwise"]
    n.rect = spec.get("rect", 0)
    return n


# ---- layers: (type, params, group spec, state) -> list of modules; deterministic, an inapplicable layer is []
def _spatial(st, k, stride, pad, dil):
    """output size and stride of an exactly symmetric strided window; falls back to stride 1"""
    H = st["H"]
    eff = dil * (k - 1) + 1
    if H + 2 * pad < eff:
        return None
    if stride > 1 and (st["D"] % stride or (H + 2 * pad - eff) % stride != 0 or (H + 2 * pad - eff) // stride + 1 < 3):
        stride = 1
    return (H + 2 * pad - eff) // stride + 1, stride


def _halves(t):
    n = len(t.representations)
    return n % 2 == 0 and all(t.representations[i] == t.representations[i + n // 2] for i in range(n // 2))


def radial(a):
    r = a.get("radius", a.get("order"))
    return float(r) if isinstance(r, (int, float, np.number)) else float(np.sum(r))


BF = {"f_even": lambda a: abs(a["frequency"]) % 2 == 0, "f_odd": lambda a: abs(a["frequency"]) % 2 == 1, "f_le1": lambda a: abs(a["frequency"]) <= 1,
      "f_ge1": lambda a: abs(a["frequency"]) >= 1, "r_le1": lambda a: radial(a) <= 1, "r_ge1": lambda a: radial(a) >= 1, "r_is1": lambda a: radial(a) == 1,
      "r_is2": lambda a: radial(a) == 2, "inner0": lambda a: a["inner_idx"] % 2 == 0, "inner1": lambda a: a["inner_idx"] % 2 == 1}


def options(p):
    o = dict(p.get("opt", {}))
    if "bf" in o:
        o["basis_filter"] = BF[o.pop("bf")]
    return o


def _conv(t, p, g, st):
    reps = p["out"]
    groups = p.get("groups", 1)
    if groups == 2:
        if not _halves(t):
            groups = 1
        else:
            reps = reps[:max(1, len(reps) // 2)] * 2
    out = ftype(t.gspace, reps, g)
    k, dil, pm = p["k"], p["dil"], p.get("pm", "zeros")
    if k == 1:
        dil = 1
    pad = dil * (k - 1) // 2 if p["pad"] == "same" else 0
    if pad == 0:
        pm = "zeros"
    if pm == "reflect" and pad >= st["H"] or pm == "circular" and pad > st["H"]:
        pm = "zeros"
    s = _spatial(st, k, p["stride"], pad, dil)
    if s is None or s[0] < 1:
        return []
    opt = options(p)
    if "rings" in opt:
        off = 0. if opt["rings"] is True else opt["rings"]
        opt = {"rings": [i + off if i else 0. for i in range((k - 1) // 2 + 1)]} if k > 1 and dil == 1 else {}
    m = enn.R2Conv(t, out, k, padding=pad, stride=s[1], dilation=dil, padding_mode=pm, groups=groups, bias=p["bias"], **opt)
    st["H"] = s[0]
    st["D"] //= s[1]
    st["kinds"].append("conv")
    if k > 1:
        st["pixelwise"] = False
    return [m]


def _tconv(t, p, g, st):
    reps = p["out"]
    groups = p.get("groups", 1)
    if groups == 2:
        if not _halves(t):
            groups = 1
        else:
            reps = reps[:max(1, len(reps) // 2)] * 2
    out = ftype(t.gspace, reps, g)
    k, dil = p["k"], p["dil"]
    pad = dil * (k - 1) // 2 if p["pad"] == "same" else 0
    stride = p["stride"] if st["H"] <= 7 else 1
    H = (st["H"] - 1) * stride - 2 * pad + dil * (k - 1) + 1 + p.get("op", 0)
    if H < 3 or H > 15:
        return []
    op = p.get("op", 0) if stride > 1 or dil > 1 else 0
    opt = options(p)
    m = enn.R2ConvTransposed(t, out, k, padding=pad, output_padding=op, stride=stride, dilation=dil, groups=groups, bias=p["bias"], **opt)
    if m.weights.numel() == 0:
        return []
    if op:
        st["exact"] = False
    st["H"] = H - p.get("op", 0) + op
    st["D"] *= stride
    st["kinds"].append("tconv")
    st["pixelwise"] = False
    return [m]


def _diffop(t, p, g, st):
    reps = p["out"]
    groups = p.get("groups", 1)
    if groups == 2:
        if not _halves(t):
            groups = 1
        else:
            reps = reps[:max(1, len(reps) // 2)] * 2
    out = ftype(t.gspace, reps, g)
    k, dil = p["k"], p["dil"]
    pad = dil * (k - 1) // 2 if p["pad"] == "same" else 0
    s = _spatial(st, k, p["stride"], pad, dil)
    if s is None or s[0] < 1:
        return []
    opt = options(p)
    if "angle_offset" in opt and g[0] not in ("rot", "so2", "triv"):
        opt = {}
    pm = p.get("pm", "zeros") if pad else "zeros"
    if pm == "reflect" and pad >= st["H"] or pm == "circular" and pad > st["H"]:
        pm = "zeros"
    m = enn.R2Diffop(t, out, kernel_size=k, padding=pad, stride=s[1], dilation=dil, groups=groups, bias=p["bias"], padding_mode=pm, **opt)
    st["H"] = s[0]
    st["D"] //= s[1]
    st["kinds"].append("diffop")
    st["pixelwise"] = False
    return [m]


def bn_candidates(t):
    c = []
    if supp(t, "pointwise"):
        c.append("inner")
    if supp(t, "norm") and not has_trivial(t):
        c.append("norm")
    if all("." not in r.name for r in t.representations):
        c.append("gnorm")
    if supp_inorm(t) and not has_trivial(t):
        c.append("inorm")
    return c


BN = {"inner": enn.InnerBatchNorm, "norm": enn.NormBatchNorm, "gnorm": enn.GNormBatchNorm, "inorm": enn.InducedNormBatchNorm}


def _bn(t, p, g, st):
    c = bn_candidates(t)
    if not c:
        return []
    k = c[p["r"] % len(c)]
    st["kinds"].append("bn_" + k)
    return [BN[k](t, eps=p["eps"], momentum=p["momentum"], affine=p["affine"])]


def _nonlin(t, p, g, st):
    r = p["r"]
    gs = t.gspace
    c = []
    if supp(t, "pointwise"):
        c += ["relu", "elu", "pw"]
    if supp(t, "norm"):
        c += ["norm", "norm"]
    if supp(t, "gated"):
        c += ["gated", "gated2"]
    if supp(t, "concatenated") and not t.fibergroup.continuous and t.fibergroup.order() > 1 and t.size <= 12 and all(q.name == "regular" for q in t.representations):
        c += ["concat"]
    if supp(t, "vectorfield") and all(q.name == "regular" and q.size == gs.fibergroup.order() for q in t.representations) and gs.fibergroup.order() > 2:
        c += ["vector"]
    if supp_inorm(t):
        c += ["inorm"]
    if all(q.name.startswith("induced[") and sum(nl.startswith("induced_gated") for nl in q.supported_nonlinearities) == 1 for q in t.representations) and isinstance(gs.fibergroup, (group.CyclicGroup, group.DihedralGroup)):
        c += ["igated", "igated"]
    if not c:
        return []
    k = c[r % len(c)]
    q = r // 16
    st["kinds"].append("nl_" + k)
    if k == "relu":
        return [enn.ReLU(t, inplace=bool(q % 2) and st.get("prev") in ("conv", "tconv", "diffop"))]
    if k == "elu":
        return [enn.ELU(t, alpha=[1.0, 0.5][q % 2], inplace=False)]
    if k == "pw":
        return [enn.PointwiseNonLinearity(t, ["p_relu", "p_sigmoid", "p_tanh", "p_elu"][q % 4])]
    if k == "norm":
        f = ["n_relu", "n_sigmoid", "squash"][q % 3]
        return [enn.NormNonLinearity(t, f, bias=(f != "squash") and q % 3 != 0)]
    if k == "inorm":
        f = ["n_relu", "n_sigmoid", "squash"][q % 3]
        return [enn.InducedNormNonLinearity(t, f, bias=(f != "squash") and q % 3 != 0)]
    if k == "concat":
        return [enn.ConcatenatedNonLinearity(t, ["c_relu", "c_sigmoid", "c_tanh"][q % 3])]
    if k == "vector":
        st["disc"] = True
        return [enn.VectorFieldNonLinearity(t)]
    if k in ("gated", "gated2"):
        n = len(t)
        triv = FieldType(gs, [gs.trivial_repr] * n)
        if k == "gated":
            if q % 2:
                full = triv + t
                labels = None if q % 4 == 1 else ["gate"] * n + ["gated"] * n
            else:
                # interleaved gates
                full = FieldType(gs, [x for pr in zip(t.representations, triv.representations) for x in pr])
                labels = ["gated", "gate"] * n
            drop = q % 3 != 0
            return [enn.R2Conv(t, full, 1), enn.GatedNonLinearity1(full, gates=labels, drop_gates=drop)]
        full = triv + t
        return [enn.R2Conv(t, full, 1), Gated2(triv, t)]
    if k == "igated":
        gates = []
        for rp in t.representations:
            sid = rp.name[len("induced["):].split("][")[0]
            gates.append(gs.quotient_repr(eval(sid)))
        if len({x.size for x in gates}) > 1:
            st["kinds"].pop()
            return []
        gt = FieldType(gs, gates)
        n = len(t)
        if q % 3 == 1:
            # interleaved gates
            full = FieldType(gs, [x for pr in zip(t.representations, gates) for x in pr])
            labels = ["gated", "gate"] * n
        else:
            full = gt + t
            labels = ["gate"] * n + ["gated"] * n
        return [enn.R2Conv(t, full, 1), enn.InducedGatedNonLinearity1(full, gates=labels, drop_gates=q % 2 == 0)]
    raise ValueError(k)


def _pool(t, p, g, st):
    r = p["r"]
    H = st["H"]
    c = ["avg", "avgaa"] + (["normmax"] if orthogonal(t) else [])
    if supp(t, "pointwise"):
        c += ["max", "max", "maxaa", "amax", "aavg"]
    k = c[r % len(c)]
    q = r // 16
    if H < 4:
        return []
    ks, pad, s = [(3, 1, 2), (3, 1, 1), (2, 0, 2), (3, 0, 1), (3, 0, 2)][q % 5]
    if p.get("asym") and k in ("max", "avg") and H >= 5:
        # windows which differ along the axes (not equivariant to all rotations)
        ks, pad, dil = [((3, 1), (1, 0), 1), ((1, 3), (0, 1), 1), ((3, 5), (1, 2), 1), ((5, 3), (2, 1), 1), ((3, 3), (1, 1), 1), ((2, 3), (1, 1), (2, 1)), ((3, 2), (1, 1), (1, 2))][q % 7]
        if k == "avg" and dil != 1:
            ks, pad, dil = (3, 1), (1, 0), 1
        st["exact"] = st["pixelwise"] = False
        st["kinds"].append("pool_asym_" + k)
        return [enn.PointwiseMaxPool(t, ks, stride=1, padding=pad, dilation=dil) if k == "max" else enn.PointwiseAvgPool(t, ks, stride=1, padding=pad)]
    if k in ("max", "avg", "normmax"):
        if (H + 2 * pad - ks) % s or st["D"] % s:
            ks, pad, s = 3, 1, 1
        H2 = (H + 2 * pad - ks) // s + 1
        if H2 < 2:
            return []
        st["pixelwise"] = False
        st["kinds"].append("pool_" + k)
        st["H"] = H2
        st["D"] //= s
        if k == "normmax":
            st["disc"] = True
            return [enn.NormMaxPool(t, ks, stride=s, padding=pad)]
        return [(enn.PointwiseMaxPool if k == "max" else enn.PointwiseAvgPool)(t, ks, stride=s, padding=pad)]
    st["pixelwise"] = False
    if k == "avgaa":
        s = 2 if (H - 1) % 2 == 0 and H >= 5 and st["D"] % 2 == 0 else 1
        st["kinds"].append("pool_avgaa")
        st["H"] = (H - 1) // s + 1
        st["D"] //= s
        return [enn.PointwiseAvgPoolAntialiased(t, sigma=[0.6, 0.5][q % 2], stride=s)]
    if k == "maxaa":
        ks, pad = (3, q % 2)
        H1 = H + 2 * pad - ks + 1 + 2 * pad  # the library pads both the maximum and the blur
        s = 2 if (H1 - 1) % 2 == 0 and H1 >= 5 and st["D"] % 2 == 0 else 1
        if H1 < 3:
            return []
        st["kinds"].append("pool_maxaa")
        st["H"] = (H1 - 1) // s + 1
        st["D"] //= s
        return [enn.PointwiseMaxPoolAntialiased(t, ks, stride=s, padding=pad)]
    o = [3, 2, 4][q % 3]
    st["kinds"].append("pool_" + k)
    st["H"] = o
    st["D"] = 0
    return [(enn.PointwiseAdaptiveMaxPool if k == "amax" else enn.PointwiseAdaptiveAvgPool)(t, o)]


def _drop(t, p, g, st):
    st["kinds"].append("drop")
    if p["r"] % 3 == 0 and supp(t, "pointwise"):
        return [enn.PointwiseDropout(t, p=p["p"], inplace=p["inplace"])]
    return [enn.FieldDropout(t, p=p["p"], inplace=p["inplace"])]


def _shuf(t, p, g, st):
    perm = list(np.random.RandomState(p["r"]).permutation(len(t)))
    st["kinds"].append("shuf")
    return [enn.ReshuffleModule(t, [int(i) for i in perm])]


def _dis(t, p, g, st):
    if t.size > 16 or any(r.size > 8 for r in t.representations):
        return []
    st["kinds"].append("dis")
    return [enn.DisentangleModule(t)]


def restriction_ids(gs):
    fg = gs.fibergroup
    if isinstance(gs, gspaces.Flip2dOnR2):
        return [1]
    if isinstance(fg, group.CyclicGroup):
        N = fg.order()
        return [m for m in range(1, N) if N % m == 0]
    if isinstance(fg, group.SO2):
        return [1, 2, 4, 3]
    if isinstance(fg, group.DihedralGroup):
        N = fg.rotation_order
        out = []
        for m in range(1, N + 1):
            if N % m == 0:
                out.append((None, m))
                if m < N:
                    out += [(f, m) for f in range(N // m)]
        return out
    if isinstance(fg, group.O2):
        return [(None, -1), (None, 4), (0., 4), (0., 1), (0., 2), (PI / 4, 4), (PI / 2, 1), (None, 1), (PI / 2, 2), (PI / 2, 3), (PI, 1), (PI / 2, 2)]
    return []


def child_map(gs, i):
    """maps an element of the group to the same element of the subgroup (None if it is not there)"""
    fg = gs.fibergroup

    def div(a, period, m):
        # the multiple of period / m which a is, modulo m
        k = a * m / period
        return None if abs(k - round(k)) > 1e-6 else int(round(k)) % m

    if isinstance(gs, gspaces.Flip2dOnR2):
        return lambda e: 0 if e == 0 else None
    if isinstance(fg, group.CyclicGroup):
        return lambda e, N=fg.order(): div(e, N, i)
    if isinstance(fg, group.SO2):
        return lambda e: div(e, 2 * PI, i)
    cont = isinstance(fg, group.O2)
    period = 2 * PI if cont else fg.rotation_order
    axis, m = i

    def child(e):
        f, a = e
        if axis is None:
            if f:
                return None
            return a if m == -1 else div(a, period, m)
        k = div(a - f * axis, period, m)
        if k is None:
            return None
        return f if m == 1 else (f, k)

    return child


def _restrict(t, p, g, st):
    ids = restriction_ids(t.gspace)
    if not ids:
        return []
    i = ids[p["r"] % len(ids)]
    m = enn.RestrictionModule(t, i)
    st["maps"].append(child_map(t.gspace, i))
    st["kinds"].append("restrict")
    if (p["r"] // 64) % 2 and all(r.size <= 8 for r in m.out_type.representations) and m.out_type.size <= 16:
        return [m, enn.DisentangleModule(m.out_type)]
    return [m]


def _up(t, p, g, st):
    if st["H"] > 5:
        return []
    r = p["r"]
    st["pixelwise"] = False
    st["kinds"].append("up")
    if r % 3 == 0:
        H = st["H"] * 2
        m = enn.R2Upsampling(t, scale_factor=2, mode="nearest")
    elif r % 3 == 1:
        H = st["H"] * 2
        m = enn.R2Upsampling(t, scale_factor=2, mode="bilinear", align_corners=bool(r // 3 % 2))
    else:
        H = st["H"] + 3
        m = enn.R2Upsampling(t, size=H, mode="bilinear", align_corners=bool(r // 3 % 2))
    st["H"] = H
    st["D"] = st["D"] * 2 if r % 3 < 2 else 0
    return [m]


def _mask(t, p, g, st):
    if st["D"]:
        return []
    st["pixelwise"] = False
    st["kinds"].append("mask")
    return [enn.MaskModule(t, st["H"], margin=[0.0, 1.0][p["r"] % 2])]


def _multi(t, p, g, st):
    n = len(t)
    if n < 2:
        return []
    rs = np.random.RandomState(p["r"])
    labels = ["a" if rs.rand() < 0.5 else "b" for _ in range(n)]
    if len(set(labels)) < 2:
        labels[0] = "b" if labels[0] == "a" else "a"
    # names of labels in an order that differs from the order of appearance
    mods = []
    resh = p["r"] % 3
    branch = t.group_by_labels(labels)
    if resh == 2:
        branch = {l: b.sorted() for l, b in branch.items()}
    for lab in sorted(set(labels), reverse=bool(p["r"] % 2)):
        bt = branch[lab]
        c = ["id"]
        if supp(bt, "pointwise"):
            c += ["elu", "inner"]
        if supp(bt, "norm"):
            c += ["norm"]
        k = c[rs.randint(len(c))]
        m = {"id": lambda: enn.IdentityModule(bt), "elu": lambda: enn.ELU(bt), "inner": lambda: enn.InnerBatchNorm(bt),
             "norm": lambda: enn.NormNonLinearity(bt)}[k]()
        mods.append((m, lab))
    st["kinds"].append("multi")
    return [enn.MultipleModule(t, labels, mods, reshuffle=resh)]


def _gpool(t, p, g, st):
    c = ["norm"] if orthogonal(t) else []
    if supp(t, "pointwise"):
        c.append("group")
    if supp_inorm(t):
        c.append("inorm")
    if not c:
        return []
    k = c[p["r"] % len(c)]
    st["kinds"].append("inv_" + k)
    return [{"norm": enn.NormPool, "group": enn.GroupPooling, "inorm": enn.InducedNormPool}[k](t)]


def _idt(t, p, g, st):
    return [enn.IdentityModule(t)]


class Residual(enn.EquivariantModule):
    """x + f(x), as in residual networks"""

    def __init__(self, body, style):
        super().__init__()
        self.body, self.style = body, style
        self.in_type = self.out_type = body.in_type

    def forward(self, x):
        y = self.body(x)
        if self.style == 0:
            return x + y
        if self.style == 1:
            y += x
            return y
        return 0.5 * x - y * 2.

    def evaluate_output_shape(self, s):
        return tuple(s)


class SplitCat(enn.EquivariantModule):
    """the fields are split, one part goes through a layer, and the parts are put together in another order"""

    def __init__(self, t, k, layer):
        super().__init__()
        self.k, self.layer = k, layer
        self.in_type = t
        a = FieldType(t.gspace, t.representations[:k])
        self.out_type = layer.out_type + a

    def forward(self, x):
        a, b = x.split([self.k])
        return enn.tensor_directsum([self.layer(b), a])

    def evaluate_output_shape(self, s):
        return (s[0], self.out_type.size) + tuple(s[2:])


def _res(t, p, g, st):
    body = enn.R2Conv(t, t, 3, padding=1, bias=p["r"] % 2 == 0)
    st["kinds"].append("res")
    st["pixelwise"] = False
    return [Residual(body, p["r"] // 2 % 3)]


def _cat(t, p, g, st):
    if len(t) < 2:
        return []
    k = 1 + p["r"] % (len(t) - 1)
    b = FieldType(t.gspace, t.representations[k:])
    layer = enn.R2Conv(b, b, 3, padding=1) if p["r"] % 3 else enn.FieldDropout(b, 0.2) if p["r"] % 2 else enn.IdentityModule(b)
    st["kinds"].append("cat")
    if p["r"] % 3:
        st["pixelwise"] = False
    elif p["r"] % 2:
        st["kinds"].append("drop")
    return [SplitCat(t, k, layer)]


LAYER = {"res": _res, "cat": _cat, "conv": _conv, "tconv": _tconv, "diffop": _diffop, "bn": _bn, "nonlin": _nonlin, "pool": _pool, "drop": _drop,
         "shuf": _shuf, "dis": _dis, "restrict": _restrict, "up": _up, "mask": _mask, "multi": _multi, "gpool": _gpool, "idt": _idt}


# ---- data
def data(net, seed, batch=2, dtype=torch.float32):
    x = np.random.RandomState(seed % (2 ** 31)).randn(batch, net.in_type.size, net.size, net.size + net.rect)
    return GeometricTensor(torch.tensor(x, dtype=dtype), net.in_type)


def perturb(model, seed, scale=0.3, types=(torch.nn.Parameter,)):
    """move every parameter (as training would), deterministically and without touching torch's generator"""
    rs = np.random.RandomState(seed % (2 ** 31))
    with torch.no_grad():
        for _, p in sorted(model.named_parameters()):
            if not p.requires_grad:
                continue
            p += torch.tensor(scale * rs.randn(*p.shape), dtype=p.dtype)


def loss_of(y, seed):
    w = torch.tensor(np.random.RandomState(seed % (2 ** 31)).randn(*y.tensor.shape), dtype=y.tensor.dtype)
    return ((y.tensor - w) ** 2).mean()


# ---- hashing
def th(t):
    """exact hash of a tensor"""
    a = t.detach().cpu().contiguous().numpy()
    return hashlib.sha256(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes()).hexdigest()[:16]


def state_hash(model, params_only=False):
    h = hashlib.sha256()
    items = list(model.named_parameters())
    if not params_only:
        items += list(model.named_buffers())
    for n, t in items:
        h.update(n.encode())
        h.update(th(t).encode())
    return h.hexdigest()[:16]


def basis_ids(model):
    """names of the learnable weights of the filters, and where the library says each of them acts"""
    out = []
    for n, m in model.named_modules():
        if isinstance(m, FILTERED):
            e = m.basisexpansion
            names = [str(i) for i in e.get_basis_names()]
            info = list(e.get_basis_info())
            k = ("id", "idx", "in_field_position", "out_field_position", "in_irreps_position", "out_irreps_position")
            out.append([n, names, [[str(a.get(i)) for i in k] for a in info], [str(e.get_element_info(i)["id"]) for i in range(min(e.dimension(), 6))]])
    return out


def layout(model):
    return ([(n, list(p.shape), str(p.dtype)) for n, p in model.named_parameters()],
            [(n, list(b.shape), str(b.dtype)) for n, b in model.named_buffers()], basis_ids(model))


def close(a, b, tol=1e-4):
    a = torch.as_tensor(a); b = torch.as_tensor(b)
    if a.shape != b.shape:
        return False
    if not (torch.isfinite(a).all() and torch.isfinite(b).all()):
        return bool(torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)))
    a = a.double(); b = b.double()
    s = max(float(a.abs().max()) if a.numel() else 0., float(b.abs().max()) if b.numel() else 0., 1e-3)
    return bool((a - b).abs().max() <= tol * s) if a.numel() else True


def diff(a, b):
    a = torch.as_tensor(a).double(); b = torch.as_tensor(b).double()
    if a.shape != b.shape:
        return f"shapes {tuple(a.shape)} vs {tuple(b.shape)}"
    return f"max diff {float((a-b).abs().max()):.3g} of scale {float(a.abs().max()):.3g}"


# ---- symmetry action, written independently of the library
def plane_matrix(g, e):
    """orthogonal 2x2 matrix (x right, y up) by which group element e moves the plane"""
    k = g[0]
    f, th_ = 0, 0.
    if k == "flip":
        f = int(e)
        th_ = 2 * g[1] * f
    elif k == "rot":
        th_ = 2 * PI * e / g[1]
    elif k == "so2":
        th_ = e
    elif k == "fliprot":
        f, th_ = int(e[0]), 2 * PI * e[1] / g[1] + (2 * g[2] if e[0] else 0.)
    elif k == "o2":
        f, th_ = int(e[0]), e[1] + (2 * g[2] if e[0] else 0.)
    c, s = math.cos(th_), math.sin(th_)
    M = np.array([[c, -s], [s, c]])
    if f:
        M = M @ np.array([[1., 0.], [0., -1.]])
    return M


def grid_perm(M, H, W=None):
    """index gather implementing x -> x o M^{-1} on an H x W grid, or None if M does not preserve the grid"""
    W = H if W is None else W
    R = np.round(M)
    if np.abs(M - R).max() > 1e-6:
        return None
    h, w = (H, W) if abs(R[0, 0]) > 0.5 else (W, H)
    ii, jj = np.meshgrid(np.arange(h), np.arange(w), indexing="ij")
    pts = np.stack([jj - (w - 1) / 2, (h - 1) / 2 - ii]).reshape(2, -1)
    src = R.T @ pts
    j = np.round(src[0] + (W - 1) / 2).astype(int)
    i = np.round((H - 1) / 2 - src[1]).astype(int)
    return torch.tensor((i * W + j).reshape(h, w))


def act_plane(x, M):
    H, W = x.shape[-2:]
    return x.reshape(x.shape[0], x.shape[1], -1)[..., grid_perm(M, H, W)]


def act_fiber(x, t, e):
    out = torch.empty_like(x)
    p = 0
    for r in t.representations:
        m = torch.tensor(np.asarray(r(e)), dtype=x.dtype)
        out[:, p:p + r.size] = torch.einsum("oi,bihw->bohw", m, x[:, p:p + r.size])
        p += r.size
    return out


def elements(g):
    k = g[0]
    if k == "triv":
        return [0]
    if k == "flip":
        return [0, 1]
    if k == "rot":
        return list(range(g[1]))
    if k == "so2":
        return [i * PI / 2 for i in range(4)]
    if k == "fliprot":
        return [(f, i) for f in (0, 1) for i in range(g[1])]
    if k == "o2":
        base = [(0, i * PI / 2) for i in range(4)]
        return base + [(1, i * PI / 2) for i in range(4)] + [(1, (i * PI / 2 - 2 * g[2]) % (2 * PI)) for i in range(4)]


def testable(net):
    """(element, its image in the output space's group, plane matrix) for the grid symmetries of the network"""
    out = []
    g = net.spec["g"]
    for e in elements(g):
        M = plane_matrix(g, e)
        if grid_perm(M, 5) is None:
            continue
        eo = e
        for child in net.maps:
            eo = child(eo)
            if eo is None:
                break
        if eo is None:
            continue
        out.append((e, eo, M))
    return out


def all_elements(net):
    g = net.spec["g"]
    out = []
    es = elements(g) if g[0] not in ("so2", "o2") else ([0.3, 1.1, 2.9] if g[0] == "so2" else [(0, 0.3), (1, 0.), (1, 2.2), (0, 2.9), (1, PI / 2), (0, PI / 2), (1, 2 * PI / 3 + PI / 2)])
    for e in es:
        eo = e
        for child in net.maps:
            eo = child(eo)
            if eo is None:
                break
        if eo is not None:
            out.append((e, eo, None))
    return out


def forward(net, x):
    return net.model(x)


def _ill_conditioned(net, fwd, x):
    """Does some layer work at a point where its function jumps, so that rounding decides the result?  (A vector field
    non-linearity choosing between nearly equal orientations, the direction of a nearly vanishing vector.)"""
    bad = []

    def vec(m, inp):
        f = inp[0].tensor.detach()
        n = m.in_type.representations[0].size
        v = f.reshape(f.shape[0], -1, n, *f.shape[2:]).topk(2, dim=2)[0]
        gap = (v[:, :, 0] - v[:, :, 1])[v[:, :, 0] > 1e-6]
        bad.append(bool(gap.numel()) and float(gap.min()) < 1e-5 * max(float(f.abs().max()), 1e-6))

    def norm(m, inp):
        f = inp[0].tensor.detach()
        s = float(f.abs().max())
        p = 0
        for r in m.in_type.representations:
            parts = [r.size]
            if isinstance(m, enn.InducedNormNonLinearity):
                k = [int(nl.split("_")[-1]) for nl in r.supported_nonlinearities if nl.startswith("induced_norm")][0]
                parts = [k] * (r.size // k)
            for k in parts:
                v = f[:, p:p + k].norm(dim=1)
                p += k
                if bool(((v > 0) & (v < 1e-4 * s)).any()):
                    bad.append(True)
                    return

    def nmax(m, inp):
        f = inp[0].tensor.detach()
        s = float(f.abs().max())
        p = 0
        for r in m.in_type.representations:
            v = f[:, p:p + r.size].norm(dim=1, keepdim=True)
            p += r.size
            u = torch.nn.functional.unfold(v, m.kernel_size, padding=m.padding, stride=m.stride).topk(2, dim=1)[0]
            if bool(((u[:, 0] - u[:, 1] < 1e-5 * s) & (u[:, 0] > 1e-5 * s)).any()):
                bad.append(True)
                return

    hs = []
    for m in net.model.modules():
        if isinstance(m, enn.NormMaxPool):
            hs.append(m.register_forward_pre_hook(nmax))
        if isinstance(m, enn.VectorFieldNonLinearity):
            hs.append(m.register_forward_pre_hook(vec))
        elif isinstance(m, (enn.NormNonLinearity, enn.InducedNormNonLinearity)):
            hs.append(m.register_forward_pre_hook(norm))
    if not hs:
        return False
    try:
        fwd(x)
    finally:
        for h in hs:
            h.remove()
    return any(bad)


def equi_violations(net, xs, fwd=None, tol=2e-3, elems=None):
    """Equivariance of the network's function.  A mismatch counts when at least two thirds of the inputs show it
    (functions with ties, e.g. maxima of norms, may differ on isolated inputs)."""
    fwd = fwd or (lambda x: net.model(x))
    bad = {}
    ys = [fwd(x) for x in xs]
    keep = []
    for i, (x, y) in enumerate(zip(xs, ys)):
        if _ill_conditioned(net, fwd, x):
            continue
        if net.disc:
            # a maximum of norms or orientations jumps at ties: only judge inputs near which the function is continuous
            z = torch.tensor(np.random.RandomState(i).randn(*x.tensor.shape), dtype=x.tensor.dtype)
            y2 = fwd(GeometricTensor(x.tensor * (1 + 1e-4 * z) + 1e-4 * z, x.type))
            if float((y2.tensor - y.tensor).detach().abs().max()) > 0.02 * max(float(y.tensor.detach().abs().max()), 1e-2):
                continue
        keep.append(i)
    xs, ys = [xs[i] for i in keep], [ys[i] for i in keep]
    if not xs:
        return bad
    for (e, eo, M) in (elems if elems is not None else testable(net)):
        n = 0
        worst = 0.
        for j, (x, y) in enumerate(zip(xs, ys)):
            if (n + len(xs) - j) * 3 < 2 * len(xs):
                break       # decided
            xi = x.tensor
            if M is not None:
                xi = act_plane(xi, M)
            xi = act_fiber(xi, net.in_type, e)
            y2 = fwd(GeometricTensor(xi, net.in_type)).tensor
            yt = y.tensor
            if M is not None:
                yt = act_plane(yt, M)
            yt = act_fiber(yt, net.out_type, eo)
            s = max(float(yt.detach().abs().max()), 1e-2)
            err = float((yt - y2).detach().abs().max()) / s
            worst = max(worst, err) if err == err else float("nan")
            if not err <= tol:
                n += 1
        if n * 3 >= 2 * len(xs):
            bad[str(e)] = worst
    return bad
