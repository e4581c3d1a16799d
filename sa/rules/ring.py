"""C37: the ring mesh of a cylinder covers the ring once, with the requested radii, grading and boundary names."""
from __future__ import annotations

import math
from collections import Counter
from fractions import Fraction as Q

from .. import alg as A
from .. import fields as F
from ..check import A_of, sharded

N = A.num
NAMES = (None, ('wall', 'in', 'out'), ('a', 'b', 'a'))


def c37(c):
    ri = A.declare('inner', 'pos', Q(1, 4), 3)
    ro = A.declare('outer', 'pos', 20, 1000)
    geom = A.declare('grading', 'pos', Q(4, 5), 2)
    PTS = [{'inner': Q(1, 2), 'outer': Q(40), 'grading': Q(9, 5)}, {'inner': Q(1), 'outer': Q(500), 'grading': Q(1)},
           {'inner': Q(3), 'outer': Q(1000), 'grading': Q(4, 5)}]

    def val(e, pt):
        e = e if isinstance(e, A.E) else A_of(F.cf_of(c.it, e))
        return float(A.evalf(e, {**pt}))

    def build(np_, nr, graded, names, how):
        def go(it):
            f = c.api('dream.mesh', 'get_cylinder_omesh')
            k = {'ri': F.Num(ri), 'ro': F.Num(ro), 'n_polar': np_, 'n_radial': nr}
            if graded:
                k['geom'] = F.Num(geom)
            if names is not None:
                k['bnd'] = names
            m = it.call(f, [], k) if how == 'keywords' else it.call(f, list(k.values())[:4], dict(list(k.items())[4:]))
            return getattr(m, 'built', None)
        return c.run1(go)

    def valid(c, np_, nr, graded, names, how):
        name = f"ring of {np_} x {nr}{' graded' if graded else ''}{'' if names is None else f' named {names}'}"
        o = build(np_, nr, graded, names, how)
        if o.exc or o.value is None:
            c.ob('built', name, False, str(o.exc or 'no mesh of netgen'), o.exc and o.exc.where)
            return 0
        m = o.value
        names = names or ('cylinder', 'left', 'right')
        n_pts = len(m.points)
        c.ob('nodes', f"{name}: dimension", m.dim == 2, f"{m.dim}")
        c.ob('nodes', f"{name}: number of points", n_pts == np_ * (nr + 1), f"{n_pts}")
        c.ob('elements', f"{name}: number of triangles", len(m.tri) == 2 * np_ * nr and all(len(v) == 3 for _, v in m.tri), f"{len(m.tri)}")
        used = {v for _, t in m.tri for v in t}
        c.ob('nodes', f"{name}: every point belongs to a triangle", used == set(range(1, n_pts + 1)), f"{sorted(set(range(1, n_pts + 1)) - used)[:8]}")
        idx = {i for i, _ in m.tri}
        c.ob('elements', f"{name}: one material", len(idx) == 1, f"{idx}")

        directed = Counter()
        for _, t in m.tri:
            for a, b in zip(t, t[1:] + t[:1]):
                directed[a, b] += 1
        twice = sorted(e for e, n in directed.items() if n > 1)
        c.ob('conforming', f"{name}: no edge passed twice in one direction", not twice, f"{twice[:6]}")
        border = {frozenset(e) for e in directed if (e[1], e[0]) not in directed}
        segs = Counter(frozenset(v) for _, v, _ in m.seg)
        c.ob('boundary', f"{name}: every boundary edge once", segs == Counter(border),
             f"missing {[tuple(x) for x in border - set(segs)][:4]}, wrong {[tuple(x) for x in set(segs) - border][:4]}, repeated {[tuple(x) for x, n in segs.items() if n > 1][:4]}")

        for pt in PTS if graded else PTS[:2]:
            g = float(pt['grading']) if graded else 1.
            r0, r1 = float(pt['inner']), float(pt['outer'])
            xy = [(val(p[0], pt), val(p[1], pt), val(p[2], pt)) for p in m.points]
            tol = 1e-9 * r1
            levels = [r0 + (r1 - r0) * (j / nr)**g for j in range(nr + 1)]
            at = [next((j for j, r in enumerate(levels) if abs(math.hypot(x, y) - r) < tol), None) for x, y, _ in xy]
            lab = f"{name} (ri={r0}, ro={r1}, geom={g})"
            c.ob('radii', f"{lab}: layers", Counter(at) == {j: np_ for j in range(nr + 1)} and all(abs(z) < tol for _, _, z in xy),
                 f"points off the layers: {[p for p, j in zip(xy, at) if j is None][:4]}, {dict(Counter(at))}"[:300])
            for j in range(nr + 1):
                an = sorted(math.atan2(y, x) % (2 * math.pi) for (x, y, _), k in zip(xy, at) if k == j)
                d = [b - a for a, b in zip(an, an[1:])] + [an[0] + 2 * math.pi - an[-1]] if an else []
                c.ob('angles', f"{lab}: layer {j} evenly spread", all(abs(x - 2 * math.pi / np_) < 1e-7 for x in d), f"{an[:6]}")
            area, bad = 0., []
            for _, t in m.tri:
                (x0, y0, _), (x1, y1, _), (x2, y2, _) = (xy[v - 1] for v in t)
                a = ((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)) / 2
                area += a
                if a <= 0:
                    bad.append(t)
            c.ob('orientation', f"{lab}: positive area", not bad, f"{bad[:4]}")
            want = np_ / 2 * math.sin(2 * math.pi / np_) * (r1**2 - r0**2)
            c.ob('area', f"{lab}: the ring is covered once", abs(area - want) < 1e-7 * want, f"{area} instead of {want}")

            solids = getattr(m.geometry, 'solids', [])
            for i, v, surf in m.seg:
                a, b = (xy[k - 1] for k in v)
                inner = at[v[0] - 1] == 0
                x = (a[0] + b[0]) / 2
                want = names[0] if inner else names[1] if x < -tol else names[2] if x > tol else '?'
                c.ob('names', f"{lab}: edge {v}", at[v[0] - 1] in (0, nr) and at[v[0] - 1] == at[v[1] - 1] and m.names.get(i - 1) == want,
                     f"{m.names.get(i - 1)!r} instead of {want!r}")
                cyl = [solids[s] for s in surf if isinstance(s, int) and 0 <= s < len(solids) and solids[s].kind == 'Cylinder']
                c.ob('curved', f"{lab}: edge {v} lies on the cylinder of its radius",
                     any(abs(val(s.f['r'], pt) - levels[at[v[0] - 1] or 0]) < tol for s in cyl), f"{surf}")
        return 1

    @sharded
    def meshes(c):
        n = 0
        for np_ in range(4, 29, 4):
            for nr in range(2, np_ // 2 + 1, 2):
                if nr > 6 and nr < np_ // 2 - 2:
                    continue
                if not c.turn():
                    continue
                n += valid(c, np_, nr, nr % 4 == 2, NAMES[(np_ // 4 + nr // 2) % 3], 'keywords' if np_ % 8 else 'positional')
        c.need('ring meshes', n, 20)

    def refuse(c):
        n = 0
        for np_ in range(1, 21):
            for nr in range(1, 14):
                if np_ % 4 == 0 and nr % 2 == 0 and nr <= np_ // 2:
                    continue
                o = build(np_, nr, False, None, 'keywords')
                c.ob('refuse', f"ring of {np_} x {nr}", o.excname == 'ValueError', f"{o.exc or 'accepted'}")
                n += 1
        c.need('refused counts', n, 200)
        for k in ({'boundary_layer_thickness': -0.5}, {'sponge_layer': True, 'farfield_radial_factor': 60., 'sponge_radial_factor': 50.}):
            o = c.run1(lambda it: it.call(c.api('dream.mesh', 'get_cylinder_mesh'), [], dict(k)))
            c.ob('refuse', f"get_cylinder_mesh({', '.join(f'{a}={b}' for a, b in k.items())})", o.excname == 'ValueError', f"{o.exc or 'accepted'}")
    for f in (meshes, refuse):
        c.part(f)


RULES = {'C37': c37}
