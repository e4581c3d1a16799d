"""what netgen's mesh builder records: points, elements, boundary edges with their surfaces, names, solids of a geometry"""
from .interp import Model, HostFn, Unsupported
from .fields import Num


def _int(it, v):
    if isinstance(v, bool) or not isinstance(v, int):
        if isinstance(v, (float, Num)):
            it.throw('TypeError', 'incompatible function arguments: whole number expected')
        raise Unsupported(f"mesh index {v!r}")
    return v


class Rec(Model):
    """record of a constructor call"""

    def __init__(self, kind, **f):
        self.kind, self.tname = kind, kind
        self.f = f

    def __repr__(self):
        return f"{self.kind}({', '.join(f'{k}={v!r}' for k, v in self.f.items())})"

    def getattr(self, it, name):
        alias = {'points': 'vertices'}.get(name, name)
        if alias in self.f:
            return self.f[alias]
        return super().getattr(it, name)


class PointId(Model):
    tname = 'PointId'

    def __init__(self, mesh, nr):
        self.mesh, self.nr_ = mesh, nr

    def __repr__(self):
        return str(self.nr_)

    def __hash__(self):
        return hash(self.nr_)

    def __eq__(self, o):
        return isinstance(o, PointId) and o.mesh is self.mesh and o.nr_ == self.nr_

    def getattr(self, it, name):
        if name == 'nr':
            return self.nr_
        return super().getattr(it, name)


class BuiltMesh(Model):
    tname = 'netgen.Mesh'

    def __init__(self, dim=3):
        self.dim, self.points, self.tri, self.seg, self.faces = dim, [], [], [], []
        self.names, self.materials, self.geometry, self.regions = {}, {}, None, []

    def setattr(self, it, name, v):
        if name != 'dim':
            it.throw('AttributeError', f"can't set attribute {name}")
        self.dim = _int(it, v)

    def vertices(self, it, vs, n):
        vs = it.to_list(vs)
        for v in vs:
            if not isinstance(v, PointId):
                it.throw('TypeError', 'incompatible constructor arguments: a vertex is no point of a mesh')
            if v.mesh is not self:
                it.throw('RuntimeError', 'a vertex belongs to another mesh')
        if len(vs) not in n:
            it.throw('RuntimeError', f"{len(vs)} vertices")
        return [v.nr_ for v in vs]

    def getattr(self, it, name):
        def add(it, x, project_geominfo=False):
            if not isinstance(x, Rec):
                raise Unsupported(f"adding {x!r} to a mesh")
            if x.kind == 'MeshPoint':
                self.points.append(x.f['p'].f['x'])
                return PointId(self, len(self.points))
            if x.kind == 'Element2D':
                self.tri.append((x.f['index'], self.vertices(it, x.f['vertices'], (3, 4))))
                return len(self.tri) - 1
            if x.kind == 'Element1D':
                self.seg.append((x.f['index'], self.vertices(it, x.f['vertices'], (2,)), it.to_list(x.f['surfaces'])))
                return len(self.seg) - 1
            if x.kind == 'FaceDescriptor':
                self.faces.append(x.f)
                return len(self.faces)
            raise Unsupported(f"adding {x!r} to a mesh")

        def name_bc(it, i, n):
            self.names[_int(it, i)] = n

        def material(it, i, n):
            self.materials[_int(it, i)] = n

        def region(it, n, dim):
            self.regions.append((n, dim))
            return len([r for r in self.regions if r[1] == dim])
        f = {'Add': add, 'SetBCName': name_bc, 'SetMaterial': material, 'AddRegion': region,
             'SetGeometry': lambda it, g: setattr(self, 'geometry', g)}.get(name)
        if f:
            return HostFn(name, f)
        if name == 'dim':
            return self.dim
        return super().getattr(it, name)


class Csg(Model):
    tname = 'CSGeometry'

    def __init__(self):
        self.solids = []

    def getattr(self, it, name):
        if name == 'Add':
            return HostFn(name, lambda it, s, **k: self.solids.append(s) or len(self.solids) - 1)
        if name == 'SetBoundingBox':
            return HostFn(name, lambda it, a, b: None)
        raise Unsupported(f"geometry attribute {name}")


def modules():
    """(module, name, value)"""
    H = HostFn
    pnt = H('Pnt', lambda it, x, y, z=0: Rec('Pnt', x=(x, y, z)))
    vec = H('Vec', lambda it, x, y, z=0: Rec('Vec', x=(x, y, z)))

    def point(it, p):
        if not isinstance(p, Rec) or p.kind != 'Pnt':
            it.throw('TypeError', 'MeshPoint(): incompatible constructor arguments')
        return Rec('MeshPoint', p=p)
    yield 'netgen.csg', 'Pnt', pnt
    yield 'netgen.csg', 'Vec', vec
    yield 'netgen.meshing', 'Pnt', pnt
    yield 'netgen.csg', 'Plane', H('Plane', lambda it, p, n: Rec('Plane', p=p, n=n))
    yield 'netgen.csg', 'Cylinder', H('Cylinder', lambda it, a, b, r: Rec('Cylinder', a=a, b=b, r=r))
    yield 'netgen.csg', 'CSGeometry', H('CSGeometry', lambda it: Csg())
    yield 'netgen.meshing', 'Mesh', H('Mesh', lambda it, dim=3: BuiltMesh(dim))
    yield 'netgen.meshing', 'MeshPoint', H('MeshPoint', point)
    yield 'netgen.meshing', 'FaceDescriptor', H('FaceDescriptor', lambda it, surfnr=1, domin=1, domout=0, bc=0: Rec(
        'FaceDescriptor', surfnr=surfnr, domin=domin, domout=domout, bc=bc))
    yield 'netgen.meshing', 'Element2D', H('Element2D', lambda it, index=1, vertices=(), uv=None: Rec(
        'Element2D', index=_int(it, index), vertices=vertices))
    yield 'netgen.meshing', 'Element1D', H('Element1D', lambda it, vertices, surfaces=(), index=0, edgenr=1, trignums=(): Rec(
        'Element1D', index=_int(it, index), vertices=vertices, surfaces=surfaces))
