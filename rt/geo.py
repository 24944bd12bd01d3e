"""geometries used by the runtime contracts"""
import numpy as np
from exact_diag.ed_geometry import Geometry, Lattice


def chain(n, periodic=False, phase=0.):
    return Geometry.createSquareGeometry(n, 1, phase, 0., not periodic, True)


def random_graph(rng, n, p=0.5, phases=False):
    a = np.triu((rng.random((n, n)) < p).astype(float), 1)
    a = a + a.T
    xs = rng.normal(size=n) * 2
    ys = rng.normal(size=n) * 2
    return Geometry.createNonPeriodicGeometry(xs, ys, a)


def fermion_geoms(rng, big=False):
    out = [("one site", Geometry.createNonPeriodicGeometry([0], [0])),
           ("open pair", chain(2)),
           ("open chain 3", chain(3)),
           ("ring 3", chain(3, True)),
           ("ring 3 twisted", chain(3, True, 0.7)),
           ("ring 4 twisted -pi/3", chain(4, True, -np.pi / 3)),
           ("square 2x2 open", Geometry.createSquareGeometry(2, 2, 0, 0, True, True)),
           ("triangle oblique", Geometry.createNonPeriodicGeometry([0, 1, .5], [0, 0, np.sqrt(3) / 2])),
           ("random graph 3", random_graph(rng, 3, .8)),
           ("random graph 4", random_graph(rng, 4, .6)),
           ("disconnected 3", Geometry.createNonPeriodicGeometry([0, 3, 6], [0, 1, 0], np.zeros((3, 3))))]
    if big:
        out += [("ring 5 twisted", chain(5, True, 1.3)), ("random graph 5", random_graph(rng, 5, .5)),
                ("square 3x2 twisted", Geometry.createSquareGeometry(3, 2, .4, 0, False, True)),
                ("chain 6", chain(6))]
    return out
