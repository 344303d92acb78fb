"""Independent reference mathematics (rotation matrices, no DefDAP code).

Conventions: g = Bunge orientation matrix, v_crystal = g @ v_sample.
"""
import itertools

import numpy as np


def bunge(p1, p, p2):
    c1, s1, c, s, c2, s2 = (np.cos(p1), np.sin(p1), np.cos(p), np.sin(p),
                            np.cos(p2), np.sin(p2))
    z1 = np.array([[c1, s1, 0], [-s1, c1, 0], [0, 0, 1]])
    x = np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
    z2 = np.array([[c2, s2, 0], [-s2, c2, 0], [0, 0, 1]])
    return z2 @ x @ z1


def bunge_many(e):
    """e: (3, ...) -> (..., 3, 3)"""
    p1, p, p2 = (np.asarray(a, dtype=float) for a in e)
    c1, s1, c, s, c2, s2 = (np.cos(p1), np.sin(p1), np.cos(p), np.sin(p),
                            np.cos(p2), np.sin(p2))
    g = np.empty(p1.shape + (3, 3))
    g[..., 0, 0] = c1 * c2 - s1 * s2 * c
    g[..., 0, 1] = s1 * c2 + c1 * s2 * c
    g[..., 0, 2] = s2 * s
    g[..., 1, 0] = -c1 * s2 - s1 * c2 * c
    g[..., 1, 1] = -s1 * s2 + c1 * c2 * c
    g[..., 1, 2] = c2 * s
    g[..., 2, 0] = s1 * s
    g[..., 2, 1] = -c1 * s
    g[..., 2, 2] = c
    return g


def rodrigues(axis, angle):
    """Active rotation matrix."""
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    k = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(angle) * k + (1 - np.cos(angle)) * (k @ k)


def closure(gens):
    group = [np.eye(3)]
    frontier = [np.eye(3)]
    while frontier:
        nxt = []
        for m in frontier:
            for g in gens:
                n = g @ m
                if not any(np.allclose(n, x, atol=1e-9) for x in group):
                    group.append(n)
                    nxt.append(n)
        frontier = nxt
    return np.array(group)


CUBIC = closure([rodrigues([0, 0, 1], np.pi / 2),
                 rodrigues([1, 1, 1], 2 * np.pi / 3)])
HEX = closure([rodrigues([0, 0, 1], np.pi / 3), rodrigues([1, 0, 0], np.pi)])
assert len(CUBIC) == 24 and len(HEX) == 12
SYM = {'cubic': CUBIC, 'hexagonal': HEX}
MAX_MISORI = {'cubic': np.deg2rad(62.7994297), 'hexagonal':
              np.deg2rad(93.8412858)}


def quat_to_mat(q):
    """Passive-quaternion components (..., 4) -> g (..., 3, 3), by the
    sandwich product v' = q v q*, written out column by column."""
    q = np.asarray(q, float)
    w, v = q[..., 0], q[..., 1:]
    out = np.empty(q.shape[:-1] + (3, 3))
    for i in range(3):
        e = np.zeros(3)
        e[i] = 1
        t = 2 * np.cross(v, np.broadcast_to(e, v.shape))
        out[..., :, i] = e + w[..., None] * t + np.cross(v, t)
    return out


def cos_half(g1, g2):
    """cos(theta/2) of the rotation taking g1 to g2."""
    tr = np.einsum('...ij,...ij->...', g1, g2)
    return np.sqrt(np.clip((tr + 1) / 4, 0, 1))


def mis_cos_half(g1, g2, sym):
    """Symmetry reduced cos(theta/2); g1, g2 broadcastable (..., 3, 3)."""
    best = None
    for s in SYM[sym]:
        c = cos_half(g1, s @ g2)
        best = c if best is None else np.maximum(best, c)
    return best


def angle_from_cos_half(c):
    return 2 * np.arccos(np.clip(c, -1, 1))


def mis_angle(g1, g2, sym):
    """Symmetry reduced misorientation angle, accurate near zero."""
    best = None
    for s in SYM[sym]:
        d = g1 - s @ g2                        # |d|_F = 2 sqrt2 sin(theta/2)
        n = np.sqrt(np.einsum('...ij,...ij->...', d, d))
        a = 2 * np.arcsin(np.clip(n / (2 * np.sqrt(2)), 0, 1))
        best = a if best is None else np.minimum(best, a)
    return best


def random_eulers(rng, shape=()):
    """Uniform random orientations."""
    if isinstance(shape, int):
        shape = (shape,)
    e = np.empty((3,) + shape)
    e[0] = rng.uniform(0, 2 * np.pi, shape)
    e[1] = np.arccos(rng.uniform(-1, 1, shape))
    e[2] = rng.uniform(0, 2 * np.pi, shape)
    return e


def mat_to_eulers(g):
    """(..., 3, 3) -> (3, ...), generic or degenerate."""
    c = np.clip(g[..., 2, 2], -1, 1)
    s = np.hypot(g[..., 2, 0], g[..., 2, 1])
    p = np.arctan2(s, c)
    gen = s > 1e-9
    p1 = np.where(gen, np.arctan2(g[..., 2, 0], -g[..., 2, 1]),
                  np.arctan2(g[..., 0, 1], g[..., 0, 0]))
    p2 = np.where(gen, np.arctan2(g[..., 0, 2], g[..., 1, 2]), 0.)
    p = np.where(gen, p, np.where(c > 0, 0., np.pi))
    return np.array([np.mod(p1, 2 * np.pi), p, np.mod(p2, 2 * np.pi)])


def rand_quat(rng, n=None):
    q = rng.normal(size=(4,) if n is None else (n, 4))
    return q / np.linalg.norm(q, axis=-1, keepdims=True)


def small_rotation(rng, max_angle):
    ax = rng.normal(size=3)
    return rodrigues(ax, rng.uniform(0, max_angle))


def perturb_eulers(rng, euler, max_angle):
    g = bunge(*euler)
    return mat_to_eulers(small_rotation(rng, max_angle) @ g)


# ---- connected components -------------------------------------------------
def components(n, edges):
    """Union-find labels (0..k-1 by first appearance)."""
    parent = list(range(n))

    def find(a):
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a
    for a, b in edges:
        ra, rb = find(a), find(b)
        if ra != rb:
            parent[max(ra, rb)] = min(ra, rb)
    return np.array([find(i) for i in range(n)])


def same_partition(a, b):
    """Do two label arrays define the same partition?"""
    a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
    pairs = set(zip(a.tolist(), b.tolist()))
    return len(pairs) == len(set(a.tolist())) == len(set(b.tolist()))


# ---- lattice -----------------------------------------------------------
def lattice_vectors_hex(ca, convention):
    """Real-space basis a1, a2, c of a unit hexagonal lattice in the
    orthonormal frame."""
    if convention == 'tsl':      # x // a1
        a1 = np.array([1., 0, 0])
        a2 = np.array([-.5, np.sqrt(3) / 2, 0])
    else:                        # y // a2, x // [10-10]
        a2 = np.array([0., 1, 0])
        a1 = np.array([np.sqrt(3) / 2, -.5, 0])
    return a1, a2, np.array([0, 0, ca])


def hex_dir(mb, ca, convention):
    u, v, t, w = (float(x) for x in mb)
    a1, a2, c = lattice_vectors_hex(ca, convention)
    a3 = -(a1 + a2)
    return u * a1 + v * a2 + t * a3 + w * c


def hex_plane(mb, ca, convention):
    h, k, i, l = (float(x) for x in mb)
    a1, a2, c = lattice_vectors_hex(ca, convention)
    vol = np.dot(a1, np.cross(a2, c))
    return (h * np.cross(a2, c) + k * np.cross(c, a1) +
            l * np.cross(a1, a2)) / vol
