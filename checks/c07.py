"""C07: slip systems are geometrically valid and grouped exactly once."""
import os

import numpy as np

from vt import ref
from vt.core import Stream
from checks.c06 import Convention, mb
from defdap import defaults
from defdap.crystal import crystalStructures, SlipSystem, Phase

PROPERTY = 'C07'
RULE = ('the six shipped slip system files and generated files (random '
        'systems of random families in random order and sign) x c/a x '
        'convention x grouping; malformed files; distinct by file content '
        'and settings')
ASSUMPTIONS = ['generated systems have coprime indices', 'tolerance 1e-9 on unit vectors']
REQUIRE = {'verdict:dir_in_plane': 200, 'verdict:plane_partition': 40,
           'verdict:family_partition': 40, 'verdict:family_set': 60,
           'verdict:refused': 20, 'verdict:phase_systems': 8}
SHIPPED = [('cubic_bcc', 'cubic', 48), ('cubic_bcc_110only', 'cubic', None),
           ('cubic_fcc', 'cubic', 12), ('cubic_fcc_damask', 'cubic', 12),
           ('hexagonal_noca', 'hexagonal', 12),
           ('hexagonal_withca', 'hexagonal', None)]


def plane_vec(idc, sym, ca, conv):
    v = (np.array(idc, float) if sym == 'cubic' else
         ref.hex_plane(idc, ca, conv))
    return v / np.linalg.norm(v)


def dir_vec(idc, sym, ca, conv):
    v = (np.array(idc, float) if sym == 'cubic' else
         ref.hex_dir(idc, ca, conv))
    return v / np.linalg.norm(v)


def up_to_sign(a, b, tol=1e-6):
    return min(np.abs(a - b).max(), np.abs(a + b).max()) < tol


def random_system(rng, sym):
    while True:
        if sym == 'cubic':
            p = rng.integers(-3, 4, 3)
            d = rng.integers(-3, 4, 3)
        else:
            p = np.array(mb(rng, 2))
            d = np.array(mb(rng, 2))
        if p.any() and d.any() and p @ d == 0:
            return p // np.gcd.reduce(p), d // np.gcd.reduce(d)


def random_rows(rng, sym, n):
    """Random systems, several of each family, some repeated planes."""
    rows = []
    st = crystalStructures[sym]
    while len(rows) < n:
        p, d = random_system(rng, sym)
        fam = [(p, d)]
        for s in ref.SYM['cubic'] if sym == 'cubic' else []:
            fam.append((np.rint(s @ p).astype(int),
                        np.rint(s @ d).astype(int)))
        if sym == 'hexagonal':
            perm = [[0, 1, 2], [1, 2, 0], [2, 0, 1]]
            for q in perm:
                fam.append((np.append(p[q], p[3]), np.append(d[q], d[3])))
        for k in rng.integers(0, len(fam), int(rng.integers(1, 5))):
            sp, sd = rng.choice([-1, 1], 2)
            rows.append(np.concatenate([fam[k][0] * sp, fam[k][1] * sd]))
    return np.array(rows[:n])


def write_file(path, rows, colours, sep='\t'):
    with open(path, 'w') as f:
        f.write('# header\n' + ','.join(colours) + '\n')
        for r in rows:
            f.write(sep.join(str(int(x)) for x in r) + '\n')


def check_systems(ctx, systems, rows, sym, ca, conv):
    """systems in file order"""
    n = 3 if sym == 'cubic' else 4
    ctx.check(len(systems) == len(rows), 'all_loaded', n=len(systems))
    for s, r in zip(systems, rows):
        ctx.equal(s.plane_idc, r[:n], 'plane_indices')
        ctx.equal(s.dir_idc, r[n:], 'dir_indices')
        ctx.close(s.slip_plane, plane_vec(r[:n], sym, ca, conv),
                  'plane_vector')
        ctx.close(s.slip_dir, dir_vec(r[n:], sym, ca, conv), 'dir_vector')
        ctx.close(np.dot(s.slip_plane, s.slip_dir), 0, 'dir_in_plane')
        lab = lambda v, b: b[0] + ''.join(
            str(abs(int(x))) + ('\u0305' if x < 0 else '') for x in v) + b[1]
        ctx.check(s.slip_plane_label == lab(r[:n], '()') and
                  s.slip_dir_label == lab(r[n:], '[]') and
                  str(s) == lab(r[:n], '()') + lab(r[n:], '[]'), 'labels')


def pos(v):
    for x in v:
        if x:
            return tuple(int(y) for y in (v if x > 0 else -np.array(v)))


def same_family(a, b, sym, ca, conv):
    """Is b an image of a under one operator (up to signs)?"""
    n = 3 if sym == 'cubic' else 4
    pa, da = plane_vec(a[:n], sym, ca, conv), dir_vec(a[n:], sym, ca, conv)
    pb, db = plane_vec(b[:n], sym, ca, conv), dir_vec(b[n:], sym, ca, conv)
    return any(up_to_sign(g @ pa, pb) and up_to_sign(g @ da, db)
               for g in ref.SYM[sym])


def check_groups(ctx, groups, rows, sym, ca, conv, by):
    n = 3 if sym == 'cubic' else 4
    key = lambda s: tuple(int(x) for x in s.plane_idc + s.dir_idc)
    flat = [key(s) for g in groups for s in g]
    want = [tuple(int(x) for x in r) for r in rows]
    ctx.check(sorted(flat) == sorted(want), by + '_partition', got=flat,
              want=want)
    ctx.check(all(len(g) for g in groups), 'no_empty_group')
    # expected groups by first appearance
    exp = []
    for r in want:
        for g in exp:
            if (pos(g[0][:n]) == pos(r[:n]) if by == 'plane' else
                    same_family(g[0], r, sym, ca, conv)):
                g.append(r)
                break
        else:
            exp.append([r])
    ctx.check([[key(s) for s in g] for g in groups] == exp, by + '_groups',
              got=[[key(s) for s in g] for g in groups], want=exp)


def s_shipped(ctx, rng, i):
    name, sym, total = SHIPPED[i % 6]
    conv = ['hkl', 'tsl'][i // 6 % 2]
    ca = float(rng.uniform(.6, 2.5)) if sym == 'hexagonal' else None
    ctx.describe(distinct=[name, conv, ca], name=name, conv=conv, ca=ca)
    import defdap
    path = os.path.join(os.path.dirname(defdap.__file__), 'slip_systems',
                        name + '.txt')
    lines = open(path).read().split('\n')
    rows = np.array([[int(x) for x in l.split()] for l in lines[2:]
                     if l.strip()])
    colours = lines[1].strip().split(',')
    if total:
        ctx.check(len(rows) == total, 'file_complete', n=len(rows))
    st = crystalStructures[sym]
    with Convention(conv):
        flat, col = SlipSystem.load(name, st, c_over_a=ca, group_by=None)
        check_systems(ctx, flat, rows, sym, ca, conv)
        ctx.check(col == colours, 'colours')
        for by in ('plane', 'family', 'Plane'):
            groups, col = SlipSystem.load(name, st, c_over_a=ca, group_by=by)
            check_groups(ctx, groups, rows, sym, ca, conv, by.lower())
            ctx.check(col == colours, 'colours')
        groups, _ = SlipSystem.load(name, st, c_over_a=ca)
        check_groups(ctx, groups, rows, sym, ca, conv, 'plane')


def s_generated(ctx, rng, i):
    sym = ['cubic', 'hexagonal'][i % 2]
    conv = ['hkl', 'tsl'][i // 2 % 2]
    ca = float(rng.uniform(.6, 2.5)) if sym == 'hexagonal' else None
    rows = random_rows(rng, sym, int(rng.choice([1, 2, 6, 20])))
    ctx.describe(distinct=[sym, conv, rows.tolist()], sym=sym, rows=rows)
    # the name may be that of a shipped file, in a folder of its own
    path = os.path.join(ctx.scratch, f'ss_{i}.txt' if i % 3 else (
        'cubic_fcc.txt' if sym == 'cubic' else 'hexagonal_withca.txt'))
    colours = ['red', 'blue', 'green'][:int(rng.integers(1, 4))]
    write_file(path, rows, colours)
    st = crystalStructures[sym]
    with Convention(conv):
        flat, col = SlipSystem.load(path, st, c_over_a=ca, group_by=None)
        ctx.check(col == colours, 'colours')
        check_systems(ctx, flat, rows, sym, ca, conv)
        for by in ('plane', 'family'):
            groups, col = SlipSystem.load(path, st, c_over_a=ca, group_by=by)
            ctx.check(col == colours, 'colours')
            check_groups(ctx, groups, rows, sym, ca, conv, by)
            check_groups(ctx, SlipSystem.group(flat, by), rows, sym, ca,
                         conv, by)
        with ctx.raises(ValueError, 'refused'):
            SlipSystem.group(flat, 'colour')
        # equality and hash
        n = 3 if sym == 'cubic' else 4
        for a in flat[:6]:
            for b in flat[:6]:
                ra, rb = a.plane_idc + a.dir_idc, b.plane_idc + b.dir_idc
                same = (pos(ra[:n]) == pos(rb[:n]) and
                        pos(ra[n:]) == pos(rb[n:]))
                ctx.check((a == b) == same, 'equality')
                if same:
                    ctx.check(hash(a) == hash(b), 'hash')
    os.remove(path)


def s_family(ctx, rng, i):
    sym = ['cubic', 'hexagonal'][i % 2]
    conv = ['hkl', 'tsl'][i // 2 % 2]
    ca = float(rng.uniform(.6, 2.5)) if sym == 'hexagonal' else None
    p, d = random_system(rng, sym)
    ctx.describe(distinct=[sym, conv, p.tolist(), d.tolist()], p=p, d=d)
    st = crystalStructures[sym]
    with Convention(conv):
        ss = SlipSystem(tuple(int(x) for x in p), tuple(int(x) for x in d),
                        st, c_over_a=ca)
        fam = ss.generate_family()
        check_family(ctx, ss, fam, sym, ca, conv)
        # generated from any member: the same family
        other = list(fam)[int(rng.integers(len(fam)))]
        fam2 = other.generate_family()
        key = lambda s: (tuple(int(x) for x in s.plane_idc),
                         tuple(int(x) for x in s.dir_idc))
        ctx.check(sorted(map(key, fam)) == sorted(map(key, fam2)),
                  'family_closed', a=sorted(map(key, fam)),
                  b=sorted(map(key, fam2)))
        ctx.check(ss in fam, 'contains_itself')


def check_family(ctx, ss, fam, sym, ca, conv):
    p = plane_vec(ss.plane_idc, sym, ca, conv)
    d = dir_vec(ss.dir_idc, sym, ca, conv)
    want = []
    for g in ref.SYM[sym]:
        w = (g @ p, g @ d)
        if not any(up_to_sign(w[0], x[0]) and up_to_sign(w[1], x[1])
                   for x in want):
            want.append(w)
    got = [(s.slip_plane, s.slip_dir) for s in fam]
    ctx.check(len(got) == len(want), 'family_size', n=len(got),
              want=len(want))
    for a in got:
        ctx.check(any(up_to_sign(a[0], w[0]) and up_to_sign(a[1], w[1])
                      for w in want), 'family_set')
        ctx.close(np.dot(*a), 0, 'dir_in_plane')


def s_malformed(ctx, rng, i):
    sym = ['cubic', 'hexagonal'][i % 2]
    st = crystalStructures[sym]
    rows = random_rows(rng, sym, 4)
    k = i // 2 % 4
    path = os.path.join(ctx.scratch, f'bad_{i}.txt')
    ctx.describe(distinct=['malformed', i], k=k, sym=sym)
    if k == 0:
        rows = rows[:, :-1]
    elif k == 1:
        rows = np.hstack([rows, rows[:, :1]])
    elif k == 2:
        rows = random_rows(rng, 'hexagonal' if sym == 'cubic' else 'cubic', 4)
    write_file(path, rows, ['red'])
    if k == 3:
        with open(path, 'a') as f:
            f.write('1\t0.5' + '\tx' * (rows.shape[1] - 2) + '\n')
    ca = 1.6 if sym == 'hexagonal' else None
    with ctx.raises((IOError, ValueError), 'refused', k=k):
        SlipSystem.load(path, st, c_over_a=ca)
    os.remove(path)
    with ctx.raises(FileNotFoundError, 'refused'):
        SlipSystem.load('no_such_file', st, c_over_a=ca)
    if sym == 'hexagonal':
        with ctx.raises(Exception, 'refused'):
            SlipSystem((0, 0, 0, 1), (1, 1, -2, 0), st)


def s_phase(ctx, rng, i):
    sg, laue = [(225, 11), (229, 11), (194, 9),
                (int(rng.choice([221, 227, 223, 0])), 11)][i % 4]
    ca = float(rng.uniform(.6, 2.5))
    p = Phase('p', laue, sg, (2., 2., 2 * ca if laue == 9 else 2.,
                              np.pi / 2, np.pi / 2,
                              2 * np.pi / 3 if laue == 9 else np.pi / 2))
    ctx.describe(distinct=['phase', i, ca], sg=sg, laue=laue)
    kind = {225: 'FCC', 229: 'BCC', 194: 'HCP'}.get(sg)
    if kind is None:
        ctx.check(p.slip_systems is None and p.ss_file is None,
                  'phase_systems')
        return
    name = defaults['slip_system_file'][kind]
    sym = 'hexagonal' if laue == 9 else 'cubic'
    ctx.check(p.crystal_structure is crystalStructures[sym],
              'phase_structure')
    import defdap
    path = os.path.join(os.path.dirname(defdap.__file__), 'slip_systems',
                        name + '.txt')
    lines = open(path).read().split('\n')
    rows = [[int(x) for x in l.split()] for l in lines[2:] if l.strip()]
    check_groups(ctx, p.slip_systems, rows, sym, ca,
                 defaults['crystal_ortho_conv'], 'plane')
    for g in p.slip_systems:
        for s in g:
            ctx.close(s.slip_plane, plane_vec(
                s.plane_idc, sym, ca, defaults['crystal_ortho_conv']),
                'phase_systems')
            ctx.close(s.slip_dir, dir_vec(
                s.dir_idc, sym, ca, defaults['crystal_ortho_conv']),
                'phase_systems')
    with ctx.raises(ValueError, 'refused'):
        Phase('p', int(rng.choice([1, 2, 3, 5, 8, 10])), sg, p.lattice_params)


STREAMS = [
    Stream('shipped', 24, 120, s_shipped),
    Stream('generated', 60, 1500, s_generated),
    Stream('family', 80, 2000, s_family),
    Stream('malformed', 16, 80, s_malformed),
    Stream('phase', 12, 80, s_phase),
]
