"""C09: the data store returns what was stored, generated or derived."""
import numpy as np

from vt.core import Stream
from defdap.utils import Datastore

PROPERTY = 'C09'
RULE = ('random operation sequences (5..60 operations) on 1..4 linked stores, '
        'checked after every operation against an independent model; '
        'operations: add, duplicate add, set, attribute set/get, metadata '
        'set/get, generators (single/multiple outputs, save on/off, failing, '
        'wrong count), explicit generate with arguments, merge with either '
        'priority, derivatives (filters, out properties, by reference, '
        'replaced, chained, cyclic); distinct by operation sequence')
ASSUMPTIONS = ['visibility of data through more than one derivative step is '
               'judged for chains without cycles only',
               'stores form a tree with optional links back to the parent '
               '(as maps and their grains do)']
REQUIRE = {'verdict:value': 500, 'verdict:names': 500,
           'verdict:derived_value': 150, 'verdict:generator_calls': 200,
           'verdict:refused': 60, 'second_derivative': 20, 'merges': 20,
           'generator_failures': 10, 'two_steps': 2}


class Boom(Exception):
    pass


class Gen:
    """A generator function under observation."""
    def __init__(self, log, name, n):
        self.log, self.name, self.n = log, name, n
        self.calls = 0
        self.fail = False
        self.wrong = False
        self.box = len(name) % 3

    def __call__(self, **kw):
        self.calls += 1
        if self.fail:
            raise Boom(self.name)
        tag = (self.name, self.calls, tuple(sorted(kw.items())))
        if self.n == 1:
            return ('gen', tag)
        n = self.n + (self.wrong and (-1, 1)[len(self.name) // 3 % 2])
        out = tuple(('gen', tag, k) for k in range(n))
        if self.box == 1:
            return list(out)
        if self.box == 2:      # one array holding an output per row
            arr = np.empty(n, dtype=object)
            arr[:] = out
            return arr
        return out


class Model:
    def __init__(self, name):
        self.name = name
        self.items = {}        # name -> dict(data=..., meta...)
        self.gens = {}         # tuple of names -> Gen
        self.expected_calls = {}
        self.derivs = []       # dict(source=Model, tag, in, out, ref)

    # -- visibility
    def direct(self):
        """Own data, and data owned by the source of a derivative."""
        out = list(self.items)
        for d in self.derivs:
            src = d['source']
            out += [k for k, it in src.items.items() if k not in out and
                    all(it.get(a) == v for a, v in d['in'].items())]
        return out

    def names(self, path=()):
        out = list(self.items)
        for d in self.derivs:
            for k in self.derived_names(d, path):
                if k not in out:
                    out.append(k)
        return out

    def derived_names(self, d, path=()):
        src = d['source']
        path = path + (self,)
        if src in path:
            return []
        return [k for k in src.names(path)
                if all(src.meta(k, a, path) == v
                       for a, v in d['in'].items())]

    def meta(self, k, attr, path=()):
        if k in self.items:
            return self.items[k].get(attr)
        for d in self.derivs:
            if k in self.derived_names(d, path):
                if attr in d['out']:
                    return d['out'][attr]
                return d['source'].meta(k, attr, path + (self,))
        return None

    # -- values
    def get(self, k):
        if k in self.items:
            it = self.items[k]
            val = it['data']
            if val is None and self.gen_of(k):
                val = self.generate(k, {})
            if it.get('type') == 'map':
                if not it.get('cropped', False):
                    val = (self.name + 'crop', it.get('binning', 1), val)
                if it.get('apply_mask', True):
                    val = (self.name + 'mask', val)
            return val
        for j, d in enumerate(self.derivs):
            if k in self.derived_names(d):
                if d['ref']:
                    return (d['tag'], 'ref', k)
                return (d['tag'], d['source'].get(k))
        raise KeyError(k)

    def gen_of(self, k):
        for keys in self.gens:
            if k in keys:
                return keys
        return None

    def generate(self, k, kw):
        keys = self.gen_of(k)
        g = self.gens[keys]
        self.expected_calls[keys] = self.expected_calls.get(keys, 0) + 1
        if g.fail:
            raise Boom
        if g.wrong and g.n > 1:
            raise ValueError
        tag = (g.name, self.expected_calls[keys], tuple(sorted(kw.items())))
        out = None
        for n, key in enumerate(keys):
            v = ('gen', tag) if g.n == 1 else ('gen', tag, n)
            if self.items[key].get('save', True):
                self.items[key]['data'] = v
            if key == k:
                out = v
        return out


def make(name):
    m = Model(name)
    s = Datastore(
        crop_func=lambda x, binning=None, **kw: (name + 'crop', binning, x),
        mask_func=lambda x, **kw: (name + 'mask', x))
    return s, m


def random_meta(rng):
    meta = {}
    if rng.random() < .7:
        meta['type'] = str(rng.choice(['map', 'list', 'boundaries']))
    if rng.random() < .3:
        meta['cropped'] = bool(rng.integers(2))
    if rng.random() < .3:
        meta['apply_mask'] = bool(rng.integers(2))
    if rng.random() < .2:
        meta['binning'] = int(rng.integers(1, 5))
    if rng.random() < .3:
        meta['unit'] = str(rng.choice(['um', 'rad', '']))
    if rng.random() < .3:
        meta['order'] = int(rng.integers(0, 3))
    return meta


class Run:
    def __init__(self, ctx, rng, n):
        self.ctx, self.rng = ctx, rng
        self.stores = [make(f's{k}') for k in range(n)]
        self.counter = 0
        self.trace = []
        self.dfuncs = {}

    def new_name(self):
        self.counter += 1
        return f'd{self.counter}'

    def pick(self):
        return self.stores[self.rng.integers(len(self.stores))]

    def some_name(self, m, own=False):
        names = list(m.items) if own else m.direct()
        if not names or self.rng.random() < .08:
            return 'nope'
        return names[self.rng.integers(len(names))]

    # -- operations
    def op(self):
        s, m = self.pick()
        ops = ['add', 'add', 'dup', 'baddata', 'set', 'setattr', 'setmeta',
               'get', 'get', 'get', 'getattr', 'getmeta', 'getmeta', 'gen1',
               'genN', 'generate', 'fail', 'setnew']
        k = str(self.rng.choice(ops))
        getattr(self, 'op_' + k)(s, m)
        self.trace.append(k)

    def op_add(self, s, m):
        n, meta = self.new_name(), random_meta(self.rng)
        v = ('val', self.counter)
        s.add(n, v, **meta)
        m.items[n] = dict(meta, data=v)

    def op_dup(self, s, m):
        names = m.direct()
        if not names:
            return
        n = names[self.rng.integers(len(names))]
        with self.ctx.raises(ValueError, 'refused', name=n):
            s.add(n, 1)

    def op_baddata(self, s, m):
        with self.ctx.raises((ValueError, TypeError), 'refused'):
            s.add(self.new_name(), 1, **{'data': 3})

    def op_set(self, s, m):
        n = self.some_name(m, own=True)
        v = ('set', self.counter, int(self.rng.integers(1000)))
        if n not in m.names():
            with self.ctx.raises((ValueError, KeyError), 'refused'):
                s[n] = v
            return
        s[n] = v
        m.items[n]['data'] = v

    def op_setattr(self, s, m):
        n = self.some_name(m, own=True)
        v = ('seta', int(self.rng.integers(1000)))
        if n not in m.names():
            with self.ctx.raises((ValueError, KeyError, AttributeError),
                                 'refused'):
                setattr(s, n, v)
            return
        setattr(s, n, v)
        m.items[n]['data'] = v

    def op_setnew(self, s, m):
        with self.ctx.raises((ValueError, KeyError), 'refused'):
            s['unknown_name'] = 1
        with self.ctx.raises((ValueError, KeyError), 'refused'):
            s['unknown_name', 'unit'] = 1

    def op_setmeta(self, s, m):
        n = self.some_name(m, own=True)
        if n not in m.items:
            return
        a = str(self.rng.choice(['unit', 'order', 'type', 'cropped',
                                 'note']))
        v = {'unit': 'mm', 'order': 7, 'type': 'list', 'cropped': True,
             'note': self.counter}[a]
        s[n, a] = v
        m.items[n][a] = v

    def value(self, s, m, n, how):
        if n not in m.names():
            with self.ctx.raises((KeyError, AttributeError), 'refused',
                                 name=n):
                how(n)
            return
        try:
            want = m.get(n)
        except (Boom, ValueError) as e:
            self.ctx.observe('generator_failures')
            with self.ctx.raises(type(e), 'failure_propagates'):
                how(n)
            return
        got = how(n)
        own = n in m.items
        self.ctx.check(repr(got) == repr(want),
                       'value' if own else 'derived_value', name=n,
                       got=got, want=want, trace=self.trace[-40:])
        if not own and len(m.derivs) > 1 and n not in m.derived_names(
                m.derivs[0]):
            self.ctx.observe('second_derivative')

    def op_get(self, s, m):
        self.value(s, m, self.some_name(m), lambda n: s[n])

    def op_getattr(self, s, m):
        self.value(s, m, self.some_name(m), lambda n: getattr(s, n))

    def op_getmeta(self, s, m):
        n = self.some_name(m)
        for a in ('unit', 'order', 'type', 'note'):
            want = m.meta(n, a) if n in m.names() else None
            got = s.get_metadata(n, a, 'DEFAULT')
            have = self.has_meta(m, n, a)
            self.ctx.check(got == (want if have else 'DEFAULT'), 'metadata',
                           name=n, attr=a, got=got, want=want,
                           trace=self.trace[-40:])
            if have:
                self.ctx.check(s[n, a] == want, 'metadata_item')
            else:
                with self.ctx.raises(KeyError, 'refused', name=n, attr=a):
                    s[n, a]

    def has_meta(self, m, n, a, path=()):
        if n in m.items:
            return a in m.items[n]
        for d in m.derivs:
            if n in m.derived_names(d, path):
                return a in d['out'] or self.has_meta(
                    d['source'], n, a, path + (m,))
        return False

    def op_gen1(self, s, m):
        n, meta = self.new_name(), random_meta(self.rng)
        if self.rng.random() < .3:
            meta['save'] = False
        g = Gen(None, n, 1)
        if self.rng.integers(2):
            s.add_generator(n, g, **meta)
        else:
            s.add_generator((n,), g, metadatas=dict(meta))
        m.items[n] = dict(meta, data=None)
        m.gens[(n,)] = g

    def op_genN(self, s, m):
        k = int(self.rng.integers(2, 4))
        keys = tuple(self.new_name() for _ in range(k))
        metas = [random_meta(self.rng) for _ in keys]
        for x in metas:
            if self.rng.random() < .3:
                x['save'] = False
        common = {'unit': 'kN'} if self.rng.integers(2) else {}
        g = Gen(None, '+'.join(keys), k)
        if self.rng.random() < .25:
            # metadata in common only
            metas = [{} for _ in keys]
            common.update({k: v for k, v in random_meta(self.rng).items()
                           if k != 'save'})
            s.add_generator(keys, g, **common)
        else:
            s.add_generator(keys, g, metadatas=[dict(x) for x in metas],
                            **common)
        for key, x in zip(keys, metas):
            m.items[key] = dict(x, **common, data=None)
        m.gens[keys] = g

    def op_generate(self, s, m):
        n = self.some_name(m, own=True)
        kw = {'p': int(self.rng.integers(9))} if self.rng.integers(2) else {}
        if n not in m.items or m.gen_of(n) is None:
            with self.ctx.raises(Exception, 'refused'):
                s.generate(n, **kw)
            return
        ret = bool(self.rng.integers(2))
        try:
            want = m.generate(n, kw)
        except (Boom, ValueError) as e:
            self.ctx.observe('generator_failures')
            with self.ctx.raises(type(e), 'failure_propagates'):
                s.generate(n, **kw)
            return
        got = s.generate(n, return_val=ret, **kw)
        self.ctx.check(repr(got) == repr(want if ret else None), 'generated',
                       got=got, want=want)

    def op_fail(self, s, m):
        gens = list(m.gens.values())
        if not gens:
            return
        g = gens[self.rng.integers(len(gens))]
        if g.fail or g.wrong:
            g.fail = g.wrong = False
        elif self.rng.integers(2):
            g.fail = True
        else:
            g.wrong = True

    def link(self, i, j, tag=None):
        """store i derives from store j"""
        (s, m), (s2, m2) = self.stores[i], self.stores[j]
        r = self.rng
        ins = {}
        if r.random() < .7:
            ins['type'] = str(r.choice(['map', 'list', 'boundaries']))
        if r.random() < .15:
            ins['unit'] = 'um'
        out = {}
        if r.random() < .6:
            out['type'] = str(r.choice(['map', 'list']))
        if r.random() < .2:
            out['unit'] = 'out'
        if r.random() < .3:
            out['order'] = 0        # a declared property may be false
        ref = bool(r.random() < .3)
        replaced = False
        if tag is None:
            tag = f'{i}->{j}#{len(self.dfuncs)}'
            box = {}

            def func(x, box=box, tag=tag):
                return (tag, 'ref', x) if box['ref'] else (tag, x)
            self.dfuncs[tag] = (func, box)
        else:
            replaced = True
        func, box = self.dfuncs[tag]
        box['ref'] = ref
        s.add_derivative(s2,
                         func, in_props=dict(ins) or None,
                         out_props=dict(out) or None, pass_ref=ref)
        new = {'source': m2, 'tag': tag, 'in': ins, 'out': out, 'ref': ref}
        for d in m.derivs:
            if d['tag'] == tag:
                d.update(new)
                break
        else:
            m.derivs.append(new)
        self.trace.append(f'link {tag} {ins} {out} ref={ref}')

    def audit(self):
        for s, m in self.stores:
            want, may = m.direct(), m.names()
            got = list(s)
            self.ctx.check(len(got) == len(set(got)) and
                           set(want) <= set(got) <= set(may), 'names', got=got,
                           want=want, may=may, trace=self.trace[-40:])
            self.ctx.check(len(s) == len(got), 'count')
            self.ctx.check(sorted(s.keys()) == sorted(got), 'keys')
            for n in got:          # data of a source of a source
                if n not in want:
                    self.ctx.observe('chained_names')
            for n in want[:8]:
                self.ctx.check(n in s, 'contains')
            words = str(s).split()
            self.ctx.check(all(n in words for n in got), 'shown_names',
                           got=words, want=got)
            self.ctx.check('nope' not in s, 'not_contains')
            for keys, g in m.gens.items():
                self.ctx.check(g.calls == m.expected_calls.get(keys, 0),
                               'generator_calls', keys=keys, got=g.calls,
                               want=m.expected_calls.get(keys, 0),
                               trace=self.trace[-40:])


def s_single(ctx, rng, i):
    r = Run(ctx, rng, 1)
    if i % 25 == 11:                    # more names than usual
        for _ in range(int(rng.integers(60, 140))):
            r.op_add(*r.stores[0])
        ctx.observe('big_stores')
    for _ in range(int(rng.integers(5, 60))):
        r.op()
        r.audit()
    s, m = r.stores[0]
    for g in m.gens.values():
        g.fail = g.wrong = False
    for n in m.names():
        r.value(s, m, n, lambda n: s[n])
    # mapping protocol
    want = {n: m.get(n) for n in m.names()}
    ctx.check(repr(sorted(dict(**s).items())) == repr(sorted(want.items())),
              'mapping', trace=r.trace)
    ctx.describe(distinct=r.trace, ops=len(r.trace))


def s_merge(ctx, rng, i):
    linked = rng.random() < .5
    r = Run(ctx, rng, 3 if linked else 2)
    for _ in range(int(rng.integers(4, 20))):
        s, m = r.pick()
        r.op_add(s, m)
        if rng.random() < .4:      # same name in both
            n = list(m.items)[-1]
            s2, m2 = r.stores[1 if m is r.stores[0][1] else 0]
            if n not in m2.items:
                meta = random_meta(rng)
                s2.add(n, ('other', n), **meta)
                m2.items[n] = dict(meta, data=('other', n))
        elif rng.random() < .3:    # one side of it not generated yet
            r.op_gen1(s, m)
            n = list(m.items)[-1]
            s2, m2 = r.stores[1 if m is r.stores[0][1] else 0]
            meta = random_meta(rng)
            s2.add(n, ('other', n), **meta)
            m2.items[n] = dict(meta, data=('other', n))
    (a, ma), (b, mb) = r.stores[:2]
    if linked:                     # what the other one derives is not merged
        r.link(1, 2)
        ctx.observe('merge_of_linked')
    prio = [None, 'self', 'other'][i % 3]
    ctx.describe(distinct=[prio, sorted(ma.items), sorted(mb.items)],
                 priority=prio)
    kw = {} if prio is None else {'priority': prio}
    a.update(b, **kw)
    for n, it in mb.items.items():
        if n in ma.items and prio == 'self':
            continue
        ma.items[n] = dict(it)
    ctx.observe('merges')
    r.audit()
    for s, m in r.stores:
        for n in m.names():
            r.value(s, m, n, lambda n: s[n])
    # the stores stay separate: a later addition is seen in one only
    n = r.new_name()
    a.add(n, 1)
    ma.items[n] = {'data': 1}
    r.audit()
    n = r.new_name()
    b.add(n, 2)
    mb.items[n] = {'data': 2}
    r.audit()


def s_linked(ctx, rng, i):
    n = int(rng.integers(2, 5))
    r = Run(ctx, rng, n)
    # tree: parent[j] < j; sometimes a link back to the parent
    edges = []
    for j in range(1, n):
        p = int(rng.integers(j))
        edges.append((p, j))
        if rng.random() < .4:
            edges.append((j, p))
        if rng.random() < .3:      # second derivative on the same source
            edges.append((p, j))
    for _ in range(int(rng.integers(2, 12))):
        r.op()
    tags = []
    for k in rng.permutation(len(edges)):
        r.link(*edges[k])
        tags.append((edges[k], list(r.dfuncs)[-1]))
        r.audit()
    for _ in range(int(rng.integers(5, 30))):
        r.op()
        if rng.random() < .08:
            (e, t) = tags[rng.integers(len(tags))]
            r.link(*e, tag=t)
        r.audit()
    for s, m in r.stores:
        for g in m.gens.values():
            g.fail = g.wrong = False
    for s, m in r.stores:
        for nme in m.direct():
            r.value(s, m, nme, lambda x: s[x])
            for a in ('type', 'unit', 'order'):
                have = r.has_meta(m, nme, a)
                got = s.get_metadata(nme, a, 'DEFAULT')
                ctx.check(got == (m.meta(nme, a) if have else 'DEFAULT'),
                          'metadata', name=nme, attr=a, got=got,
                          trace=r.trace[-40:])
    r.audit()
    ctx.describe(distinct=r.trace, stores=n, ops=len(r.trace))


def s_chain(ctx, rng, i):
    """Data of a store is seen two derivative steps away (no cycles)."""
    r = Run(ctx, rng, 3)
    for _ in range(int(rng.integers(4, 12))):
        r.op()
    r.link(0, 1)
    r.link(1, 2)
    if i % 3 == 0:
        r.link(1, 2)
    for _ in range(int(rng.integers(4, 12))):
        r.op()
    for s, m in r.stores:
        for g in m.gens.values():
            g.fail = g.wrong = False
    for s, m in r.stores:
        ctx.check(sorted(s) == sorted(m.names()), 'chain_names', got=list(s),
                  want=m.names(), trace=r.trace[-40:])
        for nme in m.names():
            if nme not in m.direct():
                ctx.observe('two_steps')
            r.value(s, m, nme, lambda x: s[x])
            for a in ('type', 'unit', 'order'):
                have = r.has_meta(m, nme, a)
                ctx.check(s.get_metadata(nme, a, 'DEFAULT') ==
                          (m.meta(nme, a) if have else 'DEFAULT'),
                          'metadata', name=nme, attr=a, trace=r.trace[-40:])
    ctx.describe(distinct=r.trace, ops=len(r.trace))


def s_group(ctx, rng, i):
    """Stores of one group do not look into each other; nothing breaks."""
    gid = Datastore.generate_id()
    a, b, c = Datastore(gid), Datastore(gid), Datastore()
    a.add('x', 1, type='map')
    c.add('z', 3, type='list')
    ctx.describe(distinct=['group', i])
    order = rng.permutation(3)
    f = lambda x: ('f', x)
    for k in order:
        if k == 0:
            b.add_derivative(a, lambda x: ('same', x))
        elif k == 1:
            b.add_derivative(c, f)
        else:
            b.add('y', 2, type='map')
    for _ in range(3):
        ctx.check('y' in b and 'z' in b and 'x' not in b, 'group_names',
                  got=list(b))
        ctx.check(b['z'] == ('f', 3), 'group_value')
        with ctx.raises(KeyError, 'refused'):
            b['x']
        d = Datastore()
        d.add_derivative(c, f)
        ctx.check(list(d) == ['z'], 'later_lookup', got=list(d))


STREAMS = [
    Stream('single', 150, 4000, s_single),
    Stream('merge', 60, 1500, s_merge),
    Stream('linked', 200, 5000, s_linked),
    Stream('chain', 60, 1500, s_chain),
    Stream('group', 12, 60, s_group),
]
