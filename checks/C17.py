"""Exchange of model state with an embedding program."""
from common import make_p, make_s, snap

PROP = dict(
    title='State set from outside is returned and used as set, protected state stays',
    statement='After set_var (or set_var_index) get_var returns exactly the value set, for grids and settings, and nothing else changes; unknown names '
              'change nothing. Ct and Cu are returned divided by accfac, everything else as stored. get_var_name lists grids alphabetically, '
              'get_var_shape and get_var_rank describe the stored grid, -1 stands for unknown. Model state is mutable by default; after '
              'set_immutable assignments, set_var, update with the result of a solver and the steps of the model leave the variable as it '
              'was until set_mutable. A restart file restores time, state, settings, previous state, counters and mutability. The time functions report current time, tstart and tstop.',
    over=['inputs', 'histories'],
    text='all values, all variables of the model state, sequences of set, get and protect',
    why='tests use example values only',
    files=['aeolis/model.py'],
    mech=[('exchange', 'aeolis/model.py: AeoLiS.get_var, set_var, get_var_name, get_var_shape'), ('protection', 'aeolis/model.py: ModelState'),
          ('restart', 'aeolis/model.py: AeoLiSRunner.dump_restartfile, load_restartfile')])
META = dict(
    bounds='grids of 2x2 cells with 2 fractions, values up to 1e6, every variable of MODEL_STATE',
    outside='in-place changes of a protected array by a process, the file format',
    stubs=['pickle keeps the objects and rebuilds them by their own reduction protocol, in the order of pickle', 'open() does not touch the disk'],
    assumptions=[])


def bare(h, ny=2, nx=2, nf=2, cls='AeoLiS'):
    M = h.mod('model')
    A = getattr(M, cls)
    m = A.__new__(A)
    m.p = make_p(h, ny, nx, 1, nf)
    m.s, m.c, m.l = M.ModelState(), {}, {}
    for k, v in make_s(h, ny, nx, 1, nf).items():
        if k not in ('wave_mask', 'tide_mask', 'runup_mask', 'threshold_mask', 'gw_mask'):
            m.s[k] = v
    m.t, m.dt = h.real('t', 0, 1e6), 0.
    m.o = {}
    return m


def names(h):
    return sorted(n for v in h.mod('constants').MODEL_STATE.values() for n in v)


def exchange(h, part, parts, cls):
    """every grid in turn"""
    m = bare(h, 1, 2, 1, cls)
    m.p['accfac'] = a = h.real('accfac', 1, 100)
    for k in names(h)[part::parts]:
        v = h.array('v_' + k, m.s[k].shape, -1e6, 1e6)
        keep = snap(v)
        before = {q: w for q, w in m.s.items()}
        sets = dict(m.p)
        m.set_var(k, v)
        h.eq('%s stored' % k, m.s[k], keep)
        g = m.get_var(k)
        if k in ('Ct', 'Cu'):
            h.eq('%s without acceleration' % k, g * a, keep, scale=1e6)
        else:
            h.eq('%s returned' % k, g, keep)
        got = snap(g)
        h.eq('%s untouched by reading' % k, m.s[k], keep)
        h.eq('%s read twice' % k, m.get_var(k), got)
        h.true('nothing else', all(m.s[q] is before[q] for q in before if q != k) and set(before) == set(m.s))
        h.true('no setting', set(sets) == set(m.p) and all(m.p[q] is sets[q] for q in sets))
        h.true('shape', tuple(m.get_var_shape(k)) == tuple(keep.shape))
        h.true('rank', m.get_var_rank(k) == len(keep.shape))
        h.true('type', m.get_var_type(k) == 'double')


def settings(h, cls):
    m = bare(h, 1, 1, 1, cls)
    n = {k: v for k, v in m.p.items()}
    for k, v in (('tstop', h.real('tstop', 0, 1e6)), ('CFL', h.real('CFL', 0, 10)), ('method_transport', 'kawamura'), ('process_wind', False), ('output_times', h.real('ot', 0, 10))):
        m.set_var(k, v)
        n[k] = v
        g = m.get_var(k)
        h.true('%s returned' % k, (g == v) if isinstance(v, (str, bool)) else g is v or g == v)
    h.true('no other settings', set(m.p) == set(n) and all(m.p[k] is n[k] for k in n))
    m.set_var('no_such_thing', 1)
    h.true('unknown ignored', 'no_such_thing' not in m.p and 'no_such_thing' not in m.s)
    h.true('unknown returned', m.get_var('no_such_thing') is None)
    for f in (m.get_var_shape, m.get_var_rank, m.get_var_type):
        h.true('unknown described', f('no_such_thing') == -1)
    m.p['tstart'] = a = h.real('tstart', 0, 1e6)
    h.eq('start', m.get_start_time(), a)
    h.eq('end', m.get_end_time(), m.p['tstop'])
    h.eq('current', m.get_current_time(), m.t)


def listing(h):
    m = bare(h, 1, 1, 1)
    ns = sorted(m.s)
    h.true('count', m.get_var_count() == len(ns))
    h.true('alphabetical', [m.get_var_name(i) for i in range(len(ns))] == ns)
    h.true('beyond', m.get_var_name(len(ns)) == -1)
    for i in range(0, len(ns), 9):
        if m.s[ns[i]].ndim != 2:
            continue
        v = h.array('v%d' % i, m.s[ns[i]].shape, -10, 10)
        m.set_var_index(i, v)
        h.eq('by index', m.get_var(ns[i]), v)


def protect(h):
    """histories of assignments with protection switched on and off"""
    M = h.mod('model')
    v = [h.array('v%d' % i, (1, 2), -10, 10) for i in range(12)]
    s = M.ModelState()
    s['a'], s['b'] = v[0], v[1]
    s['a'] = v[2]
    h.eq('mutable by default', s['a'], v[2])
    s.set_immutable('a')
    s['a'] = v[3]
    h.eq('assignment ignored', s['a'], v[2])
    s.update(dict(a=v[4], b=v[5]))
    h.eq('update ignored', s['a'], v[2])
    h.eq('others updated', s['b'], v[5])
    s.update(a=v[4], c=v[6])
    h.eq('update by name ignored', s['a'], v[2])
    h.eq('new', s['c'], v[6])
    s['c'] = v[7]
    h.eq('new ones are mutable', s['c'], v[7])
    s.set_immutable('b')
    s.set_mutable('a')
    s['a'], s['b'] = v[8], v[9]
    h.eq('mutable again', s['a'], v[8])
    h.eq('still protected', s['b'], v[5])
    s.set_immutable('b')
    s.set_immutable('unknown')
    s['b'] = v[10]
    h.eq('protected twice', s['b'], v[5])
    s.set_mutable('b')
    s['b'] = v[11]
    h.eq('one release is enough', s['b'], v[11])
    t = M.ModelState(a=v[0], b=v[1])
    t['a'] = v[2]
    h.eq('mutable when constructed', t['a'], v[2])
    t.set_immutable('a')
    t['a'] = v[3]
    h.eq('protected when constructed', t['a'], v[2])
    h.eq('independent states', len(M.ModelState()), 0)


def coupled(h):
    """protected variables survive solver results and set_var"""
    m = bare(h, 1, 2, 1)
    for k in ('Ct', 'zb', 'moist'):
        m.s[k] = h.array(k, m.s[k].shape, 0, 10)
        m.s.set_immutable(k)
    old = {k: snap(m.s[k]) for k in ('Ct', 'zb', 'moist')}
    m.set_var('zb', h.array('other', (1, 2), -10, 10))
    m.s.update(dict(Ct=h.array('newct', m.s['Ct'].shape, 0, 10), pickup=h.array('newpickup', m.s['pickup'].shape, -1, 1), moist=m.s['zb'] + 1))
    for k in old:
        h.eq('%s protected' % k, m.s[k], old[k])


class Pickle(object):
    def __init__(self):
        self.kept = None

    def dump(self, d, fp, *a):
        assert 'b' in fp, 'binary file needed'
        self.kept = {k: self.reduce(v) for k, v in d.items()}

    def load(self, fp, *a):
        assert 'b' in fp, 'binary file needed'
        return {k: self.build(v) for k, v in self.kept.items()}

    def reduce(self, v):
        if isinstance(v, dict):
            if type(v) is dict:
                return ('dict', {k: (w.copy() if hasattr(w, 'copy') else w) for k, w in v.items()})
            fn, args, state, _, items = v.__reduce_ex__(2)[:5]
            return ('obj', fn, args, dict((k, set(w) if isinstance(w, set) else w) for k, w in (state or {}).items()), [(k, w.copy()) for k, w in items])
        return ('value', v)

    def build(self, r):
        if r[0] == 'dict':
            return dict(r[1])
        if r[0] == 'value':
            return r[1]
        _, fn, args, state, items = r
        o = fn(*args)
        for k, v in items:
            o[k] = v
        if state:
            o.__dict__.update(state)
        return o


class Fp(object):
    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        return self.mode

    def __exit__(self, *a):
        pass


def restart(h):
    M = h.mod('model')
    m = bare(h, 1, 2, 1, 'AeoLiSRunner')
    for k in ('zb', 'Ct'):
        m.s[k] = h.array(k, m.s[k].shape, 0, 10)
    m.s.set_immutable('Ct')
    m.l = dict(zb=h.array('lzb', (1, 2), 0, 10))
    m.c = dict(time=3)
    m.p['output_file'] = 'x.nc'
    m.p['CFL'] = h.real('CFL', 0, 1)
    m.t = h.const(7200)
    pk, files = Pickle(), []

    def op(name, mode='r', *a, **k):
        files.append(name)
        return Fp(mode)
    n = bare.__globals__['fresh'](h, m)
    old, had, oldopen = M.pickle, 'open' in M.__dict__, M.__dict__.get('open')
    M.pickle, M.open = pk, op
    M.os, oldos = type('O', (), dict(path=type('P', (), dict(exists=staticmethod(lambda f: f in files), splitext=staticmethod(lambda f: (f[:-3], f[-3:])))))), M.os
    try:
        m.dump_restartfile()
        snapz = snap(m.s['zb'])
        m.s['zb'] += 1                   # the run goes on
        ok = n.load_restartfile(files[0])
    finally:
        M.pickle, M.os = old, oldos
        if had:
            M.open = oldopen
        else:
            del M.open
    h.true('loaded', ok is True)
    h.true('file by time', files[0] == 'x.r0000007200')
    h.eq('time', n.t, m.t)
    h.eq('bed', n.s['zb'], snapz)
    h.eq('concentration', n.s['Ct'], m.s['Ct'])
    h.eq('previous bed', n.l['zb'], m.l['zb'])
    h.eq('setting', n.p['CFL'], m.p['CFL'])
    h.true('counters', n.c == dict(time=3))
    n.s['Ct'] = n.s['Ct'] + 1
    h.eq('still protected', n.s['Ct'], m.s['Ct'])
    n.s['zb'] = n.s['zb'] + 1
    h.eq('still mutable', n.s['zb'], snapz + 1)


def fresh(h, m):
    A = type(m)
    n = A.__new__(A)
    n.p, n.s, n.l, n.c, n.t, n.o = {}, {}, {}, {}, 0., {}
    return n


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    for cls in ('AeoLiS', 'AeoLiSRunner'):
        for part in range(4):
            add(exchange, 'exchange-%s-%d' % (cls, part), part=part, parts=4, cls=cls)
        add(settings, 'settings-%s' % cls, cls=cls)
    add(listing, 'listing')
    add(protect, 'protect')
    add(coupled, 'coupled')
    add(restart, 'restart')
    return out
