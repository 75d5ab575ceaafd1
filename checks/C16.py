"""Output statistics and output intervals."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Output holds the right statistics of every step since the previous output',
    statement='For each output variable the model runner writes, and get_var(name_stat) and get_statistic return, the sum, average, minimum, maximum and sample variance '
              '(n-1) over exactly the steps since statistics were last cleared: at every output, after a fast-forward step and '
              'at the step after a get_var that asks for clearing. Without steps the average is 0 and with fewer than two the variance is 0. The plain '
              'variable is its value at the time of output. q is always the length of (qs, qn) of the same step. Output is written at t=0 and '
              'whenever at least output_times has passed since the last output; the model time is stored as record, with time '
              'bounds from the previous record (0 for the first). Existing records are never changed. Every variable in output_vars is written as '
              'itself and for each requested type, also if its name has underscores.',
    over=['inputs', 'histories', 'configurations'],
    text='all values of the state in up to four steps, all output intervals and step sizes',
    why='output files are only compared for names in the tests',
    files=['aeolis/model.py', 'aeolis/netcdf.py'],
    mech=[('statistics', 'aeolis/model.py: AeoLiSRunner.output_update, get_statistic, get_var'),
          ('intervals', 'aeolis/model.py: AeoLiSRunner.output_write, update, output_clear'), ('file', 'aeolis/netcdf.py: append, set_bounds')])
META = dict(
    bounds='one and two cells with one fraction, values in [-1000,1000], up to 4 steps and 3 outputs',
    outside='the netCDF library and its rounding to single precision, metadata, restart and hotstart files',
    stubs=['AeoLiS.update sets arbitrary values', 'an in-memory stand-in for netCDF4.Dataset', 'the configuration file is not read'],
    assumptions=[])

STATS = ('avg', 'sum', 'min', 'max', 'var')


class Var(object):
    def __init__(self):
        self.rec = {}

    @property
    def shape(self):
        return (max([k[0] if isinstance(k, tuple) else k for k in self.rec] + [-1]) + 1,)

    def __setitem__(self, k, v):
        self.rec[k] = v.copy() if hasattr(v, 'copy') else v

    def __getitem__(self, k):
        return self.rec[k]


class File(object):
    """in-memory netCDF file"""

    def __init__(self):
        self.variables = {}

    def __call__(self, name, mode):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def get(self, k):
        return self.variables.setdefault(k, Var())


class Any(dict):
    def __missing__(self, k):
        self[k] = Var()
        return self[k]


def runner(h, names=('zb',), types=STATS, ny=1, nx=1, nf=1, **over):
    M = h.mod('model')
    p = make_p(h, ny, nx, 1, nf, output_vars=list(names), output_types=list(types), output_file='x.nc', **over)
    I = h.mod('inout')
    old = I.read_configfile
    I.read_configfile = lambda *a, **k: p
    try:
        m = M.AeoLiSRunner(__file__)
    finally:
        I.read_configfile = old
    m.p = p
    for k, v in make_s(h, ny, nx, 1, nf).items():
        m.s[k] = v
    m.t = 0.
    f = File()
    f.variables = Any()
    N = h.mod('netcdf')
    h.cleanup = (N, getattr(N, 'netCDF4', None), N.HAVE_NETCDF, N.initialize)
    N.netCDF4 = type('L', (), dict(Dataset=staticmethod(f)))
    N.HAVE_NETCDF = True
    N.initialize = lambda *a: None
    return m, f


class Base(object):
    """replaces the computation of a step"""

    def __init__(self, h, m, todo):
        self.h, self.m, self.todo = h, m, list(todo)

    def __enter__(self):
        A = self.h.mod('model').AeoLiS
        self.A, self.old = A, A.update

        def update(m, dt=-1):
            f = self.todo.pop(0)
            f(m)
        A.update = update

    def __exit__(self, *a):
        self.A.update = self.old
        N, lib, have, ini = self.h.cleanup
        N.netCDF4, N.HAVE_NETCDF, N.initialize = lib, have, ini


def expect(h, label, got, vals, stat):
    n = len(vals)
    if stat == 'sum':
        h.eq('%s sum' % label, got, sum(vals), scale=1e3)
    elif stat == 'avg':
        h.eq('%s average' % label, got, sum(vals) / n if n else 0 * got, scale=1e3)
    elif stat == 'var':
        if n < 2:
            h.eq('%s variance' % label, got, 0 * got)
        else:
            mean = sum(vals) / n
            h.eq('%s variance' % label, got, sum([(v - mean) ** 2 for v in vals]) / (n - 1), scale=1e6)
    else:
        k = 0
        hit = False
        for v in vals:
            if stat == 'min':
                h.true('%s minimum' % label, (got <= v).all())
            else:
                h.true('%s maximum' % label, (got >= v).all())
            hit = hit | (got == v)
        if vals:
            h.true('%s %s attained' % (label, stat), hit.all())


def setter(v, k, t=None):
    def f(m):
        m.s[k] = v.copy()
        if t is not None:
            m.t = t
    return f


def stats(h, n, types, nx=1, var='zb'):
    """n steps"""
    name = var
    m, f = runner(h, (name,), types, nx=nx)
    vals = [h.array('v%d' % i, (1, nx), -1000, 1000) for i in range(n)]
    with Base(h, m, [setter(v, name) for v in vals]):
        m.output_init()
        for i in range(n):
            m.update()
        for st in types:
            expect(h, 'get_statistic', m.get_statistic(name, st), vals, st)
            expect(h, 'get_var', m.get_var('%s_%s' % (name, st), clear=False), vals, st)
        if n:
            h.eq('value', m.get_var(name, clear=False), vals[-1])
        h.eq('number of steps', m.n, n)


def clearing(h, how, types=('avg', 'var', 'min')):
    """statistics start again"""
    m, f = runner(h, ('zb',), types)
    vals = [h.array('v%d' % i, (1, 1), -1000, 1000) for i in range(4)]
    todo = [setter(v, 'zb') for v in vals]
    with Base(h, m, todo):
        m.output_init()
        m.update()
        m.update()
        if how == 'get_var':
            expect(h, 'before', m.get_var('zb_avg'), vals[:2], 'avg')
            m.get_var('zb_avg')
        elif how == 'keep':
            m.get_var('zb_avg', clear=False)
            m.get_var('zb', clear=False)
        elif how == 'skip':
            m.dt = -600.
        elif how == 'clear':
            m.output_clear()
        if how == 'skip':
            m.update()
            m.dt = 60.
        m.update()
        if how != 'skip':
            m.update()
        use = vals if how == 'keep' else vals[2:]
        h.eq('steps', m.n, len(use))
        for st in types:
            expect(h, 'after', m.get_statistic('zb', st), use, st)


def outputs(h, n, types, t0=0, name='zb'):
    """a run of n steps of any length; any output interval"""
    m, f = runner(h, (name,), types)
    m.p['restart'] = None
    m.p['output_times'] = dt_out = h.real('output_times', 1, 1000)
    ts = [h.const(t0)]
    vals = [h.array('v%d' % i, (1, 1), -1000, 1000) for i in range(n + 1)]
    for i in range(n):
        ts.append(ts[-1] + h.real('dt%d' % i, .5, 1000))
    m.s[name] = vals[0].copy()
    m.t = ts[0]
    with Base(h, m, [setter(vals[i + 1], name, ts[i + 1]) for i in range(n)]):
        m.output_init()
        m.output_write()
        last, out, since = 0, [], []
        if t0 == 0:
            out.append((ts[0], vals[0], []))
        elif ts[0] - last >= dt_out:
            out.append((ts[0], vals[0], []))
            last = ts[0]
        for i in range(n):
            m.update()
            m.output_write()
            since.append(vals[i + 1])
            if ts[i + 1] - last >= dt_out:
                out.append((ts[i + 1], vals[i + 1], since))
                last, since = ts[i + 1], []
    h.eq('number of records', len(f.variables['time'].rec) if 'time' in f.variables else 0, len(out))
    for r, (t, v, ss) in enumerate(out):
        h.eq('time', f.variables['time'][r], t)
        h.eq('time bound', f.variables['time_bounds'][r, 1], t)
        h.eq('previous time bound', f.variables['time_bounds'][r, 0], out[r - 1][0] if r else 0)
        key = lambda k: [x for x in f.variables[k].rec if (x[0] if isinstance(x, tuple) else x) == r]
        h.eq('value', f.variables[name][key(name)[0]], v)
        h.true('written once', len(f.variables[name].rec) == len(out))
        for st in types:
            k = '%s_%s' % (name, st)
            if ss or st in ('avg', 'sum', 'var'):
                expect(h, 'written', f.variables[k][key(k)[0]], ss, st)


def selection(h):
    """names and types of output variables"""
    for names, types, want in (
            (['zb', 'zs'], [], dict(zb=[None], zs=[None])),
            (['zb', 'zb_avg', 'zb_max'], [], dict(zb=[None, 'avg', 'max'])),
            (['zb_avg'], ['max', 'avg'], dict(zb=['avg', 'max'])),
            ('zb', 'sum', dict(zb=[None, 'sum'])),
            (['moist_swr', 'scan_w_moist', 'w_h'], ['avg'], {'moist_swr': [None, 'avg'], 'scan_w_moist': [None, 'avg'], 'w_h': [None, 'avg']}),
            (['moist_swr_avg'], [], {'moist_swr': ['avg']})):
        m, f = runner(h, (), ())
        m.p['output_vars'], m.p['output_types'] = names, types
        with Base(h, m, []):
            m.output_init()
        h.true('%s with %s' % (names, types), {k: sorted(map(str, v)) for k, v in m.p['_output_vars'].items()} ==
               {k: sorted(map(str, v)) for k, v in want.items()})


def access(h):
    """get_var of variables, settings and statistics"""
    m, f = runner(h, ('zb', 'moist'), ('avg',))
    m.s['moist_swr'] = h.array('swr', (1, 1), 0, 1)
    m.s['moist'] = h.array('moist', (1, 1), 0, 1)
    m.s['scan_w_moist'] = h.array('scan', (1, 1), 0, 1)
    m.p['output_times'] = x = h.real('interval', 0, 100)
    sw, mo = snap(m.s['moist_swr']), snap(m.s['moist'])
    with Base(h, m, [lambda m: None] * 2):
        m.output_init()
        m.update()
        for clear in (True, False):
            h.eq('moist_swr', m.get_var('moist_swr', clear=clear), sw)
            h.eq('moist', m.get_var('moist', clear=clear), mo)
            h.eq('scan', m.get_var('scan_w_moist', clear=clear), m.s['scan_w_moist'])
            h.eq('setting', m.get_var('output_times', clear=clear), x)
            h.eq('average', m.get_var('moist_avg', clear=clear), mo)
        h.true('unknown', m.get_var('unknown') is None)


def flux(h):
    """q of the same step, also in its statistics"""
    m, f = runner(h, ('q',), ('avg', 'max'))
    qs = [h.array('qs%d' % i, (1, 1, 1), -10, 10) for i in range(2)]
    qn = [h.array('qn%d' % i, (1, 1, 1), -10, 10) for i in range(2)]

    def step(i):
        def f(m):
            m.s['qs'], m.s['qn'] = qs[i].copy(), qn[i].copy()
        return f
    with Base(h, m, [step(0), step(1)]):
        m.output_init()
        q = []
        for i in range(2):
            m.update()
            q.append(snap(m.get_var('q', clear=False)))
            h.eq('length of the flux', q[-1] ** 2, qs[i] ** 2 + qn[i] ** 2, scale=100.)
            h.ge('not negative', q[-1], 0)
        expect(h, 'q', m.get_statistic('q', 'avg'), q, 'avg')
        expect(h, 'q', m.get_statistic('q', 'max'), q, 'max')


def default_output(h):
    """the default output variables exist"""
    c = h.mod('constants')
    known = [n for names in c.MODEL_STATE.values() for n in names]
    for v in c.DEFAULT_CONFIG['output_vars']:
        h.true('%s is a variable' % v, v in known)


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    for n in range(5):
        add(stats, 'stats-linear-%d' % n, n=n, types=('avg', 'sum', 'var'), nx=2)
        add(stats, 'stats-range-%d' % n, n=n, types=('min', 'max'))
    for st in STATS:
        add(stats, 'stats-%s-alone' % st, n=3, types=(st,))
    add(stats, 'stats-underscore', n=2, types=('avg', 'var'), var='moist_swr')
    for how in ('get_var', 'keep', 'skip', 'clear'):
        add(clearing, 'clearing-%s' % how, how=how)
    add(outputs, 'outputs-3', n=3, types=('avg', 'var'))
    add(outputs, 'outputs-2-range', n=2, types=('min', 'max'))
    add(outputs, 'outputs-later', n=2, types=('sum',), t0=500)
    add(outputs, 'outputs-soon', n=2, types=('avg',), t0=1)
    add(selection, 'selection')
    add(access, 'access')
    add(flux, 'flux')
    add(default_output, 'default-output')
    if tier == 'thorough':
        add(outputs, 'outputs-4', n=4, types=('avg', 'var', 'max'), cost=9)
        add(stats, 'stats-range-2cells', n=4, types=('min', 'max'), nx=2, cost=9)
    return out
