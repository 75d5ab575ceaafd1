"""Time stepping."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Time steps obey their limits, advance time once and leave the grid as it was',
    statement='set_timestep chooses a positive step not longer than the requested one (or dt of the configuration), in the explicit scheme '
              'not longer than the Courant condition CFL/(max(|uws|/ds)+max(|uwn|/dn)) and with max_bedlevel_change not longer than what '
              'would change the bed by that much at the latest rate of erosion or deposition; it is the largest step within these limits. '
              'update advances time by exactly dt*accfac, also when the explicit scheme finds no wind; a step below -1 only advances time by its size '
              'and computes nothing. Processes are run once, for the time at the start of the step, on a grid rotated by alpha about its centre, '
              'with wind, shear and flux vectors turned along; afterwards grid and vectors are back in the original orientation. Disabled processes have '
              'no effect and without wind nothing is blown, pickup and flux are zero. The previous state keeps the bed level and mean change from before the step. euler_forward, '
              'crank_nicolson and euler_backward solve with implicitness 0, 1/2 and 1.',
    over=['inputs', 'configurations', 'histories'],
    text='all wind fields, bed changes, grids, time steps and settings',
    why='runs of the example only use one step size and grid orientation',
    files=['aeolis/model.py', 'aeolis/utils.py'],
    mech=[('step size', 'aeolis/model.py: AeoLiS.set_timestep'), ('update', 'aeolis/model.py: AeoLiS.update'),
          ('rotation', 'aeolis/model.py: AeoLiS.grid_rotate; aeolis/utils.py: rotate')])
META = dict(
    bounds='1x2 and 2x2 cells; requested and configured steps up to a day; wind up to 60 m/s; cell sizes 0.1 to 100 m; grid orientations 0, 30 and -90 degrees and (rotation) any angle',
    outside='the processes themselves (decided by the other properties), rounding of the time',
    stubs=['in the update cases the functions of the process modules are replaced by recorders that change the bed by arbitrary amounts'],
    assumptions=['positive cell sizes'])


def bare(h, ny, nx, nf=1, **over):
    p = make_p(h, ny, nx, 1, nf, **over)
    s = make_s(h, ny, nx, 1, nf)
    A = h.mod('model')
    m = A.AeoLiS.__new__(A.AeoLiS)
    m.p, m.s, m.c, m.l = p, A.ModelState(), {}, {}
    for k, v in s.items():
        m.s[k] = v
    m.t, m.dt = h.real('t', 0, 1e6), 0.
    return m


def step(h, scheme, limit, wind, given, cells=(1, 2), dims='*'):
    ny, nx = cells
    m = bare(h, ny, nx, scheme=scheme)
    p, s = m.p, m.s
    p['accfac'] = h.real('accfac', 1, 100)
    p['CFL'] = h.real('CFL', 0, 2) if scheme == 'euler_forward' else h.const(1)
    p['dt'] = h.real('p_dt', 1, 86400)
    s['uws'] = h.array('uws', (ny, nx), -60, 60) if wind and dims in '*s' else h.zeros((ny, nx))
    s['uwn'] = h.array('uwn', (ny, nx), -60, 60) if wind and dims in '*n' else h.zeros((ny, nx))
    s['ds'], s['dn'] = h.array('ds', (ny, nx), .1, 100), h.array('dn', (ny, nx), .1, 100)
    if not limit:
        h.assume(m.t >= 0)
    s['dzb'] = h.array('dzb', (ny, nx), -1, 1)
    m.dt_prev = h.real('prev', -3600, 3600)
    if limit:
        p['max_bedlevel_change'] = mx = h.real('mx', 0, 1)
        h.assume(mx > 0)
    req = {'given': lambda: h.real('dt', 0, 86400), 'default': lambda: -1, 'zero': lambda: 0.}[given]()
    if given == 'given':
        h.assume(req > 0)
    want = req if given == 'given' else p['dt']
    t0 = m.t
    ok = m.set_timestep(req)
    both = lambda k: [sg * s[k][j, i] for j in range(ny) for i in range(nx) for sg in (1, -1)]
    calm = not wind or (all([bool(v <= 0) for v in both('uws')]) and all([bool(v <= 0) for v in both('uwn')]))
    cfl = scheme == 'euler_forward' and p['CFL'] > 0
    if cfl and calm:
        h.true('no step without wind', not ok)
        h.eq('one second at most', m.dt, min(want, 1))
        h.eq('time advances without wind', m.t, t0 + m.dt * p['accfac'])
        return
    h.true('step found', ok)
    h.eq('time not changed yet', m.t, t0)
    h.true('positive', m.dt > 0)
    h.ge('not longer than requested', want, m.dt)
    tight = m.dt == want
    if cfl:
        size = lambda k, d: [sg * s[k][j, i] * m.dt / s[d][j, i] for j in range(ny) for i in range(nx) for sg in (1, -1)]
        for va in size('uws', 'ds'):
            for vb in size('uwn', 'dn'):
                h.ge('Courant condition', p['CFL'], va + vb, scale=1e2)
                tight = tight | (va + vb >= p['CFL'] * (1 - 1e-9))
    if limit and m.dt_prev > 0:
        for v in both('dzb'):
            h.ge('bed level change', mx * m.dt_prev, v * m.dt, scale=1e3)
            tight = tight | (v * m.dt >= mx * m.dt_prev * (1 - 1e-9))
    h.true('no shorter than needed', tight)
    h.eq('step known to the processes', p['dt_opt'], m.dt)


def skip(h, scheme, alpha):
    """a step below -1 skips time"""
    m = bare(h, 1, 2, scheme=scheme)
    m.p['alpha'] = alpha
    vectors(h, m, 1, 2, 1)
    m.p['wind_file'] = None
    big = h.real('skip', 1, 86400)
    h.assume(big > 1)
    stub = Stubs(h, m, wind=True)
    old = {k: snap(v) for k, v in m.s.items() if hasattr(v, 'copy')}
    t0 = m.t
    with stub:
        m.update(-big)
    h.eq('time skipped', m.t, t0 + big)
    for k, v in old.items():
        if k not in ('udir', 'zb', 'dzbavg'):
            h.eq('%s as before' % k, m.s[k], v, tol=1e-9, scale=100.)
    h.eq('direction as before', m.s['udir'], old['udir'], scale=100.)
    for k in ('equilibrium', 'bed', 'hydro', 'mix', 'threshold', 'solve'):
        h.true('%s not run' % k, k not in stub.log)


VEC = (('taus', 'taun'), ('taus0', 'taun0'), ('ustars', 'ustarn'), ('ustars0', 'ustarn0'), ('uws', 'uwn'))


def vectors(h, m, ny, nx, nf, q=True):
    s = m.s
    s['x'], s['y'] = h.array('x', (ny, nx), -100, 100), h.array('y', (ny, nx), -100, 100)
    for a, b in VEC:
        s[a], s[b] = h.array(a, (ny, nx), -10, 10), h.array(b, (ny, nx), -10, 10)
    s['qs'], s['qn'] = h.array('qs', (ny, nx, nf), -1, 1), h.array('qn', (ny, nx, nf), -1, 1)
    s['udir'] = h.array('udir', (ny, nx), -180, 180)


class Stubs(object):
    """replaces the process functions; each adds its own amount to the bed"""
    FN = dict(interpolate=('wind', 'interpolate'), shear=('wind', 'shear'), fences=('fences', 'update_fences'), vegshear=('vegetation', 'vegshear'),
              tides=('hydro', 'interpolate'), hydro=('hydro', 'update'), mix=('bed', 'mixtoplayer'), threshold=('threshold', 'compute'),
              equilibrium=('transport', 'equilibrium'), bed=('bed', 'update'), repose=('avalanching', 'angele_of_repose'),
              avalanche=('avalanching', 'avalanche'), wet=('bed', 'wet_bed_reset'), average=('bed', 'average_change'),
              erosion=('erosion', 'run_ph12'), germinate=('vegetation', 'germinate'), grow=('vegetation', 'grow'))

    def __init__(self, h, m, wind):
        self.h, self.m, self.wind, self.log, self.args, self.seen, self.amount = h, m, wind, [], {}, {}, {}
        for k in list(self.FN) + ['solve']:
            self.amount[k] = h.real('by_' + k, -1, 1)

    def make(self, k):
        def f(*a):
            s, a = (a[1], a[2:]) if k == 'average' else (a[0], a[1:])
            self.log.append(k)
            self.args[k] = a
            self.seen[k] = {v: snap(s[v]) for v in ('x', 'y', 'uws', 'uwn', 'taus', 'taun', 'udir')}
            s['zb'] += self.amount[k]
            s['dzbavg'] += 1
            return s
        return f

    def __enter__(self):
        h = self.h
        self.old = {}
        for k, (mod, fn) in self.FN.items():
            M = h.mod(mod)
            self.old[k] = getattr(M, fn)
            setattr(M, fn, self.make(k))

        def sol(*a, **kw):
            self.log.append('solve')
            self.args['solve'] = kw
            return dict(pickup=self.m.s['pickup'] + 1)
        self.m.solve = sol

    def __exit__(self, *a):
        for k, (mod, fn) in self.FN.items():
            setattr(self.h.mod(mod), fn, self.old[k])
        del self.m.solve


CALM = ['shear', 'threshold', 'equilibrium', 'bed', 'repose', 'avalanche', 'wet', 'average']


def update(h, alpha, scheme='euler_backward', wind=True, on=(), explicit_dt=False):
    ny, nx = 1, 2
    m = bare(h, ny, nx, scheme=scheme)
    p, s = m.p, m.s
    p['alpha'] = alpha
    p['solver'] = 'trunk'
    p['CFL'] = 0.
    vectors(h, m, ny, nx, 1)
    s['uw'] = h.array('uw', (ny, nx), 1, 60) if wind else h.zeros((ny, nx))
    s['zb'] = h.array('zb', (ny, nx), -5, 5)
    for k in ('fences', 'vegetation', 'dune_erosion'):
        p['process_' + k] = k in on
    p['accfac'] = h.real('accfac', 1, 100)
    p['dt'] = h.real('p_dt', 1, 86400)
    p['visualization'] = False
    dt = h.real('dt', 1, 86400) if explicit_dt else -1
    want = dt if explicit_dt else p['dt']
    old = {k: snap(v) for k, v in s.items() if hasattr(v, 'copy')}
    t0 = m.t
    st = Stubs(h, m, wind)
    with st:
        m.update(dt)
        run = set(st.log)
    h.eq('time', m.t, t0 + want * p['accfac'])
    h.eq('step', m.dt, want)
    h.eq('start of the step', p['_time'], t0)
    h.eq('count', m.get_count('time'), 1)
    # what may have run
    must = ['interpolate', 'tides', 'hydro', 'mix', 'average'] + (CALM[:-1] + ['solve'] if wind else [])
    never = ([] if wind else ['threshold', 'equilibrium', 'bed', 'solve'])
    for k, names in (('fences', ['fences']), ('vegetation', ['vegshear', 'germinate', 'grow']), ('dune_erosion', ['erosion'])):
        (must if k in on else never).extend(names)
    for k in must:
        h.true('%s was run' % k, k in run)
        if not (k in ('repose', 'avalanche') and 'dune_erosion' in on):
            h.eq('%s once' % k, st.log.count(k), 1)
    for k in never:
        h.true('%s was not run' % k, k not in run)
    for k in ('interpolate', 'tides'):
        h.eq('%s for the start of the step' % k, st.args[k][1], t0)
    h.eq('step of hydro', st.args['hydro'][1], want)
    h.eq('time of hydro', st.args['hydro'][2], t0)
    if 'dune_erosion' in on:
        h.eq('time of dune erosion', st.args['erosion'][1], t0)
    if wind:
        h.eq('solver result stored', s['pickup'], old['pickup'] + 1)
        h.eq('implicitness', st.args['solve']['alpha'], dict(euler_forward=0, euler_backward=1, crank_nicolson=h.const('0.5'))[scheme])
        order = [st.log.index(k) for k in ('interpolate', 'shear', 'tides', 'threshold', 'equilibrium', 'solve', 'bed', 'avalanche', 'average')]
        h.true('order', order == sorted(order))
    # orientation
    a = alpha / h.const(180) * h.np.pi
    c, sn = h.np.cos(a), h.np.sin(a)
    for k in ('shear', 'hydro', 'threshold', 'bed') if wind else ('hydro', 'mix'):
        v = st.seen[k]
        for u, w in (('uws', 'uwn'), ('taus', 'taun')):
            h.eq('turned %s' % u, v[u], old[u] * c + old[w] * sn, tol=1e-9, scale=100.)
            h.eq('turned %s' % w, v[w], old[w] * c - old[u] * sn, tol=1e-9, scale=100.)
        h.eq('turned direction', v['udir'], old['udir'] + alpha, scale=100.)
    if not wind:
        for k in ('pickup', 'qs', 'qn'):
            h.eq('%s without wind' % k, s[k], 0 * old[k])
    for k in [v for pr in VEC for v in pr] + ['x', 'y', 'udir'] + (['qs', 'qn'] if wind else []):
        h.eq('%s as before' % k, s[k], old[k], tol=1e-9, scale=100.)
    tot = sum(st.amount[k] * st.log.count(k) for k in set(st.log) if k != 'solve')
    h.eq('bed', s['zb'], old['zb'] + tot)
    h.eq('bed before the step', m.l['zb'], old['zb'])
    h.eq('mean change before the step', m.l['dzbavg'], old['dzbavg'])


def turn(h, ny, nx, nf, alpha):
    """rotation there and back, by any angle"""
    m = bare(h, ny, nx, nf)
    vectors(h, m, ny, nx, nf)
    a = h.real('angle', -180, 180) if alpha is None else h.const(alpha)
    s = m.s
    old = {k: snap(v) for k, v in s.items() if hasattr(v, 'copy')}
    m.s = m.grid_rotate(a)
    for u, w in VEC + (('qs', 'qn'),):
        h.eq('length of (%s, %s)' % (u, w), m.s[u] ** 2 + m.s[w] ** 2, old[u] ** 2 + old[w] ** 2, tol=1e-8, scale=1e3)
    d = lambda s: (s['x'] - s['x'][0, 0]) ** 2 + (s['y'] - s['y'][0, 0]) ** 2
    h.eq('distances', d(m.s), d(old), tol=1e-8, scale=1e4)
    h.eq('centre x', m.s['x'].mean(), old['x'].mean(), scale=100.)
    h.eq('centre y', m.s['y'].mean(), old['y'].mean(), scale=100.)
    if alpha == 90:
        for u, w in VEC + (('qs', 'qn'),):
            h.eq('%s turned' % u, m.s[u], old[w], tol=1e-9, scale=100.)
            h.eq('%s turned' % w, m.s[w], -old[u], tol=1e-9, scale=100.)
    m.s = m.grid_rotate(-a)
    for k, v in old.items():
        h.eq('%s back' % k, m.s[k], v, tol=1e-9, scale=100.)


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    for given in ('given', 'default', 'zero'):
        for limit in (0, 1):
            add(step, 'step-implicit-%s-%d' % (given, limit), scheme='euler_backward', limit=limit, wind=1, given=given)
    add(step, 'step-cn', scheme='crank_nicolson', limit=1, wind=1, given='given')
    for limit in (0, 1):
        for d in 'sn':
            add(step, 'step-explicit-%s-%d' % (d, limit), scheme='euler_forward', limit=limit, wind=1, given='given', dims=d, cells=(1, 2 - limit), cost=3)
    add(step, 'step-explicit-both', scheme='euler_forward', limit=0, wind=1, given='default', cells=(1, 1), cost=2)
    add(step, 'step-explicit-calm', scheme='euler_forward', limit=0, wind=0, given='given')
    add(step, 'step-explicit-calm-default', scheme='euler_forward', limit=1, wind=0, given='default')
    for alpha in (0, 30, -90):
        add(skip, 'skip-%d' % alpha, scheme='euler_backward', alpha=alpha)
        add(update, 'update-%d' % alpha, alpha=alpha, explicit_dt=alpha == 30)
    for sc in ('euler_forward', 'crank_nicolson'):
        add(update, 'update-%s' % sc, alpha=0, scheme=sc)
    add(update, 'update-calm', alpha=30, wind=False)
    add(update, 'update-calm-all', alpha=0, wind=False, on=('fences', 'vegetation', 'dune_erosion'))
    for k in ('fences', 'vegetation', 'dune_erosion'):
        add(update, 'update-%s' % k, alpha=0, on=(k,))
    add(turn, 'turn-any', ny=1, nx=2, nf=2, alpha=None, cost=2)
    add(turn, 'turn-90', ny=2, nx=2, nf=1, alpha=90)
    if tier == 'thorough':
        add(step, 'step-explicit-2x2', scheme='euler_forward', limit=1, wind=1, given='given', cells=(2, 2), cost=9)
        add(step, 'step-explicit-1x3', scheme='euler_forward', limit=1, wind=1, given='given', cells=(1, 3), cost=9)
        add(turn, 'turn-any-2x2', ny=2, nx=2, nf=2, alpha=None, cost=5)
    return out
