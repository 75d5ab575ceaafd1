"""Groundwater level along cross-shore transects."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Groundwater follows Boussinesq below the bed and meets the sea at the shoreline',
    statement='In every transect the groundwater level after a step is the dynamic water level where that exceeds the bed and never above the bed elsewhere. Its rate of change '
              'is the documented central discretisation K/ne (D a + c), a the second difference, b = gw (gw+ - gw-)/dx, c = (b+ - b-)/dx, between shoreline and landward boundary, zero '
              'outside, advanced by fourth-order Runge-Kutta in tfac_gw steps that make up the whole time step, however short. At the shoreline it equals the dynamic water level; the landward boundary '
              'follows the level seaward of it (no_flow) or GW_stat (static). A level water table in balance with the sea stays level, a symmetric mound stays symmetric. Run-up adds '
              'at most Cl_gw between shoreline and run-up limit only. gw_prev is the level at the start of the step. Transects do not influence each other, the bed is not changed and '
              'completely flooded transects do not stop the model.',
    over=['inputs', 'configurations'],
    text='all groundwater, water and bed levels, conductivities and time steps',
    why='no test runs the groundwater process',
    files=['aeolis/hydro.py'],
    mech=[('groundwater', 'aeolis/hydro.py: update'), ('Boussinesq equation', 'aeolis/hydro.py: Boussinesq'), ('overheight', 'aeolis/hydro.py: runup_overheight_distr')])
META = dict(
    bounds='transects of 8 or 9 cells, 1 or 2 of them, at every position of shoreline and run-up limit from the third cell; time steps of half a second and 20 s in 1 to 3 parts; up to 3 arbitrary bed cells',
    outside='transects that start on land, numerical stability of the scheme, overheight on grids with unequal spacing',
    stubs=['numba.njit is the identity', 'the parts of a step are decided with a linear rate of change'],
    assumptions=['transects begin with two flooded cells; positive cell sizes and effective porosity'])


def tendency(h, n, shl, bound, rows=1, seepage=False):
    B = h.mod('hydro').Boussinesq
    g, d = h.array('gw', (rows, n), -5, 5), h.array('dswl', (rows, n), -5, 5)
    ds = h.array('ds', (rows, n), .1, 100)
    zb = h.full((rows, n), 100.)
    K, ne, D, st = h.real('K', 1e-6, .1), h.real('ne', .1, .9), h.real('D', 1, 100), h.real('stat', -5, 5)
    k = h.np.array([shl] + [n - 5] * (rows - 1)) if not isinstance(shl, tuple) else h.np.array(list(shl))
    idx = [int(v) for v in k]
    G = snap(g)
    q = B(g, d, ds, st, K, ne, D, k, bound, zb, seepage)
    for r in range(rows):
        w = [G[r, j] for j in range(n)]
        m = idx[r]
        w[m], w[m - 1] = d[r, m], d[r, m - 1]
        for j in (n - 1, n - 2, n - 3):
            w[j] = w[n - 4] if bound == 0 else st
        b = {j: w[j] * (w[j + 1] - w[j - 1]) / ds[r, j] for j in range(m, n - 2)}
        for j in range(n):
            if m < j < n - 3:
                a = (w[j + 1] - 2 * w[j] + w[j - 1]) / ds[r, j] ** 2
                c = (b[j + 1] - b[j - 1]) / ds[r, j]
                h.eq('rate of change', q[r, j] * ne, K * (D * a + c), scale=1e3)
            else:
                h.eq('no change', q[r, j], 0)


def mirror(h):
    """a symmetric mound between two cells at equal distance"""
    B = h.mod('hydro').Boussinesq
    n, m = 11, 2
    v = h.array('half', (4,), -5, 5)
    # interior m+1..n-4 = 3..7, symmetric about 5
    g = h.zeros((1, n))
    lev = [v[0], v[0], v[1], v[2], v[3], v[2], v[1], v[0], v[0]]
    for i, q in enumerate(lev):
        g[0, 1 + i] = q
    g[0, 10] = v[0]
    d = h.full((1, n), 0.)
    d[0, :] = v[0]
    q = B(g, d, h.full((1, n), 2.), v[0], h.real('K', 1e-6, .1), h.const('0.3'), h.const(12), h.np.array([m]), 1, h.full((1, n), 100.), False)
    for i in (1, 2):
        h.eq('stays symmetric', q[0, 5 - i], q[0, 5 + i])


def overheight(h, n, shl, ru):
    F = h.mod('hydro').runup_overheight_distr
    x0, dx = h.real('x0', -100, 100), h.real('dx', .1, 100)
    x = h.zeros((1, n))
    for i in range(n):
        x[0, i] = x0 + i * dx
    f = h.zeros((1, n))
    r = F(f, h.np.array([0]), h.np.array([shl]), h.np.array([ru]), x)
    for i in range(n):
        h.ge('not negative', r[0, i], 0)
        h.le('at most one', r[0, i], 1)
        if i < shl or i > ru or (i in (shl, ru) and ru > shl + 1):
            h.eq('only between shoreline and run-up limit', r[0, i], 0)
    if ru > shl + 1:
        h.true('overheight somewhere', (r > 0).any())


def step(h, rows, n, shl, ru=None, bound='no_flow', parts=1, ks=True, flooded=False, wave=False, mask=False, short=False, level=None, frozen=False, seepage=False):
    """one time step of the model; shoreline and run-up limit in given cells"""
    p = make_p(h, rows, n, process_groundwater=True, process_moist=False, process_tide=True, process_wave=wave, process_runup=False, process_seepage_face=seepage, external_vars=[])
    p['tide_file'] = p['wave_file'] = None
    p['boundary_gw'] = bound
    p['tfac_gw'] = parts
    p['K_gw'] = K = h.const('0.001') if not ks else h.real('K', 1e-6, .001)
    p['ne_gw'], p['D_gw'] = h.const('0.25'), h.const(12)
    p['GW_stat'] = h.const('0.5') if level is None else level
    p['Cl_gw'] = h.real('Cl', 0, 1) if wave else h.const('0.7')
    p['tstart'] = 0
    dt = h.const('0.5') if short else h.const(20)
    s = make_s(h, rows, n)
    s['ds'] = h.full((rows, n), 2.)
    for j in range(rows):
        s['x'][j, :] = h.np.arange(n) * 2.
    return s, p, dt


def run(h, s, p, dt):
    return h.mod('hydro').update(s, p, dt, 100.)


def capped(h, rows, n, shl, cells, **kw):
    s, p, dt = step(h, rows, n, shl, ks=False, **kw)
    for j in range(rows):
        for i in range(n):
            v = h.const((2 * i - 2 * shl - 1) / 8. if shl is not None else -(n - i) / 8.)
            if i in cells:
                v = h.real('zb%d-%d' % (j, i), -10, 10)
                if shl is None or i <= shl:
                    h.assume(v <= 0)
                elif i == shl + 1:
                    h.assume(v > 0)
            s['zb'][j, i] = v
    g = h.np.array([[(3 * ((5 * i + 7 * j) % 4) - 4) / 8. for i in range(n)] for j in range(rows)])
    s['gw'][:, :] = g
    s['gw_prev'][:, :] = h.np.array([[(3 * ((3 * i + 5 * j) % 4) - 4) / 8. for i in range(n)] for j in range(rows)])
    for j in range(rows):
        s['gw_prev'][j, cells[0]] = h.real('prev%d' % j, -2, 2)
    zb, before, prev = snap(s['zb']), snap(s['gw']), snap(s['gw_prev'])
    if kw.get('mask'):
        s['gw_mask'] = h.full((rows, n), 1.)
        s['gw_mask'][0, cells[-1]] = h.real('mask', -2, 2)
    s = run(h, s, p, dt)
    h.eq('bed untouched', s['zb'], zb)
    h.eq('level at the start', s['gw_prev'], before)
    for j in range(rows):
        for i in range(n):
            if zb[j, i] < 0:
                h.eq('sea level', s['gw'][j, i], 0)
            else:
                h.le('not above the bed', s['gw'][j, i], zb[j, i])
            h.true('rising or falling', bool(s['wetting'][j, i]) == bool(before[j, i] > prev[j, i]))


def level(h, rows, n, bound, parts=1):
    """a level water table stays"""
    s, p, dt = step(h, rows, n, None, bound=bound, parts=parts, level=h.const(0))
    z = h.np.array([[-2., -1., -.5] + [1. + i for i in range(n - 3)]] * rows)
    s['zb'][:, :] = z
    s = run(h, s, p, dt)
    h.eq('level', s['gw'], h.zeros((rows, n)))


def oracle(w, d, m, bound, st, K, ne, D, dx):
    n = len(w)
    w[m], w[m - 1] = d, d
    for j in (n - 1, n - 2, n - 3):
        w[j] = w[n - 4] if bound == 'no_flow' else st
    b = {j: w[j] * (w[j + 1] - w[j - 1]) / dx for j in range(m, n - 2)}
    q = [0] * n
    for j in range(m + 1, n - 3):
        q[j] = K / ne * (D * (w[j + 1] - 2 * w[j] + w[j - 1]) / dx ** 2 + (b[j + 1] - b[j - 1]) / dx)
    return q


def linear(GW, *a, **k):
    """stands in for the Boussinesq equation (decided by the other cases)"""
    q = GW * 0
    q[:, 3:-3] = (GW[:, 2:-4] - GW[:, 3:-3]) / 8 + GW[:, 4:-2] / 16
    return q


def parts(h, rows, n, k, short=False):
    """the parts of a step"""
    hydro = h.mod('hydro')
    s, p, dt = step(h, rows, n, None, parts=k, short=short, ks=False)
    s['zb'][:, :] = h.np.array([[-1. if i <= 2 else 1e6 for i in range(n)] for j in range(rows)])
    s['gw'][:, :] = h.array('gw', (rows, n), -5, 5)
    G = snap(s['gw'])
    keep = hydro.Boussinesq
    hydro.Boussinesq = linear
    try:
        s = run(h, s, p, dt)
    finally:
        hydro.Boussinesq = keep
    w = G
    T = dt / k
    for _ in range(k):
        f1 = linear(w)
        f2 = linear(w + T / 2 * f1)
        f3 = linear(w + T / 2 * f2)
        f4 = linear(w + T * f3)
        w = w + T / 6 * (f1 + 2 * f2 + 2 * f3 + f4)
        w[:, :3] = 0
    h.eq('parts of the step', s['gw'], w)


def stepped(h, rows, n, bound, short=False, sym='K'):
    """the whole step against an independent Runge-Kutta scheme"""
    s, p, dt = step(h, rows, n, None, bound=bound, short=short, ks=sym == 'K')
    K = p['K_gw']
    m = [2 + (j % 2) for j in range(rows)]
    z = h.np.array([[-1. if i <= m[j] else 50. for i in range(n)] for j in range(rows)])
    s['zb'][:, :] = z
    g = h.np.array([[(3 * ((5 * i + 7 * j) % 4) - 4) / 8. for i in range(n)] for j in range(rows)])
    s['gw'][:, :] = g
    if sym == 'gw':
        s['gw'][0, n - 4] = h.real('level', -2, 2)
    G = snap(s['gw'])
    s = run(h, s, p, dt)
    for j in range(rows):
        w = [G[j, i] for i in range(n)]

        def f(u):
            return oracle(u, 0, m[j], bound, p['GW_stat'], K, p['ne_gw'], p['D_gw'], 2)
        f1 = f(w)                    # boundary conditions stay in w
        f2 = f([a + dt / 2 * b for a, b in zip(w, f1)])
        f3 = f([a + dt / 2 * b for a, b in zip(w, f2)])
        f4 = f([a + dt * b for a, b in zip(w, f3)])
        w = [a + dt / 6 * (q1 + 2 * q2 + 2 * q3 + q4) for a, q1, q2, q3, q4 in zip(w, f1, f2, f3, f4)]
        for i in range(n):
            h.eq('Runge-Kutta step', s['gw'][j, i], 0 if i <= m[j] else w[i])


def runup(h, n, shl, ru):
    """overheight in the model: between nothing and Cl_gw per part of the step"""
    s, p, dt = step(h, 1, n, None, bound='static', wave=True, level=h.const(0))
    z = h.np.array([[-1. if i <= shl else (1. if ru is None or i <= ru else 60.) for i in range(n)]])
    s['zb'][:, :] = z
    s['zb'][0, :] = s['zb'][0, :] * h.real('steep', 1, 10)
    s['TWL'][:, :] = h.const(30)
    zb = snap(s['zb'])
    s = run(h, s, p, dt)
    last = n - 1 if ru is None else ru
    for i in range(n):
        g = s['gw'][0, i]
        if i <= shl:
            h.eq('sea level', g, 0)
        elif i <= last:
            h.ge('raised', g, 0)
            h.le('at most the overheight', g, p['Cl_gw'])
            h.le('not above the bed', g, zb[0, i])
        else:
            h.eq('beyond run-up', g, 0)


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    for b in (0, 1):
        for m in (1, 2, 4):
            add(tendency, 'tendency-%d-%d' % (b, m), n=8, shl=m, bound=b)
        add(tendency, 'tendency-rows-%d' % b, n=8, shl=(1, 3), bound=b, rows=2)
    add(mirror, 'mirror')
    for m in (1, 2, 3):
        for r in range(m, 8):
            add(overheight, 'overheight-%d-%d' % (m, r), n=9, shl=m, ru=r)
    for b in ('no_flow', 'static'):
        add(stepped, 'step-%s' % b, rows=1, n=8, bound=b)
        add(stepped, 'step-rows-%s' % b, rows=2, n=8, bound=b)
        add(level, 'level-%s' % b, rows=2, n=8, bound=b)
        add(capped, 'capped-%s' % b, rows=1, n=8, shl=2, bound=b, cells=(1, 3, 4))
    add(stepped, 'step-short', rows=1, n=8, bound='static', short=True)
    add(stepped, 'step-level', rows=1, n=8, bound='no_flow', sym='gw')
    for k in (1, 2, 3):
        add(parts, 'parts-%d' % k, rows=2, n=8, k=k)
    add(parts, 'parts-short', rows=1, n=8, k=3, short=True)
    add(capped, 'capped-landward', rows=1, n=8, shl=3, cells=(5, 6, 7))
    add(capped, 'capped-mask', rows=1, n=8, shl=3, cells=(2, 4), mask=True)
    add(capped, 'capped-rows', rows=2, n=7, shl=2, cells=(3, 4))
    add(capped, 'flooded', rows=1, n=8, shl=None, cells=(0, 4, 7))
    for m in (1, 2):
        for r in (m, m + 1, m + 2, m + 3, None):
            add(runup, 'runup-%d-%s' % (m, r), n=9, shl=m, ru=r)
    return out
