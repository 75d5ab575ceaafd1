"""Vegetation: cover, growth, germination and shear reduction."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Vegetation stays within its limits, only grows where rooted and only slows wind',
    statement='Initially negative cover is removed and height is hveg_max sqrt(cover). Growth (over dt_opt*accfac) follows V_ver (1-h/hveg_max) - veg_gamma '
              '|dzbveg-dzb_opt| (orig) or the Duran-Moore rate of cover, keeps height in [0,hveg_max] and cover in [0,1] (at most rhoveg_max for '
              'duranmoore14), and only affects cells that germinated or expanded laterally: dead or bare cells stay bare. Vegetation under water '
              '(with tide) or below veg_min_elevation is removed with its germination. New cells germinate with a chance of germinate per year whatever the '
              'time step and not where the bed erodes; expansion needs a neighbour with more cover. Shear velocity keeps its direction and is multiplied by '
              '1/sqrt(1+gamma_vegshear cover), smoothed (raupach), or reduced downwind of plants by Okin\'s exponential law within 20 heights (okin), to 0.01 m/s at least. '
              'It is never increased beyond that and bare ground without upwind plants keeps its wind. Stress stays rho_air ustar^2 in the same direction.',
    over=['inputs', 'configurations'],
    text='all covers, heights, bed changes, winds, random numbers and settings',
    why='vegetation has no tests',
    files=['aeolis/vegetation.py', 'aeolis/wind.py'],
    mech=[('growth', 'aeolis/vegetation.py: initialize, grow'), ('germination', 'aeolis/vegetation.py: germinate'),
          ('shear reduction', 'aeolis/vegetation.py: vegshear_raupach, vegshear_okin')])
META = dict(
    bounds='1 to 5 cells in one direction, smoothing 2x2; heights up to 3 m, winds up to 3 m/s shear velocity; time steps of a half, a third and a whole year for germination, any up to t_veg for growth',
    outside='the Gaussian kernel (any weighted mean is assumed), oversized time steps',
    stubs=['ndimage.gaussian_filter returns arbitrary values between the smallest and largest input', 'random numbers are arbitrary in (0,1)'],
    assumptions=['hveg_max, t_veg and rhoveg_max positive'])
YEAR = 31557600


class Over(object):
    """namespace with some names replaced"""

    def __init__(self, base, **kw):
        self.__dict__['base'] = base
        self.__dict__.update(kw)

    def __getattr__(self, k):
        return getattr(self.__dict__['base'], k)


class Patch(object):
    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


def base(h, ny, nx, **over):
    p = make_p(h, ny, nx, process_vegetation=True, **over)
    p['hveg_max'] = h.const('1.5')
    s = make_s(h, ny, nx)
    return s, p


def initial(h, ny, nx, bad=False):
    s, p = base(h, ny, nx)
    v = h.array('cover', (ny, nx), -1, 1)
    p['veg_file'] = v
    if bad:
        v[0, 0] = h.np.nan
    t = snap(v)
    s = h.mod('vegetation').initialize(s, p)
    for j in range(ny):
        for i in range(nx):
            c = 0 * s['zb'][0, 0] if bad or not t[j, i] > 0 else t[j, i]
            h.eq('cover', s['rhoveg'][j, i], c)
            h.eq('height', s['hveg'][j, i] ** 2, p['hveg_max'] ** 2 * c)
            h.ge('height not negative', s['hveg'][j, i], 0)
            h.true('germinated where covered', (s['germinate'][j, i] != 0) == (c > 0))
    h.eq('no expansion', s['lateral'], h.zeros((ny, nx)))


def none(h):
    s, p = base(h, 1, 2, veg_file=None)
    old = {k: snap(v) for k, v in s.items() if hasattr(v, 'copy')}
    s = h.mod('vegetation').initialize(s, p)
    for k, v in old.items():
        h.eq(k, s[k], v)


def growth(h, kind, ny=1, nx=1, tide=False, vver=True, dead=None):
    s, p = base(h, ny, nx)
    p['veggrowth_type'] = kind
    p['process_tide'] = tide
    p['V_ver'] = h.const(3) if vver else h.const(0)
    p['veg_gamma'] = h.real('gamma', 0, 5)
    p['dzb_opt'] = h.const('0.5')
    p['rhoveg_max'], p['t_veg'], p['v_gam'] = h.const('0.5'), h.const('36.5'), h.const(2)
    p['dt_opt'] = dt = h.real('dt', 1, 86400)
    p['dt'] = h.real('p_dt', 1, 86400)
    p['accfac'] = acc = h.const(10)
    p['veg_min_elevation'] = lim = h.const(3)
    s['rhoveg'] = h.array('cover', (ny, nx), 0, 1)
    s['hveg'] = h.array('height', (ny, nx), 0, 1.5)
    s['dhveg'], s['drhoveg'] = h.array('dh', (ny, nx), -5, 5), h.zeros((ny, nx))
    s['dzbveg'] = h.array('dzb', (ny, nx), -5, 5)
    s['zb'], s['zs'] = h.array('zb', (ny, nx), 0, 6), h.array('zs', (ny, nx), 0, 6)
    for k in ('germinate', 'lateral'):
        b = h.bools(k, (ny, nx))
        s[k] = h.np.where(b, h.full((ny, nx), 1.), h.zeros((ny, nx)))
    # vegetation only where rooted
    for j in range(ny):
        for i in range(nx):
            if not (s['germinate'][j, i] != 0 or s['lateral'][j, i] != 0):
                h.assume((s['rhoveg'][j, i] == 0) & (s['hveg'][j, i] == 0))
    old = {k: snap(v) for k, v in s.items() if hasattr(v, 'copy')}
    s = h.mod('vegetation').grow(s, p)
    yr = dt * acc / YEAR
    hm, rm = p['hveg_max'], p['rhoveg_max']
    for j in range(ny):
        for i in range(nx):
            g, o = (lambda k: s[k][j, i]), (lambda k: old[k][j, i])
            rooted = o('germinate') != 0 or o('lateral') != 0
            drowned = (tide and o('zb') + h.const('0.01') < o('zs')) or o('zb') < lim
            bur = abs(o('dzbveg') - p['dzb_opt'])
            h.ge('height not negative', g('hveg'), 0)
            h.ge('height limited', hm, g('hveg'))
            h.ge('cover not negative', g('rhoveg'), 0)
            if kind == 'orig':
                h.ge('cover limited', 1, g('rhoveg'))
            else:
                h.ge('cover limited', rm, g('rhoveg'))
            for k in ('germinate', 'lateral'):
                h.true('%s only where it was' % k, (g(k) == 0) | (g(k) == o(k)))
            if drowned:
                for k in ('rhoveg', 'hveg', 'germinate', 'lateral'):
                    h.eq('%s removed' % k, g(k), 0)
                continue
            if not rooted:
                for k in ('rhoveg', 'hveg'):
                    h.eq('%s stays bare' % k, g(k), 0)
                continue
            if kind == 'orig':
                rate = (p['V_ver'] * (1 - o('hveg') / hm) - bur * p['veg_gamma']) if vver else 0
                x = min(max(o('hveg') + rate * yr, 0), hm)
                h.eq('height', g('hveg'), x)
                h.eq('cover by height', g('rhoveg') * hm * hm, x * x)
            else:
                c = min(o('rhoveg'), rm)
                rate = ((rm - c) * 10 - p['v_gam'] / hm * bur * p['veg_gamma']) if vver else 0
                x = max(c + rate * yr, 0) if c > 0 else 0
                h.eq('cover', g('rhoveg'), x)
                h.eq('height by cover', g('hveg') ** 2, hm * hm * x)
            h.true('rooted while alive', (g('rhoveg') == 0) | ((g('germinate') == o('germinate')) & (g('lateral') == o('lateral'))))
            h.true('roots die with the plant', (g('rhoveg') != 0) | ((g('germinate') == 0) & (g('lateral') == 0)))
    for k in ('zb', 'zs', 'dzbveg', 'ustar', 'tau'):
        h.eq('%s untouched' % k, s[k], old[k])


def germination(h, ny, nx, n, dx=1):
    """chance of germination and expansion"""
    s, p = base(h, ny, nx)
    p['germinate'], p['lateral'] = pg, pl = h.real('pg', 0, 1), h.real('pl', 0, 1)
    p['dt_opt'], p['accfac'] = h.const(YEAR) / (2 * n), h.const(2)
    p['dx'] = h.const(dx)
    s['ds'], s['dn'] = h.full((ny, nx), h.const(dx)), h.full((ny, nx), h.const(2 * dx))
    s['rhoveg'] = c = h.array('cover', (ny, nx), 0, 1)
    s['dzbveg'] = h.array('dzb', (ny, nx), -1, 1)
    s['lateral'] = h.np.where(h.bools('lat', (ny, nx)), h.full((ny, nx), 1.), h.zeros((ny, nx)))
    c0, lat0, dz = snap(c), snap(s['lateral']), snap(s['dzbveg'])
    r = h.array('random', (ny, nx), 0, 1)
    h.assume((r > 0).all())
    V = h.mod('vegetation')
    old_dr = snap(s['drhoveg'])
    np = Over(V.np, random=Over(V.np.random if hasattr(V.np, 'random') else None, random=lambda shape: r.copy()))
    with Patch(V, np=np):
        s = V.germinate(s, p)
    # chance per step: (1-chance)^n = 1-pg
    for j in range(ny):
        for i in range(nx):
            new = (dz[j, i] >= 0) and ((1 - r[j, i]) ** n >= 1 - pg)
            h.eq('germinated', s['germinate'][j, i], 1 if (c0[j, i] > 0) or new else 0)
            k = 0
            for b, a in ((j, i - 1), (j, i + 1), (j - 1, i), (j + 1, i)):
                if 0 <= b < ny and 0 <= a < nx and c0[b, a] > c0[j, i]:
                    k += 1
            g = s['lateral'][j, i]
            h.true('expansion kept', (g == 1) | (g == 0))
            if lat0[j, i] == 1:
                h.eq('still expanded', g, 1)
            elif k == 0:
                h.eq('no neighbour to expand from', g, 0)
            else:
                # chance per cell q: (1-q)^(n*dx) = 1-pl; k neighbours: k q
                q = r[j, i] / k
                h.eq('expanded', g, 1 if (1 - q) ** (n * dx) >= 1 - pl else 0)
    h.eq('cover untouched', s['rhoveg'], c0)
    h.eq('change of cover untouched', s['drhoveg'], old_dr)


def wind(h, s, p, ny, nx, lo=0):
    s['ustars'], s['ustarn'] = h.array('us', (ny, nx), lo, 3), h.zeros((ny, nx))
    return s


def stress(h, s, p, o, scale=100.):
    ny, nx = s['ustar'].shape
    for j in range(ny):
        for i in range(nx):
            g = lambda k: s[k][j, i]
            h.eq('stress', g('tau') ** 2, (p['rhoa'] * g('ustar') ** 2) ** 2, scale=scale)
            h.eq('stress along', g('taus') * g('ustar'), g('tau') * g('ustars'), scale=scale)
            h.eq('stress across', g('taun') * g('ustar'), g('tau') * g('ustarn'), scale=scale)
            h.eq('direction along', g('ustars') * o['ustar'][j, i], g('ustar') * o['ustars'][j, i], scale=scale)
            h.eq('direction across', g('ustarn') * o['ustar'][j, i], g('ustar') * o['ustarn'][j, i], scale=scale)


def raupach(h, ny, nx, smooth, calm=False, bare=False):
    s, p = base(h, ny, nx, vegshear_type='raupach')
    p['gamma_vegshear'] = gam = h.const(16)
    p['rhoa'] = h.const('1.25')
    s['ustars'], s['ustarn'] = h.array('us', (ny, nx), -3, 3), h.array('un', (ny, nx), -3, 3)
    s['ustar'] = h.np.hypot(s['ustars'], s['ustarn'])
    s['rhoveg'] = h.array('cover', (ny, nx), 0, 1)
    if bare:
        h.assume((s['rhoveg'] == 0).all())
    o = {k: snap(v) for k, v in s.items() if hasattr(v, 'copy')}
    V = h.mod('vegetation')
    filt = h.array('filt', (ny, nx), 0, 1) if smooth else None

    def gauss(a, sigma=None, **kw):
        if not smooth:
            return a.copy()
        lo, hi = a.min(), a.max()
        h.assume(((filt >= lo) & (filt <= hi)).all())
        return filt.copy()
    with Patch(V, ndimage=Over(V.ndimage, gaussian_filter=gauss)):
        s = V.vegshear(s, p)
    for j in range(ny):
        for i in range(nx):
            u, u0 = s['ustar'][j, i], o['ustar'][j, i]
            h.ge('not negative', u, 0)
            h.ge('not increased', u0, u)
            if not smooth:
                h.eq('reduction', u * u * (1 + gam * o['rhoveg'][j, i]), u0 * u0, scale=100.)
            if bare:
                h.eq('bare', u, u0)
            h.ge('at most the full reduction', u * u * 17, u0 * u0, scale=100., tol=1e-8)
    stress(h, s, p, o)
    for k in ('rhoveg', 'hveg', 'zb', 'ustar0', 'tau0', 'uw'):
        h.eq('%s untouched' % k, s[k], o[k])


def okin(h, nx, udir, plants, height='0.5', uniform=True):
    """shear velocity downwind of plants"""
    s, p = base(h, 1, nx, vegshear_type='okin')
    p['okin_c1_veg'], p['okin_initialred_veg'] = c1, r0 = h.const('0.5'), h.const('0.25')
    p['rhoa'] = h.const('1.25')
    sg = 1 if udir == 270 else -1
    s['udir'] = h.full((1, nx), h.const(udir))
    s['ustar'] = h.full((1, nx), h.real('u', 0, 3)) if uniform else h.array('ustar', (1, nx), 0, 3)
    s['ustars'], s['ustarn'] = s['ustar'] * sg, h.zeros((1, nx))
    xs = [h.const(v) for v in ('0', '0.5', '2', '4', '13')][:nx]
    for i in range(nx):
        s['x'][0, i] = xs[i]
    hv = {}
    for k in plants:
        s['hveg'][0, k] = hv[k] = h.const(height if k == plants[0] else '1')
    o = {k: snap(v) for k, v in s.items() if hasattr(v, 'copy')}
    s = h.mod('vegetation').vegshear(s, p)
    for i in range(nx):
        u, u0 = s['ustar'][0, i], o['ustar'][0, i]
        red = h.const(0)
        for k in plants:
            d = (xs[i] - xs[k]) * sg
            if d >= 0 and d < 20 * hv[k]:
                red = red + (1 - r0) * h.np.exp(-d * c1 / hv[k])
        f = max(1 - red, 0)
        h.eq('reduction', u, max(u0 * f, h.const('0.01')), tol=1e-4)
        h.ge('never increased beyond the least', max(u0, h.const('0.01')), u)
        h.eq('along', s['ustars'][0, i] * u0, sg * u * u0)
        h.eq('across', s['ustarn'][0, i], 0)
    stress(h, s, p, o)
    h.eq('plants untouched', s['hveg'], o['hveg'])


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    add(initial, 'initial-1x2', ny=1, nx=2)
    add(initial, 'initial-nan', ny=1, nx=2, bad=True)
    add(none, 'initial-none')
    for kind in ('orig', 'duranmoore14'):
        for v in (0, 1):
            for t in (0, 1):
                add(growth, 'growth-%s-%d%d' % (kind, v, t), kind=kind, tide=bool(t), vver=bool(v))
        if tier == 'thorough':
            add(growth, 'growth-%s-2' % kind, kind=kind, nx=2, cost=9)
    for n in (1, 2):
        add(germination, 'germination-1x2-%d' % n, ny=1, nx=2, n=n)
    add(germination, 'germination-1x2-dx', ny=1, nx=2, n=1, dx=2)
    if tier == 'thorough':
        add(germination, 'germination-1x3', ny=1, nx=3, n=1, cost=9)
    add(germination, 'germination-2x1', ny=2, nx=1, n=1, cost=2)
    add(raupach, 'raupach-1', ny=1, nx=1, smooth=False)
    add(raupach, 'raupach-smooth', ny=1, nx=2, smooth=True)
    add(raupach, 'raupach-bare', ny=2, nx=2, smooth=False, bare=True)
    for ud in (270, 90):
        add(okin, 'okin-one-%d' % ud, nx=5, udir=ud, plants=(1,))
        add(okin, 'okin-two-%d' % ud, nx=5, udir=ud, plants=(1, 2))
        add(okin, 'okin-vary-%d' % ud, nx=2, udir=ud, plants=(int(ud < 180),), uniform=False)
        add(okin, 'okin-none-%d' % ud, nx=2, udir=ud, plants=(), uniform=False)
    return out
