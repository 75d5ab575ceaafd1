"""Wind forcing, shear velocity and shear stress."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Wind, shear velocity and shear stress stay consistent in size and direction',
    statement='The wind speed in every cell is interpolated linearly in time between the records of the wind file and its direction through sine and '
              'cosine, so it takes the short way around north. The grid components have the wind speed as length, only depend on '
              'the difference of wind and grid direction and point along the grid for wind along it (nautical: where it comes from; '
              'cartesian directions are converted once). Shear velocity is kappa u / ln(z/z0) in the direction of the wind, with z0 = k (constant), k/30 '
              '(constant_nikuradse) or the mean grain size/30. Shear stress is rho_air ustar^2 in the same direction, everything is zero '
              'without wind, and the undisturbed values are kept in ustar0, ustars0, ustarn0, tau0, taus0, taun0. Whenever a stress is '
              'changed, shear velocities are again sqrt(tau/rho_air) along it and tau is the length of (taus, taun). One-dimensional '
              'topographic shear leaves the stress over a horizontal bed unchanged, never takes it below a tenth nor reverses it, only '
              'depends on bed slopes, scales with the stress and mirrors with bed and wind; in separation bubbles stress is '
              'reduced by up to its full size and never increased. With shear off nothing changes.',
    over=['inputs', 'configurations'],
    text='all wind speeds, directions, grid orientations, stresses and bed profiles',
    why='tests check example output only',
    files=['aeolis/wind.py', 'aeolis/utils.py'],
    mech=[('wind', 'aeolis/wind.py: interpolate'), ('stress', 'aeolis/wind.py: velocity_stress, stress_velocity'),
          ('roughness', 'aeolis/wind.py: calculate_z0'), ('1D shear', 'aeolis/wind.py: compute_shear1d, shear')])
META = dict(
    bounds='1x2 and 2x2 cells with any speed up to 60 m/s and any direction; wind files of 2 and 3 records; profiles of 3 to 5 cells with bed levels in [-10,10] m and cell sizes 0.3 to 10 m; '
           'stresses up to 10 N/m2',
    outside='grain-size dependent roughness methods, the shape of separation bubbles (any bubble surface above the bed is assumed), 2D shear (N01), the zero-direction fix-up of 0.01 degree',
    stubs=['separation1d returns an arbitrary surface not below the bed', 'sin, cos and arctan2 are symbolic with sound axioms'],
    assumptions=['roughness height below the height of the wind measurement'])


def params(h, ny, nx, **over):
    p = make_p(h, ny, nx, **over)
    for k in ('kappa', 'z', 'k', 'rhoa'):
        p[k] = h.const(str(p[k]))
    return p


def rough(h, p):
    if p['method_roughness'] == 'constant':
        return p['k']
    if p['method_roughness'] == 'constant_nikuradse':
        return p['k'] / 30
    return (p['grain_size'] * p['grain_dist']).sum() / 30


def field(h, ny, nx, rough_method, alfa=0, still=False):
    """any wind in every cell (as an embedding program may set it)"""
    p = params(h, ny, nx, method_roughness=rough_method, wind_file=None)
    if rough_method == 'mean_grainsize_initial':
        p['grain_size'] = h.np.array([h.const('2e-4'), h.const('4e-4')])
        p['grain_dist'] = h.np.array([h.const('0.25'), h.const('0.75')])
    p['alfa'] = a = h.real('alfa', -180, 180) if alfa else h.const(0)
    s = make_s(h, ny, nx)
    s['uw'], s['udir'] = h.array('uw', (ny, nx), 0, 60), h.array('udir', (ny, nx), -180, 360)
    for k in ('taus', 'taun', 'tau', 'ustars', 'ustarn', 'ustar'):
        s[k] = h.array('old' + k, (ny, nx), -1, 1)
    uw, ud = snap(s['uw']), snap(s['udir'])
    if still:
        h.assume((uw == 0).all())
    s = h.mod('wind').interpolate(s, p, 0)
    f = p['kappa'] / h.np.log(p['z'] / rough(h, p))
    for j in range(ny):
        for i in range(nx):
            th = (-a + ud[j, i]) / 180 * h.np.pi
            us, un = -uw[j, i] * h.np.sin(th), -uw[j, i] * h.np.cos(th)
            g = lambda k: s[k][j, i]
            h.eq('speed', g('uw'), uw[j, i])
            h.eq('component along the grid', g('uws'), us)
            h.eq('component across the grid', g('uwn'), un)
            h.eq('length of the components', g('uws') * g('uws') + g('uwn') * g('uwn'), uw[j, i] * uw[j, i], scale=1e3)
            h.eq('shear velocity along', g('ustars'), us * f)
            h.eq('shear velocity across', g('ustarn'), un * f)
            h.eq('shear velocity', g('ustar') * g('ustar'), uw[j, i] * uw[j, i] * f * f, scale=1e3)
            h.ge('shear velocity not negative', g('ustar'), 0)
            h.eq('shear stress', g('tau') * g('tau'), (p['rhoa'] * g('ustar') * g('ustar')) ** 2, scale=1e3)
            h.ge('shear stress not negative', g('tau'), 0)
            h.eq('stress direction along', g('taus') * g('ustar'), g('ustars') * g('tau'), scale=10.)
            h.eq('stress direction across', g('taun') * g('ustar'), g('ustarn') * g('tau'), scale=10.)
            if uw[j, i] == 0:
                for k in ('tau', 'taus', 'taun', 'ustar', 'ustars', 'ustarn'):
                    h.eq('calm', g(k), 0)
    for k in ('ustar', 'ustars', 'ustarn', 'tau', 'taus', 'taun'):
        h.eq('undisturbed %s kept' % k, s[k + '0'], s[k])
        s[k][0, 0] += 1
        h.true('undisturbed %s is a copy' % k, s[k + '0'][0, 0] != s[k][0, 0])


def along(h, d, us, un, a):
    """wind along the grid axes, and turning grid and wind together"""
    p = params(h, 1, 1, wind_file=None)
    p['alfa'] = h.const(a)
    s = make_s(h, 1, 1)
    u = h.real('u', 0, 60)
    s['uw'], s['udir'] = h.full((1, 1), u), h.full((1, 1), h.const(d + a))
    s = h.mod('wind').interpolate(s, p, 0)
    h.eq('along', s['uws'][0, 0], u * us, tol=1e-9, scale=1e3)
    h.eq('across', s['uwn'][0, 0], u * un, tol=1e-9, scale=1e3)


def series(h, n, convention='nautical', wrap=False, at=None):
    """interpolation in time"""
    p = params(h, 1, 2)
    ts = [h.const(v) for v in (0, 3600, 5400)[:n]]
    sp = h.array('sp', (n,), 0, 40)
    di = h.array('dir', (n,), 10, 350)
    if convention == 'cartesian':
        h.assume((di < 269).all())
    f = h.zeros((n, 3))
    for k in range(n):
        f[k, 0], f[k, 1], f[k, 2] = ts[k], sp[k], di[k]
    p['wind_file'] = f
    p['wind_convention'] = convention
    s = make_s(h, 1, 2)
    W = h.mod('wind')
    p['process_shear'] = False
    s = W.initialize(s, p)
    nd = [di[k] if convention == 'nautical' else 270 - di[k] for k in range(n)]
    for k in range(n):
        h.eq('times', p['wind_file'][k, 0], ts[k])
        h.eq('speeds', p['wind_file'][k, 1], sp[k])
        h.eq('directions', p['wind_file'][k, 2], nd[k])
    t = h.real('t', 0, 5400 if n == 3 else 3600) if at is None else h.const(at)
    tt = t + (ts[-1] + 1) if wrap else t
    s = W.interpolate(s, p, tt)
    k = 0 if n == 2 or t <= ts[1] else 1
    w = (t - ts[k]) / (ts[k + 1] - ts[k])
    h.eq('speed', s['uw'], h.full((1, 2), sp[k] + w * (sp[k + 1] - sp[k])), tol=1e-8, scale=40.)
    h.eq('same everywhere', s['udir'][0, 1], s['udir'][0, 0])
    if at is None:
        return
    r = lambda v: v / 180 * h.np.pi
    sn = h.np.sin(r(nd[k])) * (1 - w) + h.np.sin(r(nd[k + 1])) * w
    cs = h.np.cos(r(nd[k])) * (1 - w) + h.np.cos(r(nd[k + 1])) * w
    h.eq('direction', s['udir'][0, 0], h.np.arctan2(sn, cs) * 180 / h.np.pi, tol=1e-7, scale=100.)


def inverse(h, ny, nx):
    """shear velocities from stresses"""
    p = params(h, ny, nx)
    s = make_s(h, ny, nx)
    for k in ('ustars', 'ustarn', 'ustar'):
        s[k] = h.array('old' + k, (ny, nx), -1, 1)
    s['taus'], s['taun'] = h.array('taus', (ny, nx), -10, 10), h.array('taun', (ny, nx), -10, 10)
    s['tau'] = h.np.hypot(s['taus'], s['taun'])
    t = {k: snap(s[k]) for k in ('tau', 'taus', 'taun')}
    s = h.mod('wind').stress_velocity(s, p)
    consistent(h, s, p, t)


def consistent(h, s, p, t=None, scale=10.):
    ny, nx = s['tau'].shape
    for j in range(ny):
        for i in range(nx):
            g = lambda k: s[k][j, i]
            h.eq('shear velocity', g('ustar') ** 2 * p['rhoa'], g('tau'), scale=scale)
            h.ge('shear velocity not negative', g('ustar'), 0)
            h.eq('direction along', g('ustars') * g('tau'), g('ustar') * g('taus'), scale=scale)
            h.eq('direction across', g('ustarn') * g('tau'), g('ustar') * g('taun'), scale=scale)
            if g('tau') == 0:
                h.eq('calm along', g('ustars'), 0)
                h.eq('calm across', g('ustarn'), 0)
            h.eq('length of the stress', g('tau') ** 2, g('taus') ** 2 + g('taun') ** 2, scale=scale ** 2)
            if t is not None:
                for k in ('tau', 'taus', 'taun'):
                    h.eq('%s untouched' % k, g(k), t[k][j, i])


def profile(h, nx, sgn, cross=False, uniform=True, unit=False):
    """state with a stress along (sgn) the profile"""
    p = params(h, 1, nx, process_shear=True, process_separation=False)
    s = make_s(h, 1, nx)
    dx = h.const('0.5') if unit else h.real('dx', .3, 10)
    s['x'] = h.zeros((1, nx))
    for i in range(nx):
        s['x'][0, i] = dx * i
    s['zb'] = h.array('zb', (1, nx), -10, 10)
    if uniform:
        a, b = h.const('0.25') if unit else h.real('ts', 0, 10), (h.real('tn', -10, 10) if cross else h.const(0))
        h.assume(a > 0)
        s['taus'], s['taun'] = h.full((1, nx), a * sgn), h.full((1, nx), b)
    else:
        s['taus'], s['taun'] = h.array('ts', (1, nx), 0, 10) * sgn, h.zeros((1, nx))
        h.assume((s['taus'] * sgn > 0).all())
    s['tau'] = h.np.hypot(s['taus'], s['taun'])
    return s, p


def shear1d(h, nx, sgn, cross=False, flat=False, unit=False):
    s, p = profile(h, nx, sgn, cross, unit=unit)
    if flat:
        h.assume((s['zb'] == s['zb'][0, 0]).all())
    t = {k: snap(s[k]) for k in ('tau', 'taus', 'taun', 'zb', 'x')}
    s = h.mod('wind').shear(s, p)
    for i in range(nx):
        if flat:
            for k in ('tau', 'taus', 'taun'):
                h.eq('horizontal bed, %s' % k, s[k][0, i], t[k][0, i], scale=10.)
        h.ge('at least a tenth', s['tau'][0, i] * 10, t['tau'][0, i], scale=10., tol=1e-8)
        h.eq('direction along', s['taus'][0, i] * t['tau'][0, i], s['tau'][0, i] * t['taus'][0, i], scale=100.)
        h.eq('direction across', s['taun'][0, i] * t['tau'][0, i], s['tau'][0, i] * t['taun'][0, i], scale=100.)
    if not flat:
        consistent(h, s, p, scale=100.)
    h.eq('bed untouched', s['zb'], t['zb'])
    h.eq('grid untouched', s['x'], t['x'])


def formula(h, nx, sgn, unit=True):
    """Kroy-type response in one dimension: 3 (sum of slopes over pi distance + slope) + 1"""
    s, p = profile(h, nx, sgn, unit=unit)
    zb, t, dx = snap(s['zb']), snap(s['tau']), s['x'][0, 1] - s['x'][0, 0]
    s = h.mod('wind').shear(s, p)
    z = [zb[0, i] for i in range(nx)]
    if sgn < 0:
        z = z[::-1]
    sl = [0] + [(z[i + 1] - z[i - 1]) / (2 * dx) for i in range(1, nx - 1)] + [0]
    for i in range(nx):
        f = 1 + 3 * sl[i]
        for k in range(nx):
            if k != i and i - (nx - 1) <= i - k <= i - 1:
                f = f + 3 * sl[k] / ((i - k) * h.np.pi)
        q = i if sgn > 0 else nx - 1 - i
        h.eq('stress over the bed', s['tau'][0, q], t[0, q] * max(f, h.const('0.1')), scale=10., tol=1e-7)


def relations(h, nx, how):
    s, p = profile(h, nx, 1)
    s2 = {k: v.copy() if hasattr(v, 'copy') else v for k, v in s.items()}
    f = lambda a: a
    if how == 'shift':
        s2['zb'] = s2['zb'] + h.real('shift', -5, 5)
    elif how == 'scale':
        c = h.const(3)
        for k in ('tau', 'taus', 'taun'):
            s2[k] = s2[k] * c
        f = lambda a: a / c
    else:
        s2['zb'] = s2['zb'][:, ::-1].copy()
        s2['taus'] = -s2['taus']
        f = lambda a: a[:, ::-1]
    W = h.mod('wind')
    s, s2 = W.shear(s, p), W.shear(s2, p)
    h.eq('stress', f(s2['tau']), s['tau'], scale=10., tol=1e-7)
    h.eq('stress along', f(s2['taus']) * (-1 if how == 'mirror' else 1), s['taus'], scale=10., tol=1e-7)


def separated(h, nx):
    """any separation surface above the bed"""
    s, p = profile(h, nx, 1, cross=True)
    p['process_separation'] = True
    s['udir'] = h.full((1, nx), 270.)
    h.assume((s['zb'] == 0).all())      # no topographic change besides the bubble
    t = {k: snap(s[k]) for k in ('tau', 'taus', 'taun')}
    hs = h.array('hsep', (1, nx), 0, 2)
    W = h.mod('wind')
    if hasattr(W, 'separation1d'):
        old = W.separation1d
        W.separation1d = lambda s_, p_: s_['zb'] + hs
        try:
            s = W.shear(s, p)
        finally:
            W.separation1d = old
        h.eq('bubble height', s['hsep'], hs)
        h.eq('bubble surface', s['zsep'], hs)
        for i in range(nx):
            f = min(max(1 - hs[0, i] / h.const('0.1'), 0), 1)
            for k in ('taus', 'taun', 'tau'):
                h.eq('%s in the bubble' % k, s[k][0, i], t[k][0, i] * f, scale=10., tol=1e-7)
        consistent(h, s, p, scale=100.)


def off(h):
    s, p = profile(h, 3, 1)
    p['process_shear'] = False
    s['ustar'] = h.array('ustar', (1, 3), 0, 1)
    t = {k: snap(s[k]) for k in ('tau', 'taus', 'taun', 'ustar', 'zb')}
    s = h.mod('wind').shear(s, p)
    for k in t:
        h.eq('%s untouched' % k, s[k], t[k])


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    for d, us, un in ((270, 1, 0), (90, -1, 0), (180, 0, 1), (0, 0, -1), (360, 0, -1)):
        for a in (0, 30, -45):
            add(along, 'along-%d-%d' % (d, a), d=d, us=us, un=un, a=a)
    add(off, 'off')
    for m in ('constant', 'constant_nikuradse', 'mean_grainsize_initial'):
        add(field, 'field-%s' % m, ny=1, nx=2 if m == 'constant' else 1, rough_method=m)
    add(field, 'field-alfa', ny=1, nx=1, rough_method='constant', alfa=1)
    add(field, 'field-2x2-calm', ny=2, nx=2, rough_method='constant', still=True)
    for n in (2, 3):
        add(series, 'series-%d' % n, n=n)
        add(series, 'series-%d-later' % n, n=n, wrap=True)
    for at in (0, 900, 3600, 5000):
        for c in ('nautical', 'cartesian'):
            add(series, 'direction-%d-%s' % (at, c), n=3, at=at, convention=c)
        add(series, 'direction-%d-later' % at, n=3, at=at, wrap=True)
    add(inverse, 'inverse-1x2', ny=1, nx=2)
    add(inverse, 'inverse-2x1', ny=2, nx=1)
    for sg in (1, -1):
        add(shear1d, 'shear1d-3-%d' % sg, nx=3, sgn=sg, cross=True)
        add(shear1d, 'shear1d-4-%d' % sg, nx=4, sgn=sg, unit=True, cost=3)
        add(shear1d, 'shear1d-flat-%d' % sg, nx=4, sgn=sg, cross=True, flat=True)
        add(formula, 'formula-3-%d' % sg, nx=3, sgn=sg, unit=False, cost=2)
        add(formula, 'formula-4-%d' % sg, nx=4, sgn=sg, cost=3)
        if tier == 'thorough':
            add(formula, 'formula-5-%d' % sg, nx=5, sgn=sg, cost=9)
    for how in ('shift', 'scale', 'mirror'):
        add(relations, 'relation-%s' % how, nx=4, how=how, cost=2)
    add(separated, 'separated-2', nx=3, cost=2)
    if tier == 'thorough':
        add(field, 'field-2x2', ny=2, nx=2, rough_method='constant', cost=5)
        add(shear1d, 'shear1d-5', nx=5, sgn=1, cross=True, cost=9)
        for how in ('shift', 'scale', 'mirror'):
            add(relations, 'relation-5-%s' % how, nx=5, how=how, cost=9)
    return out
