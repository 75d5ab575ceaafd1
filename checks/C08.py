"""Equilibrium sediment concentration."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Equilibrium transport: none below threshold, the chosen formulation above',
    statement='For every transport formulation the equilibrium concentrations are never negative. Cu is zero in each cell where the shear '
              'velocity does not exceed the threshold (for dk: 80 % of it), where there is no shear velocity or no grain velocity, and '
              'positive elsewhere; Cuf is the same function with the fluid threshold (uthf) and Cu0 with the undisturbed shear velocity and '
              'threshold (ustar0, uth0). Cu never decreases when the shear velocity increases; except for dk and kawamura it never increases '
              'with the threshold. All three are proportional to accfac, depend on no other cell or fraction and on nothing computed in '
              'earlier steps, and the values are those of the formulation (bagnold: Cb rhoa/g (ustar-uth)^3/u; bagnold_gs: times '
              'sqrt(d/250um); kawamura: Ck rhoa/g (ustar+uth)^2(ustar-uth)/u; lettau: Cl rhoa/g ustar^2(ustar-uth)/u; dk: Cdk rhoa/g '
              '0.8uth(ustar^2-(0.8uth)^2)/u; sauermann: 0.7 rhoa/g (ustar^2-uth^2); vanrijn_strypsteen: Cb rhoa/g (ustar^3-uth^3)/u). The grain '
              'velocity is the wind velocity or, for the constant method, 1 m/s in the direction of the shear velocity (of the wind '
              'where there is wind but no shear velocity).',
    over=['inputs', 'configurations'],
    text='all shear velocities, thresholds, wind velocities, acceleration factors and earlier states, seven transport formulations',
    why='the examples run one formulation on one grid; thresholds at equality, calm cells and history are never tested',
    files=['aeolis/transport.py'],
    mech=[('equilibrium concentration', 'aeolis/transport.py: equilibrium'), ('grain speed', 'aeolis/transport.py: constant_grainspeed')])
META = dict(
    bounds='one call (two for history) on 1x1, 1x2 and 2x2 cells with 1-2 fractions; shear velocities and thresholds in [0,2], wind in [0,30] or '
           'components in [-30,30]',
    outside='grain speed according to Duran; larger grids',
    stubs=['matplotlib is a dummy'],
    assumptions=['undisturbed shear velocities, shear velocities and thresholds are not negative; 0 < accfac'])
METHODS = ('bagnold', 'bagnold_gs', 'kawamura', 'lettau', 'dk', 'sauermann', 'vanrijn_strypsteen')


def formula(h, p, m, us, uth, u, k):
    c = p['rhoa'] / p['g']
    if m == 'bagnold':
        return p['Cb'] * c * (us - uth) ** 3 / u
    if m == 'bagnold_gs':
        return p['Cb'] * c * (us - uth) ** 3 / u * p['_root'][k]
    if m == 'kawamura':
        return p['Ck'] * c * (us + uth) ** 2 * (us - uth) / u
    if m == 'lettau':
        return p['Cl'] * c * us ** 2 * (us - uth) / u
    if m == 'dk':
        th = h.const('0.8') * uth
        return p['Cdk'] * c * th * (us ** 2 - th ** 2) / u
    if m == 'sauermann':
        return h.const('0.7') * c * (us ** 2 - uth ** 2)
    return p['Cb'] * c * (us ** 3 - uth ** 3) / u


def setup(h, ny, nx, nf, method, speed, zero=()):
    p = make_p(h, ny, nx, 1, nf, method_transport=method, method_grainspeed=speed, accfac=h.real('acc', .1, 10))
    for k, v in (('Cb', '1.5'), ('Ck', '2.78'), ('Cl', '6.7'), ('Cdk', '5'), ('rhoa', '1.225'), ('g', '9.81')):
        p[k] = h.const(v)
    # grain sizes with rational square roots of d / 250 um: 1, 3/2
    p['grain_size'] = h.np.array([h.const('0.00025'), h.const('0.0005625')][:nf])
    p['_root'] = [h.const(1), h.const('1.5')]
    s = make_s(h, ny, nx, 1, nf)
    for k in ('ustar', 'ustar0'):
        s[k] = h.array(k, (ny, nx), 0, 2)
    for k in ('uth', 'uth0', 'uthf'):
        s[k] = h.array(k, (ny, nx, nf), 0, 2)
    s['uw'] = h.array('uw', (ny, nx), 0, 30)
    for k in ('uws', 'uwn'):
        s[k] = h.array(k, (ny, nx), -30, 30)
    # left behind by an earlier step
    for k in ('Cu', 'Cuf', 'Cu0'):
        s[k] = h.array('old' + k, (ny, nx, nf), 0, 10)
    for k in ('us', 'un', 'u', 'u0'):
        s[k] = h.array('old' + k, (ny, nx, nf), -1, 1)
    return s, p


def values(h, ny, nx, nf, method):
    s, p = setup(h, ny, nx, nf, method, 'windspeed')
    g = {k: snap(s[k]) for k in ('ustar', 'ustar0', 'uth', 'uth0', 'uthf', 'uw', 'uws', 'uwn')}
    s = h.mod('transport').equilibrium(s, p)
    for k in g:
        h.eq('%s untouched' % k, s[k], g[k])
    a = p['accfac']
    for j in range(ny):
        for i in range(nx):
            us, us0, u = g['ustar'][j, i], g['ustar0'][j, i], g['uw'][j, i]
            for k in range(nf):
                h.eq('grain velocity', s['u'][j, i, k], u)
                h.eq('cross-shore grain velocity', s['us'][j, i, k], g['uws'][j, i])
                h.eq('alongshore grain velocity', s['un'][j, i, k], g['uwn'][j, i])
                for name, v, t in (('Cu', us, g['uth']), ('Cuf', us, g['uthf']), ('Cu0', us0, g['uth0'])):
                    t = t[j, i, k]
                    c = s[name][j, i, k]
                    h.ge('%s is not negative' % name, c, 0)
                    if us == 0 or u == 0:
                        h.eq('%s without wind' % name, c, 0)
                        continue
                    lim = t * h.const('0.8') if method == 'dk' else t
                    if v <= lim:
                        h.eq('%s at or below the threshold' % name, c, 0)
                    else:
                        if not (method == 'dk' and t == 0):
                            h.true('%s above the threshold' % name, c > 0)
                        f = formula(h, p, method, v, t, u, k)
                        if method == 'sauermann':
                            h.eq('%s formulation' % name, c, a * f)
                        else:
                            h.eq('%s formulation' % name, c, a * f, scale=h.np.maximum(1., f) if h.mode == 'conc' else 1.)


def monotone(h, method, what):
    """two independent cells that differ in one quantity only"""
    s, p = setup(h, 1, 2, 1, method, 'windspeed')
    for k in ('ustar', 'uth', 'uw'):
        v = s[k].reshape(-1)
        if k != what:
            s[k][0, 1] = s[k][0, 0]
        else:
            h.assume(v[0] <= v[1])
    s = h.mod('transport').equilibrium(s, p)
    c = s['Cu'].reshape(-1)
    if what == 'ustar':
        h.le('more shear, no less transport', c[0], c[1])
    else:
        h.ge('higher threshold, no more transport', c[0], c[1])


def history(h, ny, nx, nf, method):
    """the same conditions twice, after different pasts"""
    s, p = setup(h, ny, nx, nf, method, 'windspeed')
    h.assume((s['uw'] > 0).all())
    s2 = {k: v.copy() if hasattr(v, 'copy') else v for k, v in s.items()}
    T = h.mod('transport')
    r1 = {k: snap(v) for k, v in T.equilibrium(s, p).items() if k in ('Cu', 'Cuf', 'Cu0')}
    r2 = T.equilibrium(s, p)
    for k in r1:
        h.eq('%s again' % k, r2[k], r1[k])
    for k in ('Cu', 'Cuf', 'Cu0'):
        s2[k] = h.zeros((ny, nx, nf))
    r3 = T.equilibrium(s2, p)
    for k in r1:
        h.eq('%s afresh' % k, r3[k], r1[k])


def constant(h, ny, nx, nf, calm=False):
    """grain speed of the constant method"""
    s, p = setup(h, ny, nx, nf, 'bagnold', 'constant')
    for k in ('ustars', 'ustarn'):
        s[k] = h.array(k, (ny, nx), -2, 2)
    for j in range(ny):
        for i in range(nx):
            if calm:
                h.assume(s['ustar'][j, i] == 0)
                h.assume(s['uw'][j, i] ** 2 == s['uws'][j, i] ** 2 + s['uwn'][j, i] ** 2)
            else:
                h.assume(s['ustar'][j, i] > 0)
                s['ustar'][j, i] = h.np.hypot(s['ustars'][j, i], s['ustarn'][j, i])
                h.assume(s['ustar'][j, i] > .001)
    g = {k: snap(s[k]) for k in ('ustar', 'ustars', 'ustarn', 'uth', 'uw', 'uws', 'uwn')}
    s = h.mod('transport').equilibrium(s, p)
    for j in range(ny):
        for i in range(nx):
            for k in range(nf):
                us, un, u = s['us'][j, i, k], s['un'][j, i, k], s['u'][j, i, k]
                if calm:
                    if g['uw'][j, i] > 0:
                        h.eq('direction of the wind', us * g['uw'][j, i], g['uws'][j, i], scale=10.)
                        h.eq('direction of the wind', un * g['uw'][j, i], g['uwn'][j, i], scale=10.)
                    else:
                        h.eq('no wind', u, 0)
                else:
                    h.eq('unit speed', us * us + un * un, 1)
                    h.eq('speed', u, 1)
                    h.eq('direction of the shear', us * g['ustar'][j, i], g['ustars'][j, i])
                    h.eq('direction of the shear', un * g['ustar'][j, i], g['ustarn'][j, i])
                    d = g['ustar'][j, i] - g['uth'][j, i, k]
                    if d > 0:
                        h.eq('Cu formulation', s['Cu'][j, i, k], p['accfac'] * p['Cb'] * p['rhoa'] / p['g'] * d ** 3)
                    else:
                        h.eq('Cu below the threshold', s['Cu'][j, i, k], 0)


def cases(tier):
    out = []

    def add(fn, n, cost=1, **kw):
        out.append(dict(name=n, fn=fn, kwargs=kw, cost=cost))
    for m in METHODS:
        add(values, 'values-%s' % m, ny=1, nx=1, nf=1, method=m, cost=2)
        add(monotone, 'shear-%s' % m, method=m, what='ustar')
        if m not in ('dk', 'kawamura'):
            add(monotone, 'threshold-%s' % m, method=m, what='uth')
        add(history, 'history-%s' % m, ny=2, nx=2, nf=2, method=m, cost=2)
    add(values, 'values-f2-bagnold_gs', ny=1, nx=1, nf=2, method='bagnold_gs', cost=5)
    add(values, 'values-2x1-bagnold_gs', ny=2, nx=1, nf=1, method='bagnold_gs', cost=5)
    add(values, 'values-1x2-dk', ny=1, nx=2, nf=1, method='dk', cost=9) if tier == 'thorough' else None
    add(constant, 'constant', ny=1, nx=1, nf=2)
    add(constant, 'constant-calm', ny=1, nx=1, nf=2, calm=True)
    if tier == 'thorough':
        for m in METHODS:
            add(values, 'values-f2-%s' % m, ny=1, nx=1, nf=2, method=m, cost=5)
        add(constant, 'constant-2', ny=1, nx=2, nf=1, cost=5)
    return out
