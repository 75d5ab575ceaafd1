"""Water levels and waves at the current time."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Water levels and wave heights follow the time series, the masks and the bed',
    statement='At every time the still water level is the value of the tide series interpolated linearly to that time (circular: beyond '
              'the series it starts over one second after its end), zero without a tide series or tide process, and in all cells '
              'scaled by the real part of the tide mask and raised by its imaginary part. The wave height of a '
              'cell is the smaller of the interpolated wave height and gamma times the local water depth, hence never negative and zero where '
              'the bed is dry, and then masked likewise, as is the wave period; both are zero without wave series or process. With run-up, each row '
              'uses the waves and water level of its first column: total water level is still water level plus (masked) run-up and the '
              'dynamic level is still water level plus (masked) set-up; without the run-up process both are the still water level. The mixing wave height is the smaller of the interpolated wave height '
              'and gamma times the depth below the total water level, masked. The water surface zs is the still water level but never below the bed. The bed is not changed.',
    over=['inputs', 'configurations'],
    text='all times, series of three and two points, bed levels, complex masks and process switches',
    why='no test evaluates water levels, masks or depth limits; regression covers one time series',
    files=['aeolis/hydro.py', 'aeolis/utils.py'],
    mech=[('interpolation', 'aeolis/hydro.py: interpolate'), ('masks', 'aeolis/utils.py: apply_mask'), ('circular series', 'aeolis/utils.py: interp_circular')])
META = dict(
    bounds='1x2, 2x1 and 2x2 cells; tide series of 2-3 points with arbitrary values at given times, wave series of 2 points; times from before the '
           'series to three periods after it; levels in [-10,10] m, waves in [0,10] m; gamma in [0.1,2], fixed at 0.6 in the two-cell run-up cases',
    outside='water levels or waves of an external model, longer series, larger grids (cells are independent except for run-up rows)',
    stubs=['calc_runup_stockdon is replaced by a linear function of wave height, period and slope (C10 decides the formula)'],
    assumptions=['wave heights and periods of the series are not negative'])
T0, T1, T2 = 10, 40, 100
W0, W1 = 0, 50


def series(h, t, ts, vs):
    """value of the circular series, written down independently"""
    lo, hi = ts[0], ts[-1]
    per = hi - lo + 1
    r = t
    n = 0
    while r < lo:
        r = r + per
        n += 1
    while r >= hi + 1:
        r = r - per
        n += 1
    for a, b, x, y in zip(ts[:-1], ts[1:], vs[:-1], vs[1:]):
        if r <= b:
            return x + (y - x) * (r - a) / (b - a)
    return vs[-1]


def circular(h, n, back):
    ts = [T0, T1, T2][:n]
    t = h.real('t', ts[0] - 150 if back else ts[0], ts[0] if back else ts[-1] + 200)
    v = h.array('v', (n,), -10, 10)
    U = h.mod('utils')
    xp = h.np.array([h.const(x) for x in ts])
    r = U.interp_circular(t, xp, v)
    h.eq('value of the series', r, series(h, t, ts, list(v)))
    f = h.zeros((n, 2))
    f[:, 0] = v
    f[:, 1] = 3 - 2 * v
    q = U.interp_array(t, xp, f, circular=True)
    h.eq('first of several series', q[0], r)
    h.eq('second of several series', q[1], 3 - 2 * r)
    if n == 3:
        # not circular: constant beyond the ends
        q = U.interp_array(t, xp, f)
        h.le('within the series', q[0], v.max())
        h.ge('within the series', q[0], v.min())
        if t >= ts[-1]:
            h.eq('last value', q[0], v[n - 1])


def stockdon(Ho, Tp, beta):
    """stands in for the run-up formula (decided by C10): any function of
    waves and slope would do, this one keeps the queries linear"""
    return (Ho * 3 + Tp) / 8 + beta, (Ho + Tp) / 4, (Ho * 5 + Tp * 3) / 16 + beta


def levels(h, ny, nx, tide=True, tidefile=True, wave=True, wavefile=True, mask=None, runup=False, gamma=False):
    p = make_p(h, ny, nx, process_tide=tide, process_wave=wave, process_runup=runup, process_moist=False, gamma=h.const('0.6') if gamma else h.real('gamma', .1, 2), external_vars=[])
    s = make_s(h, ny, nx)
    s['zb'] = h.array('zb', (ny, nx), -10, 10)
    for k in ('SWL', 'zs', 'Hs', 'Tp', 'Hsmix', 'R', 'eta', 'sigma_s', 'DSWL'):
        s[k] = h.array('old' + k, (ny, nx), -10, 10)      # left from the previous step
    s['TWL'] = h.array('oldTWL', (ny, nx), -10, 10)
    zb = snap(s['zb'])
    t = h.real('t', 11, 49)
    p['tide_file'] = p['wave_file'] = None
    level = 0
    if tidefile:
        tf = h.zeros((2, 2))
        tf[0, 0], tf[1, 0] = T0, T1 + 10
        z = h.array('tide', (2,), -10, 10)
        tf[:, 1] = z
        p['tide_file'] = tf
        if tide:
            level = z[0] + (z[1] - z[0]) * (t - T0) / (T1 + 10 - T0)
    H = Tp = 0
    if wavefile:
        wf = h.zeros((2, 3))
        wf[0, 0], wf[1, 0] = W0, W1
        hh, tt = h.array('hs', (2,), 0, 10), h.array('tp', (2,), 0, 20)
        wf[:, 1], wf[:, 2] = hh, tt
        p['wave_file'] = wf
        if wave:
            H = hh[0] + (hh[1] - hh[0]) * t / W1
            Tp = tt[0] + (tt[1] - tt[0]) * t / W1
    M = {}
    for k in ('tide', 'wave', 'runup'):
        M[k] = [[(1, 0)] * nx for _ in range(ny)]
        if mask and k in mask:
            m = h.carray('mask' + k, (ny, nx), -2, 2)
            s[k + '_mask'] = m
            M[k] = [[(h.np.real(m)[j, i], h.np.imag(m)[j, i]) for i in range(nx)] for j in range(ny)]

    def masked(k, j, i, v):
        a, b = M[k][j][i]
        return v * a + b
    hydro = h.mod('hydro')
    keep = hydro.calc_runup_stockdon
    hydro.calc_runup_stockdon = stockdon
    try:
        s = hydro.interpolate(s, p, t)
    finally:
        hydro.calc_runup_stockdon = keep
    h.eq('bed untouched', s['zb'], zb)
    g = p['gamma']
    e, r = [0] * ny, [0] * ny
    if runup:
        for j in range(ny):
            e[j], _, r[j] = stockdon(s['Hs'][j, 0], s['Tp'][j, 0], p['beach_slope'])
    for j in range(ny):
        for i in range(nx):
            swl = masked('tide', j, i, level) if tide else 0
            h.eq('still water level', s['SWL'][j, i], swl)
            d = swl - zb[j, i]
            if wave and wavefile:
                lim = g * d if d > 0 else 0
                hs = H if H < lim else lim
                h.eq('wave height', s['Hs'][j, i], masked('wave', j, i, hs), scale=10.)
                h.eq('wave period', s['Tp'][j, i], masked('wave', j, i, Tp), scale=10.)
                if not mask:
                    h.ge('wave height not negative', s['Hs'][j, i], 0)
            else:
                h.eq('no waves', s['Hs'][j, i], 0)
                h.eq('no waves', s['Tp'][j, i], 0)
            twl = swl
            if not runup:
                h.eq('total water level without run-up', s['TWL'][j, i], swl)
                h.eq('dynamic water level without set-up', s['DSWL'][j, i], swl)
            if runup:
                rm, em = masked('runup', j, i, r[j]), masked('runup', j, i, e[j])
                twl = swl + rm
                h.eq('total water level', s['TWL'][j, i], twl)
                h.eq('dynamic water level', s['DSWL'][j, i], swl + em)
                h.eq('run-up', s['R'][j, i], rm)
                h.eq('set-up', s['eta'][j, i], em)
            if wave and wavefile:
                d2 = twl - zb[j, i]
                lim = g * d2 if d2 > 0 else 0
                hs = H if H < lim else lim
                h.eq('mixing wave height', s['Hsmix'][j, i], masked('wave', j, i, hs), scale=10.)
            h.eq('water surface', s['zs'][j, i], swl if d > 0 else zb[j, i])


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    for n in (2, 3):
        for back in (False, True):
            add(circular, 'circular-%d-%s' % (n, back), n=n, back=back)
    add(levels, 'all', ny=1, nx=2, cost=8)
    add(levels, 'masks', ny=1, nx=1, mask=('tide', 'wave'), cost=2)
    add(levels, 'masks-1x2', ny=1, nx=2, mask=('tide', 'wave'), wavefile=False, cost=3)
    add(levels, 'masks-2x2', ny=2, nx=2, mask=('tide',), wave=False, cost=5)
    add(levels, 'runup', ny=1, nx=2, runup=True, gamma=True, cost=9)
    add(levels, 'runup-rows', ny=2, nx=1, runup=True, gamma=True, cost=9)
    add(levels, 'runup-mask', ny=2, nx=2, runup=True, mask=('runup', 'tide'), wave=False, cost=5)
    add(levels, 'runup-mask-waves', ny=1, nx=2, runup=True, mask=('runup', 'tide', 'wave'), gamma=True, tidefile=False, cost=9)
    add(levels, 'wavemask', ny=1, nx=1, mask=('wave', 'tide', 'runup'), runup=True, cost=3)
    add(levels, 'notide', ny=1, nx=2, tide=False, cost=3)
    add(levels, 'notidefile', ny=1, nx=1, tidefile=False, mask=('tide',))
    add(levels, 'nowave', ny=1, nx=2, wave=False)
    add(levels, 'nowavefile', ny=2, nx=1, wavefile=False, runup=True)
    if tier == 'thorough':
        add(levels, 'all-2x1', ny=2, nx=1, cost=9)
        add(levels, 'all-2x2', ny=2, nx=2, cost=30)
        add(levels, 'runup-1x3', ny=1, nx=3, runup=True, cost=30)
    return out
