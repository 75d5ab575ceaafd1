"""Dune erosion by waves (Palmsten and Holman)."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Waves only erode dunes they reach, from the toe landward and to the toe line',
    statement='In each transect whose total water level (1.26 run-up plus the interpolated tide) does not exceed the dune toe level the bed is unchanged. Otherwise the bed is lowered, never raised, to the line '
              'rising landward from the toe (the cell nearest to the toe level) with 0.54 times the beach slope, in consecutive cells from the toe on; cells seaward of the toe and '
              'landward of the scarp and bed below that line keep their level. The erosion demand is 4 Cs (level above toe)^2 times the number of waves in the time step times the chance that a wave '
              'reaches the toe; the scarp is where the volume above the line comes closest to it, so no demand (no time) erodes nothing and more demand never less. Transects do not influence '
              'each other, without waves nothing is eroded.',
    over=['inputs', 'configurations'],
    text='all beds, wave conditions, water levels, slopes and time steps',
    why='the one regression run that enables dune erosion covers a single storm',
    files=['aeolis/erosion.py'],
    mech=[('dune erosion', 'aeolis/erosion.py: run_ph12')])
META = dict(
    bounds='transects of 4 or 5 equally spaced cells, 1 or 2 of them; constant series of tide and waves',
    outside='unequal spacing, the avalanching that follows (C12)',
    stubs=['scipy.stats.norm.cdf is an uninterpreted increasing function with values between 0 and 1, refined at models'],
    assumptions=['positive wave period and beach slope'])


def setup(h, rows, n, dt=None):
    p = make_p(h, rows, n, process_dune_erosion=True)
    p['dune_toe_elevation'], p['beach_slope'], p['Cs'] = h.const(3), h.const('0.1'), h.const('0.0005')
    p['dt_opt'] = dt if dt is not None else h.const(3600)
    p['dt'] = h.real('p_dt', 1, 3600)
    p['tide_file'], p['wave_file'] = h.zeros((2, 2)), h.zeros((2, 3))
    p['tide_file'][1, 0] = p['wave_file'][1, 0] = 1000
    s = make_s(h, rows, n)
    for j in range(rows):
        for i in range(n):
            s['x'][j, i] = h.const(2 * i)
    return s, p


def sea(h, p, level, Hs, Tp):
    p['tide_file'][:, 1] = level
    p['wave_file'][:, 1], p['wave_file'][:, 2] = Hs, Tp


def erode(h, n, rows=1, level=None, R=None, fixed=(), cs=None, dt=None, calm=False):
    s, p = setup(h, rows, n, dt=h.const(dt) if dt is not None else None)
    wl = h.real('tide', -3, 6) if level is None else h.const(level)
    if cs:
        p['Cs'] = h.const(cs)
    sea(h, p, wl, h.const(2), h.const(10))
    if level is None:
        p['tide_file'][:, 1] = wl
    for j in range(rows):
        s['R'][j, :] = h.const(0) if calm else (h.real('R%d' % j, .1, 5) if R is None else h.const(R))
        s['eta'][j, :] = s['R'][j, :] / 2
        s['sigma_s'][j, :] = s['R'][j, :] / 4
        for i in range(n):
            s['zb'][j, i] = h.const(fixed[i]) if i < len(fixed) and fixed[i] is not None else h.real('zb%d-%d' % (j, i), 0, 10)
    zb = snap(s['zb'])
    o = {k: snap(v) for k, v in s.items() if hasattr(v, 'copy')}
    zt = p['dune_toe_elevation']
    s = h.mod('erosion').run_ph12(s, p, h.const(500))
    z = s['zb']
    for k in ('R', 'eta', 'sigma_s', 'zs', 'x', 'mass', 'zb0', 'zne'):
        h.eq('%s untouched' % k, s[k], o[k])
    for j in range(rows):
        twl = s['R'][j, 0] * h.const('1.26') + wl
        if twl <= zt or calm:
            h.eq('out of reach', z[j], zb[j])
            continue
        m = 0
        for i in range(1, n):
            if abs(zb[j, i] - zt) < abs(zb[j, m] - zt):
                m = i
        line = [None if i < m else zt + h.const('0.054') * 2 * (i - m) for i in range(n)]
        low = [None if i < m else (zb[j, i] if zb[j, i] < line[i] else line[i]) for i in range(n)]
        V, v = [h.const(0)], h.const(0)
        for i in range(m + 1, n):
            v = v + 2 * (zb[j, i] - low[i])
            V.append(v)
        chance = 1 - h.normcdf((zt - s['eta'][j, 0] - wl) / s['sigma_s'][j, 0])
        dV = 4 * p['Cs'] * (twl - zt) ** 2 * chance * p['dt_opt'] / 10
        best = 0
        for k in range(1, len(V)):
            if abs(V[k] - dV) < abs(V[best] - dV):
                best = k
        for i in range(n):
            h.le('never raised', z[j, i], zb[j, i])
            if m <= i < m + best:
                h.eq('eroded to the line', z[j, i], low[i])
            else:
                h.eq('out of the scarp', z[j, i], zb[j, i])
        if dt == 0:
            h.eq('no time, no erosion', z[j], zb[j])


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    add(erode, 'reach', n=2)
    add(erode, 'storm', n=4, level='2.5', R='2', fixed=('1', '3'))
    add(erode, 'toe', n=3, level='2.5', R='2')
    add(erode, 'no-time', n=4, level='2.5', R='2', dt=0, fixed=('1', None))
    add(erode, 'rows', rows=2, n=3, level='2', fixed=('2', '3.25'))
    add(erode, 'calm', n=3, level='4', calm=True)
    return out
