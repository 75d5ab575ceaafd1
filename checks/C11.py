"""Soil moisture and salt."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Soil moisture stays physical: flooded cells saturated, others between limits',
    statement='After a moisture update with the infiltration method every cell covered by the total water level (by more than eps) has a moisture '
              'content equal to the porosity; every other cell dries exponentially, halving in the drying time Tdry, so its moisture is never negative, '
              'never above the porosity and never more than before. With the surface moisture method cells below the total water level are '
              'saturated (satd_moist); no cell exceeds saturation or falls below the lower residual content; more precipitation never gives less '
              'moisture; a cell is at least as moist as capillary rise makes it: the van Genuchten value of the main wetting curve where '
              'groundwater rose and of the drying curve where it fell, which decreases with the depth of the groundwater and equals saturation '
              'content of its curve where groundwater reaches the bed; drainage applies only to moisture above field capacity and '
              'never takes it below field capacity. With scanning curves the retention moisture is one of the two main '
              'curves or the scanning values between them, chosen by the current and previous direction of the groundwater and no cell is on both scanning '
              'curves. Salt is one in flooded cells and otherwise decays and stays in [0,1]. Cells do not influence each other.',
    over=['inputs', 'configurations', 'histories'],
    text='all moisture contents, water levels, bed levels, time steps and weather',
    why='no test runs a moisture process',
    files=['aeolis/hydro.py'],
    mech=[('moisture', 'aeolis/hydro.py: update'), ('retention curves', 'aeolis/hydro.py: SWR_curve'), ('evaporation', 'aeolis/hydro.py: evaporation')])
META = dict(
    bounds='one update of 1x1, 1x2 and 2x1 cells without groundwater process; precipitation up to 100 mm/h, time steps up to a day; retention parameters '
           'at their defaults; scanning-curve selection for all combinations of flags',
    outside='the reversal depth on scanning curves (iterative search), the groundwater level itself (C20), the retention curves under scanning',
    stubs=['numba.njit is the identity', 'exp, log and non-integer powers are uninterpreted functions with sound axioms, refined at models'],
    assumptions=['the moisture before the update is within the limits; resw = resd <= satw <= satd (as in the defaults); 0 < porosity < 1'])


def infiltration(h, ny, nx, half=False):
    p = make_p(h, ny, nx, process_moist=True, method_moist_process='infiltration', porosity=h.real('por', .1, .9), eps=h.const('0.001'), Tdry=h.const(5400))
    dt = h.const(5400) if half else h.real('dt', 1, 86400)
    s = make_s(h, ny, nx)
    s['zb'], s['TWL'] = h.array('zb', (ny, nx), -5, 5), h.array('TWL', (ny, nx), -5, 5)
    s['moist'] = h.array('moist', (ny, nx), 0, 1)
    h.assume((s['moist'] <= p['porosity']).all())
    g = {k: snap(s[k]) for k in ('zb', 'TWL', 'moist')}
    s = h.mod('hydro').update(s, p, dt, 0)
    for j in range(ny):
        for i in range(nx):
            m, m0 = s['moist'][j, i], g['moist'][j, i]
            if g['TWL'][j, i] - g['zb'][j, i] > p['eps']:
                h.eq('flooded cells are saturated', m, p['porosity'])
            else:
                h.le('drying', m, m0)
                h.ge('not negative', m, 0)
                if half:
                    h.eq('half after the drying time', m, m0 / 2)
                else:
                    h.eq('exponential decay', m, m0 * h.np.exp(-(-h.np.log(.5) / p['Tdry']) * dt))
                    if m0 > 0:
                        h.true('never dries completely', m > 0)
    h.eq('bed untouched', s['zb'], g['zb'])
    h.eq('water level untouched', s['TWL'], g['TWL'])


def meteo(h, dry=False):
    return {'T': h.const(15), 'Q': h.real('Q', 0, 40), 'RH': h.const(0) if dry else h.real('rain', 0, 100), 'P': h.real('P', 90, 110), 'U': h.real('U', 0, 100)}


def surface(h, ny, nx, flooded=None, wet=None, salt=False, rain2=False):
    p = make_p(h, ny, nx, process_moist=True, method_moist_process='surf_moisture', process_groundwater=False, process_scanning=False, process_salt=salt)
    for k in ('resw_moist', 'satw_moist', 'resd_moist', 'satd_moist', 'fc', 'alfaw_moist', 'alfad_moist', 'thick_moist'):
        p[k] = h.const(str(p[k]))
    res, sat = p['resw_moist'], p['satd_moist']
    dt = h.real('dt', 1, 3600)
    s = make_s(h, ny, nx)
    s['zb'], s['TWL'] = h.array('zb', (ny, nx), -5, 5), h.array('TWL', (ny, nx), -5, 5)
    s['gw'] = h.array('gw', (ny, nx), -5, 5)
    s['uw'] = h.array('uw', (ny, nx), 0, 30)
    s['moist'] = h.array('moist', (ny, nx), 0.01, .5)
    s['wetting'] = h.bools('wetting', (ny, nx))
    s['moist_swr'] = h.array('swr', (ny, nx), 0, 1)
    s['salt'] = h.zeros((ny, nx, 1))
    s['salt'][:, :, 0] = h.array('salt', (ny, nx), 0, 1)
    s['meteo'] = meteo(h)
    if flooded is not None:
        h.assume((s['TWL'] > s['zb']).all() if flooded else (s['TWL'] <= s['zb']).all())
    if wet is not None:
        h.assume(s['wetting'].all() if wet else (~s['wetting']).all())
    g = {k: snap(s[k]) for k in ('zb', 'TWL', 'moist', 'gw', 'wetting', 'salt')}
    s2 = None
    if ny * nx > 1 and wet is None:
        # one wetting and one drying cell
        w = s['wetting'].reshape(-1)
        h.assume(w[0] & ~w[1])
    if rain2:
        s2 = {k: v.copy() if hasattr(v, 'copy') else v for k, v in s.items()}
        s2['meteo'] = dict(s['meteo'])
        extra = h.real('extra', 0, 50)
        s2['meteo']['RH'] = s['meteo']['RH'] + extra
    U = h.mod('hydro')
    s = U.update(s, p, dt, 0)
    if rain2:
        s2 = U.update(s2, p, dt, 0)
        h.ge('more rain, no less moisture', s2['moist'], s['moist'])
        return
    h.le('at most saturated', s['moist'], sat)
    h.ge('at least residual', s['moist'], res)
    for j in range(ny):
        for i in range(nx):
            m = s['moist'][j, i]
            if g['TWL'][j, i] > g['zb'][j, i]:
                h.eq('flooded cells are saturated', m, sat)
                if salt:
                    h.eq('salt of flooded cells', s['salt'][j, i, 0], 1)
            h.ge('capillary rise', m, s['moist_swr'][j, i])
            lo, hi = (p['resw_moist'], p['satw_moist']) if g['wetting'][j, i] else (p['resd_moist'], p['satd_moist'])
            h.ge('retention at least residual', s['moist_swr'][j, i], lo)
            h.le('retention at most saturated', s['moist_swr'][j, i], hi)
            if g['gw'][j, i] >= g['zb'][j, i]:
                h.eq('groundwater at the bed', s['moist_swr'][j, i], hi)
            else:
                a, n, mm = ('alfaw_moist', 'nw_moist', 'mw_moist') if g['wetting'][j, i] else ('alfad_moist', 'nd_moist', 'md_moist')
                d = (g['zb'][j, i] - g['gw'][j, i]) * 100
                v = lo + (hi - lo) / (1 + abs(p[a] * d) ** p[n]) ** p[mm]
                h.eq('van Genuchten curve', s['moist_swr'][j, i], v)
            if salt:
                h.ge('salt not negative', s['salt'][j, i, 0], 0)
                h.le('salt at most one', s['salt'][j, i, 0], 1)
    for k in ('zb', 'TWL', 'gw'):
        h.eq('%s untouched' % k, s[k], g[k])


def balance(h, over):
    """water balance of a dry cell far above the groundwater"""
    p = make_p(h, 1, 1, process_moist=True, method_moist_process='surf_moisture', process_groundwater=False, process_scanning=False)
    for k in ('resw_moist', 'satw_moist', 'resd_moist', 'satd_moist', 'fc', 'thick_moist'):
        p[k] = h.const(str(p[k]))
    # no capillary rise: the curves are switched to their residual value
    p['satw_moist'] = p['resw_moist']
    dt = h.real('dt', 1, 3600)
    s = make_s(h, 1, 1)
    s['zb'] = h.array('zb', (1, 1), 0, 5)
    s['TWL'] = s['zb'] - 1
    s['gw'] = s['zb'] - 10
    s['uw'] = h.array('uw', (1, 1), 0, 30)
    s['moist'] = h.array('moist', (1, 1), .01, .5)
    s['wetting'] = s['zb'] >= 0
    s['moist_swr'] = h.zeros((1, 1))
    s['meteo'] = meteo(h)
    m0, fc = s['moist'][0, 0], p['fc']
    U = h.mod('hydro')
    E = U.evaporation(s, p, s['meteo'])[0, 0]
    if over:
        h.assume(m0 > fc)
        rest = fc + (m0 - fc) * h.np.exp(-(-h.np.log(.5) / p['Tdry']) * dt)
    else:
        h.assume(m0 <= fc)
        rest = m0
    net = (s['meteo']['RH'] / 3600 / 1000 - E / 24 / 3600 / 1000) * dt / p['thick_moist']
    s = U.update(s, p, dt, 0)
    want = rest + net
    lo, hi = p['resw_moist'], p['satd_moist']
    m = s['moist'][0, 0]
    if want <= lo:
        h.eq('dry', m, lo)
    elif want >= hi:
        h.eq('full', m, hi)
    else:
        h.eq('water balance', m, want)
    h.ge('drainage stops at field capacity', rest, fc if over else m0)


def evap(h):
    """evaporation grows with radiation and falls with humidity"""
    p = make_p(h, 1, 2)
    p['cpair'] = h.const(str(p['cpair']))
    s = make_s(h, 1, 2)
    s['uw'] = h.array('uw', (1, 2), 0, 30)
    h.assume(s['uw'][0, 0] <= s['uw'][0, 1])
    m = meteo(h)
    U = h.mod('hydro')
    e = U.evaporation(s, p, m)
    h.ge('not negative', e, 0)
    h.le('more wind, more evaporation', e[0, 0], e[0, 1])
    m2 = dict(m)
    m2['U'] = 100 - (100 - m['U']) / 2
    h.le('humid air, less evaporation', U.evaporation(s, p, m2), e)
    m3 = dict(m)
    m3['Q'] = m['Q'] + h.real('dQ', 0, 10)
    h.ge('more sun, more evaporation', U.evaporation(s, p, m3), e)


def scanning(h, ny, nx):
    sh = (ny, nx)
    gw, gp = h.array('gw', sh, -5, 5), h.array('gwp', sh, -5, 5)
    wet, sw, sd = h.bools('wetting', sh), h.bools('scanw', sh), h.bools('scand', sh)
    old = h.array('old', sh, 0, 1)
    w, d = h.array('w', sh, 0, 1), h.array('d', sh, 0, 1)
    a, b = h.array('scw', sh, 0, 1), h.array('scd', sh, 0, 1)
    for x, y, z, q in zip(w.reshape(-1), d.reshape(-1), a.reshape(-1), b.reshape(-1)):
        h.assume(x <= y)
        for v in (z, q):
            h.assume(x <= v)
            h.assume(v <= y)
    g = [snap(v) for v in (wet, sw, sd)]
    m, sd1, sw1 = h.mod('hydro').SWR_curve(snap(wet), gw, gp, snap(sw), snap(old), w, snap(sd), a, d, b)
    for j in range(ny):
        for i in range(nx):
            h.ge('at least the wetting curve', m[j, i], w[j, i])
            h.le('at most the drying curve', m[j, i], d[j, i])
            up = gw[j, i] >= gp[j, i]
            onw, ond = sw1[j, i], sd1[j, i]
            if up:
                main = wet[j, i] and not sw[j, i]
                h.eq('wetting', m[j, i], w[j, i] if main else a[j, i])
                h.true('not on a drying curve', not ond)
                h.true('on the scanning curve while above the main curve', bool(onw) == (bool(a[j, i] > w[j, i]) and not main))
            else:
                main = not wet[j, i] and not sd[j, i]
                h.eq('drying', m[j, i], d[j, i] if main else b[j, i])
                h.true('not on a wetting curve', not onw)
                h.true('on the scanning curve while below the main curve', bool(ond) == (bool(b[j, i] < d[j, i]) and not main))


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    for ny, nx in ((1, 2), (2, 1)):
        for half in (False, True):
            add(infiltration, 'infiltration-%dx%d-%s' % (ny, nx, half), ny=ny, nx=nx, half=half)
    for fl in (True, False):
        for wet in (True, False):
            add(surface, 'surface-%s-%s' % (fl, wet), ny=1, nx=1, flooded=fl, wet=wet, salt=True)
    add(surface, 'surface-1x2', ny=1, nx=2, flooded=False, cost=5)
    add(surface, 'surface-2x1', ny=2, nx=1, flooded=False, cost=5)
    add(surface, 'rain', ny=1, nx=1, rain2=True)
    add(balance, 'balance-over', over=True)
    add(balance, 'balance-under', over=False)
    add(evap, 'evaporation')
    add(scanning, 'scanning', ny=1, nx=1)
    add(scanning, 'scanning-1x2', ny=1, nx=2, cost=3)
    if tier == 'thorough':
        add(surface, 'surface-1x2-salt', ny=1, nx=2, salt=True, cost=9)
        add(surface, 'surface-2x2', ny=2, nx=2, flooded=True, wet=True, salt=True, cost=9)
    return out
