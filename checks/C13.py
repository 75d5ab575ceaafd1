"""Shear velocity threshold."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Threshold is set by grain size; wet, salty, sheltered beds only raise it',
    statement='The threshold shear velocity of every fraction and cell is A sqrt((rho_grain - rho_air)/rho_air g d), kept as uth0, which bed properties '
              'only raise. Moisture up to half a percent (by mass) above the residual content has no effect, above 6.4 percent by mass there is no '
              'transport (infinite threshold), in between the configured formulation applies per cell and fraction (belly_johnson: times max(1, 1.8 + 0.6 '
              'log10(100 mg)); hotta: plus 7.5 mg; chepil: root of uth^2 + 0.6 mg^2/(rho_air w^2); saleh_fryear_mod: plus 0.022 mg/w + 0.506 (mg/w)^2; shao: times '
              'exp(22.7 mg); dong_2002: times sqrt(1 + 100 K mg) with K of the mean grain size), and more moisture never gives a '
              'lower threshold. Salt multiplies by 1.03 exp(102.7 csalt (1 - salt)). Sheltering multiplies by sqrt((1 - m g)(1 + m beta/sigma g)) with g '
              'the mass fraction of the top layer that does not move. Without moisture threshold, cells more than eps under water have an infinite '
              'threshold if tides are on. The threshold mask is applied last, once. Cells within 1 cm of the non-erodible layer or below get an infinite '
              'threshold, others are not touched. With a threshold file or with the process off only the non-erodible layer acts. '
              'No threshold is undefined; disabled effects do nothing; combined effects act in the order moisture (or water), salt, sheltering, mask, non-erodible layer.',
    over=['inputs', 'configurations'],
    text='all moisture, salt, bed composition and water levels, every combination of effects',
    why='no test evaluates a threshold other than through complete runs with one configuration',
    files=['aeolis/threshold.py'],
    mech=[('threshold', 'aeolis/threshold.py: compute'), ('grain size', 'aeolis/threshold.py: compute_grainsize'), ('moisture', 'aeolis/threshold.py: compute_moisture'),
          ('salt', 'aeolis/threshold.py: compute_salt'), ('sheltering', 'aeolis/threshold.py: compute_sheltering'),
          ('non-erodible layer', 'aeolis/threshold.py: non_erodible'), ('masks', 'aeolis/utils.py: apply_mask')])
META = dict(
    bounds='1x2 and 2x1 cells with 1-2 fractions; moisture in [0,0.5], salt in [0,1], levels in [-5,5] m, top-layer masses in [0,100] (total at least 1), real masks in [0.1,3] with '
           'offset in [0,1]; grain sizes 100 micron to 2 mm; other parameters at defaults',
    outside='bed slope (an empty function here), dry layer and humidity thresholds (call functions that do not exist), the saleh_fryear, gregory_darwish, cornelis and dong_2007 '
            'formulas beyond definedness, limits and monotonicity',
    stubs=['exp, log and non-integer powers are uninterpreted functions with sound axioms, refined at models'],
    assumptions=['finite positive threshold before an effect applies'])


def base(h, ny, nx, nf, **over):
    p = make_p(h, ny, nx, 1, nf, process_threshold=True, th_grainsize=True, **over)
    p['grain_size'] = h.array('d', (nf,), 1e-4, 2e-3)
    for k in ('Aa', 'rhog', 'rhoa', 'g', 'rhow', 'porosity', 'resw_moist', 'w1_5', 'csalt', 'beta', 'sigma', 'eps'):
        p[k] = h.const(str(p[k]))
    s = make_s(h, ny, nx, 1, nf)
    s['threshold_mask'] = 1.
    s['zb'], s['zs'] = h.array('zb', (ny, nx), -5, 5), h.array('zs', (ny, nx), -5, 5)
    return p, s


def grain(h, p):
    return [p['Aa'] * h.np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d) for d in p['grain_size']]


def plain(h, ny, nx, nf, tide=False):
    p, s = base(h, ny, nx, nf, process_tide=tide)
    old = {k: snap(s[k]) for k in ('zb', 'zs')}
    s = h.mod('threshold').compute(s, p)
    u = grain(h, p)
    for j in range(ny):
        for i in range(nx):
            for k in range(nf):
                h.eq('grain size threshold', s['uth0'][j, i, k], u[k])
                if tide and old['zb'][j, i] + p['eps'] < old['zs'][j, i]:
                    h.true('no transport under water', s['uth'][j, i, k] == h.np.inf)
                else:
                    h.eq('threshold', s['uth'][j, i, k], u[k])
                h.eq('threshold kept', s['uthf'][j, i, k], s['uth'][j, i, k])
    h.eq('bed untouched', s['zb'], old['zb'])


def mg_of(p, m):
    return m * p['rhow'] / (p['rhog'] * (1 - p['porosity']))


def formula(h, p, method, u, mg):
    w = p['w1_5']
    if method == 'belly_johnson':
        return u * h.np.maximum(1., h.const(1.8) + h.const(0.6) * h.np.log10(mg * 100))
    if method == 'hotta':
        return u + h.const(7.5) * mg
    if method == 'chepil':
        return h.np.sqrt(u ** 2 + h.const(0.6) * mg ** 2 / (p['rhoa'] * w ** 2))
    if method == 'saleh_fryear_mod':
        return u + h.const('0.022') * mg / w + h.const('0.506') * (mg / w) ** 2
    if method == 'shao':
        return u * h.np.exp(h.const('22.7') * mg)
    if method == 'dong_2002':
        d = (p['grain_size'] * p['grain_dist']).sum() * 1000
        K = [2.51, 2.05, 2.75, 1.59, 1.87, 2.15]
        for lim, k in zip((.135, .15, .2, .25, .4), K):
            if d < h.const(lim):
                return u * h.np.sqrt(1 + h.const(k) * 100 * mg)
        return u * h.np.sqrt(1 + h.const(K[-1]) * 100 * mg)


def moisture(h, ny, nx, nf, method, tide=True):
    p, s = base(h, ny, nx, nf, th_moisture=True, method_moist_threshold=method, process_tide=tide)
    if nf == 1:
        p['grain_dist'] = h.np.array([h.const(1)])
    s['moist'] = h.array('moist', (ny, nx), 0, .5)
    m = snap(s['moist'])
    s = h.mod('threshold').compute(s, p)
    u = grain(h, p)
    c = s['uth'].reshape(-1, nf)
    low = p['resw_moist'] * p['rhow'] / (p['rhog'] * (1 - p['porosity'])) + h.const('0.005')
    for j in range(ny):
        for i in range(nx):
            mg = mg_of(p, m[j, i])
            for k in range(nf):
                v = s['uth'][j, i, k]
                h.eq('grain size threshold', s['uth0'][j, i, k], u[k])
                if mg > h.const('0.064'):
                    h.true('no transport from wet beds', v == h.np.inf)
                elif mg > low:
                    if method in ('belly_johnson', 'hotta', 'chepil', 'saleh_fryear_mod', 'shao', 'dong_2002'):
                        if method == 'chepil':
                            w = p['w1_5']
                            h.eq('moisture formula', v * v, u[k] * u[k] + h.const('0.6') * mg ** 2 / (p['rhoa'] * w ** 2), tol=1e-7)
                            h.ge('defined', v, 0)
                        elif method == 'dong_2002':
                            f = formula(h, p, method, 1, mg)
                            h.eq('moisture formula', v, u[k] * f, tol=1e-7)
                        else:
                            h.eq('moisture formula', v, formula(h, p, method, u[k], mg), tol=1e-7)
                        h.ge('moisture never lowers the threshold', v, u[k], tol=1e-7)
                    else:
                        h.true('defined', v > 0)
                else:
                    h.eq('dry enough', v, u[k])
    h.eq('moisture untouched', s['moist'], m)


def monotone(h, method):
    """two cells: the wetter one never has the lower threshold"""
    p, s = base(h, 1, 2, 1, th_moisture=True, method_moist_threshold=method)
    p['grain_size'] = h.np.array([h.const('225e-6')])
    p['grain_dist'] = h.np.array([h.const(1)])
    s['moist'] = h.array('moist', (1, 2), 0, .5)
    h.assume(s['moist'][0, 0] <= s['moist'][0, 1])
    if method in ('saleh_fryear', 'cornelis', 'dong_2007'):
        # absolute formulas: only comparable among moist cells
        h.assume(mg_of(p, s['moist'][0, 0]) > h.const('0.0125'))
    s = h.mod('threshold').compute(s, p)
    h.true('wetter, no easier transport', s['uth'][0, 0, 0] <= s['uth'][0, 1, 0])
    h.true('defined', s['uth'] > 0)


def salt(h, ny, nx, nf, tide=False):
    p, s = base(h, ny, nx, nf, th_salt=True, process_tide=tide)
    s['salt'][:, :, 0] = h.array('salt', (ny, nx), 0, 1)
    s = h.mod('threshold').compute(s, p)
    u = grain(h, p)
    for j in range(ny):
        for i in range(nx):
            f = h.const('1.03') * h.np.exp(h.const('102.7') * p['csalt'] * (1 - s['salt'][j, i, 0]))
            for k in range(nf):
                v = s['uth'][j, i, k]
                if tide and s['zb'][j, i] + p['eps'] < s['zs'][j, i]:
                    h.true('no transport under water', v == h.np.inf)
                else:
                    h.eq('salt factor', v, u[k] * f, tol=1e-7)
                    h.ge('salt never lowers the threshold', v, u[k] * h.const('1.03'), tol=1e-7)


def sheltering(h, ny, nx, nf, factor=None):
    """the uniform factor of the amplification and the part that does not move"""
    p, s = base(h, ny, nx, nf, th_sheltering=True)
    p['grain_size'] = h.np.array([h.const(v) for v in ('225e-6', '1e-3')[:nf]])
    m = p['m'] = h.real('m', 0, 1) if factor is None else h.const(factor)
    mass = h.array('mass', (ny, nx, 1, nf), 0, 100)
    h.assume((mass.sum(axis=-1) >= 1).all())
    s['mass'] = mass.copy()
    s['ustar'] = h.array('ustar', (ny, nx), 0, 2)
    us = snap(s['ustar'])
    s = h.mod('threshold').compute(s, p)
    u = grain(h, p)
    for j in range(ny):
        for i in range(nx):
            tot = mass[j, i, 0].sum()
            still = 0
            for k in range(nf):
                if us[j, i] <= u[k]:
                    still = still + mass[j, i, 0, k]
            g = still / tot
            r2 = (1 - m * g) * (1 + m * p['beta'] / p['sigma'] * g)
            for k in range(nf):
                v = s['uth'][j, i, k] / u[k]
                h.eq('sheltering factor', v * v, r2, tol=1e-6)
                h.ge('positive', s['uth'][j, i, k], 0)
                if factor is not None:
                    h.ge('sheltering never lowers the threshold', v * v, 1, tol=1e-6)
    h.eq('masses untouched', s['mass'], mass)


def nonerodible(h, ny, nx, nf, on=True, file=False, moist=False):
    p, s = base(h, ny, nx, nf, th_nelayer=True)
    p['process_threshold'] = on
    ne = h.array('ne', (ny, nx), -5, 5)
    p['ne_file'] = ne.copy()
    u = None
    if not on or file:
        s['uth'] = h.array('uth', (ny, nx, nf), .01, 5)
        u = snap(s['uth'])
        p['threshold_file'] = h.full((ny, nx), 1.) if file else None
    zb = snap(s['zb'])
    s = h.mod('threshold').compute(s, p)
    g = grain(h, p)
    for j in range(ny):
        for i in range(nx):
            for k in range(nf):
                v = s['uth'][j, i, k]
                if zb[j, i] <= ne[j, i] + h.const('0.01'):
                    h.true('non-erodible', v == h.np.inf)
                else:
                    h.eq('erodible', v, g[k] if u is None else u[j, i, k])
    h.eq('layer', s['zne'], ne)
    h.eq('bed untouched', s['zb'], zb)


def masked(h, ny, nx, nf, salted=False):
    p, s = base(h, ny, nx, nf, th_salt=salted)
    re, im = h.array('re', (ny, nx), .1, 3), h.array('im', (ny, nx), 0, 1)
    s['threshold_mask'] = re + 1j * im
    s['salt'][:, :, 0] = h.array('salt', (ny, nx), 0, 1)
    s = h.mod('threshold').compute(s, p)
    u = grain(h, p)
    for j in range(ny):
        for i in range(nx):
            f = h.const('1.03') * h.np.exp(h.const('102.7') * p['csalt'] * (1 - s['salt'][j, i, 0])) if salted else 1
            for k in range(nf):
                h.eq('mask', s['uth'][j, i, k], u[k] * f * re[j, i] + im[j, i], tol=1e-7)
                h.eq('mask of the kept threshold', s['uthf'][j, i, k], s['uth'][j, i, k])
                h.eq('the mask does not reach the grain size threshold', s['uth0'][j, i, k], u[k])


def off(h, ny, nx, nf, file):
    p, s = base(h, ny, nx, nf, th_moisture=True, th_salt=True, process_tide=True)
    if file:
        p['threshold_file'] = h.full((ny, nx), 1.)
    else:
        p['process_threshold'] = False
    s['uth'] = h.array('uth', (ny, nx, nf), .01, 5)
    s['moist'] = h.array('moist', (ny, nx), 0, .5)
    u = snap(s['uth'])
    s = h.mod('threshold').compute(s, p)
    h.eq('prescribed threshold untouched', s['uth'], u)


def together(h):
    """moisture, salt and sheltering on top of each other"""
    p, s = base(h, 1, 2, 1, th_moisture=True, th_salt=True, th_sheltering=True, method_moist_threshold='hotta', process_tide=True)
    p['grain_size'] = h.np.array([h.const('225e-6')])
    h.true('factor m has a default', 'm' in p)
    m = p['m'] = h.const('0.5')
    s['moist'] = h.array('moist', (1, 2), 0, .1)
    s['salt'][:, :, 0] = h.array('salt', (1, 2), 0, 1)
    s['mass'] = h.full((1, 2, 1, 1), 10.)
    s['ustar'] = h.array('ustar', (1, 2), 0, 3)
    s = h.mod('threshold').compute(s, p)
    u = grain(h, p)[0]
    low = p['resw_moist'] * p['rhow'] / (p['rhog'] * (1 - p['porosity'])) + h.const('0.005')
    for i in range(2):
        mg = mg_of(p, s['moist'][0, i])
        if mg > h.const('0.064'):
            h.true('wet', s['uth'][0, i, 0] == h.np.inf)
            continue
        v = u + h.const('7.5') * mg if mg > low else u
        v = v * h.const('1.03') * h.np.exp(h.const('102.7') * p['csalt'] * (1 - s['salt'][0, i, 0]))
        if s['ustar'][0, i] <= v:
            w = s['uth'][0, i, 0]
            h.eq('all effects', w * w, v * v * (1 - m) * (1 + m * p['beta'] / p['sigma']), tol=1e-6, scale=100.)
            h.ge('positive', w, 0)
        else:
            h.eq('all effects, moving', s['uth'][0, i, 0], v, tol=1e-6)


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    for ny, nx, nf in ((1, 2, 2), (2, 1, 1)):
        n = '%dx%dx%d' % (ny, nx, nf)
        kw = dict(ny=ny, nx=nx, nf=nf)
        for t in (True, False):
            add(plain, 'plain-%s-%s' % (n, t), tide=t, **kw)
            add(salt, 'salt-%s-%s' % (n, t), tide=t, **kw)
            add(off, 'off-%s-%s' % (n, t), file=t, **kw)
            add(masked, 'mask-%s-%s' % (n, t), salted=t, **kw)
        for on, f in ((True, False), (True, True), (False, False)):
            add(nonerodible, 'nonerodible-%s-%s-%s' % (n, on, f), on=on, file=f, **kw)
        add(sheltering, 'sheltering-%s' % n, cost=5, **kw)
        add(sheltering, 'sheltering-%s-default' % n, factor='0.5', cost=5, **kw)
    for m in ('belly_johnson', 'hotta', 'chepil', 'saleh_fryear_mod', 'shao', 'saleh_fryear', 'cornelis', 'dong_2007', 'gregory_darwish', 'dong_2002'):
        add(moisture, 'moisture-%s' % m, ny=1, nx=2, nf=2 if m[:4] in ('bell', 'hott', 'shao') else 1, method=m, cost=3)
        if m not in ('gregory_darwish',):
            add(monotone, 'monotone-%s' % m, method=m)
    add(together, 'together', cost=3)
    if tier == 'thorough':
        for m in ('belly_johnson', 'hotta', 'chepil', 'saleh_fryear_mod', 'shao'):
            add(moisture, 'moisture-2x2-%s' % m, ny=2, nx=2, nf=2, method=m, cost=9)
        add(sheltering, 'sheltering-2x2', ny=2, nx=2, nf=2, cost=9)
    return out
