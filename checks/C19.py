"""Initial bed, mixing by waves, reset of the wet bed and average change."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Initial bed is as configured, wave mixing conserves it, the wet bed resets',
    statement='At the start bed, initial bed and non-erodible layer are those of the files and every cell and layer holds rhog (1-porosity) layer_thickness times the '
              'normalised grain_dist (per layer if a row is given per layer), or exactly bedcomp_file if given; masks and threshold file are taken over. Mixing by waves '
              'acts on the layers whose bottom is not below the depth of disturbance facDOD*Hsmix; in each cell it conserves the mass of every fraction, keeps the '
              'mass of equally heavy layers, brings the mixed layers to their mean composition if the disturbance does not pass the lowest layer and between the '
              'old and the mean otherwise; mass never gets negative, deeper layers and cells without mixing keep theirs. The wet bed reset moves bed lying more than 1 cm under water '
              'towards the initial bed by a part dt_opt/Tbedreset of the difference and no other bed. The bed level change is that since the last step, '
              'scaled to a year and averaged exponentially over avg_time. Disabled processes change nothing.',
    over=['inputs', 'configurations'],
    text='all bed files, compositions, wave heights, water levels and settings',
    why='mixing, layered compositions and reset have no tests',
    files=['aeolis/bed.py'],
    mech=[('initial bed', 'aeolis/bed.py: initialize'), ('mixing', 'aeolis/bed.py: mixtoplayer'), ('reset', 'aeolis/bed.py: wet_bed_reset'),
          ('averages', 'aeolis/bed.py: average_change')])
META = dict(
    bounds='2 cells, up to 3 layers and 3 fractions, layer masses up to 1000 kg/m2, levels up to 100 m; dt_opt not longer than Tbedreset',
    outside='reading the files',
    stubs=[],
    assumptions=['layer thicknesses, porosity in (0,1), Tbedreset and avg_time positive; wave heights and bed masses not negative'])


def initial(h, ny, nx, nl, nf, kind, mask=False):
    p = make_p(h, ny, nx, nl, nf)
    p['bed_file'] = zb = h.array('bed', (ny, nx), -100, 100)
    p['ne_file'] = zne = h.array('ne', (ny, nx), -100, 100)
    p['layer_thickness'] = th = h.real('th', .001, 1)
    p['rhog'], p['porosity'] = rhog, por = h.real('rhog', 1000, 3000), h.real('por', .1, .9)
    p['bedcomp_file'] = None
    shape = (nl, nf) if kind == 'layers' else (nf,)
    g = h.array('dist', shape, .01, 10)
    p['grain_dist'] = h.np.array([3] * nf) if kind in ('ints', 'ints-bedcomp') else g
    bc = None
    if kind.endswith('bedcomp'):
        bc = h.array('comp', (ny, nx * nl * nf), 0, 1000)
        p['bedcomp_file'] = bc
    p['threshold_file'] = uth = h.array('uthfile', (ny, nx), 0, 1) if mask else None
    for k in ('wave_mask', 'tide_mask', 'runup_mask', 'threshold_mask', 'gw_mask'):
        p[k] = None
    if mask:
        p['tide_mask'] = tm = h.array('tidemask', (ny * nx,), -10, 10)
        p['threshold_mask'] = um = h.array('uthmask', (ny, nx), -10, 10)
    s = make_s(h, ny, nx, nl, nf)
    old = {k: snap(v) for k, v in s.items() if hasattr(v, 'copy')}
    s = h.mod('bed').initialize(s, p)
    h.eq('bed', s['zb'], zb)
    h.eq('initial bed', s['zb0'], zb)
    h.eq('non-erodible layer', s['zne'], zne)
    h.true('separate arrays', s['zb'] is not s['zb0'])
    for j in range(ny):
        for i in range(nx):
            for k in range(nl):
                h.eq('thickness', s['thlyr'][j, i, k], th)
                w = [h.const(1)] * nf if kind == 'ints' else [g[k, f] if kind == 'layers' else g[f] for f in range(nf)]
                for f in range(nf):
                    if bc is not None:
                        h.eq('composition file', s['mass'][j, i, k, f], bc[j, (i * nl + k) * nf + f])
                    else:
                        h.eq('composition', s['mass'][j, i, k, f] * sum(w), rhog * (1 - por) * th * w[f], scale=1e3)
    for k in ('wave_mask', 'runup_mask', 'gw_mask') + (() if mask else ('tide_mask', 'threshold_mask')):
        h.eq('%s neutral' % k, s[k] * h.np.ones((ny, nx)), h.np.ones((ny, nx)))
    if mask:
        h.eq('mask', s['tide_mask'], tm.reshape((ny, nx)))
        h.eq('mask', s['threshold_mask'], um)
        for f in range(nf):
            h.eq('threshold', s['uth'][:, :, f], uth)
    for k in ('zs', 'Ct', 'pickup', 'dzb', 'moist', 'ustar') + (() if mask else ('uth',)):
        h.eq('%s untouched' % k, s[k], old[k])


def mixing(h, ny, nx, nl, nf, equal, on=True, still=None):
    p = make_p(h, ny, nx, nl, nf, process_mixtoplayer=on)
    p['facDOD'] = h.const('0.1')
    s = make_s(h, ny, nx, nl, nf)
    s['Hsmix'] = h.array('Hs', (ny, nx), 0, 20)
    if still is not None:
        s['Hsmix'][still] = 0 * s['Hsmix'][still]
    th = h.array('th', (ny, nx, nl), .001, 1)
    s['thlyr'] = th
    m = h.array('mass', (ny, nx, nl, nf), 0, 1000)
    s['mass'] = m
    if equal:
        for j in range(ny):
            for i in range(nx):
                for k in range(1, nl):
                    h.assume(m[j, i, k].sum() == m[j, i, 0].sum())
    old = {k: snap(v) for k, v in s.items() if hasattr(v, 'copy')}
    s = h.mod('bed').mixtoplayer(s, p)
    for k in ('zb', 'thlyr', 'Hsmix', 'pickup', 'zs'):
        h.eq('%s untouched' % k, s[k], old[k])
    m0, m1 = old['mass'], s['mass']
    if not on:
        h.eq('switched off', m1, m0)
        return
    for j in range(ny):
        for i in range(nx):
            dod, depth, n = s['Hsmix'][j, i] * p['facDOD'], 0, 0
            for k in range(nl):
                depth = depth + th[j, i, k]
                if n == k and dod > 0 and depth <= dod:
                    n = k + 1
            for f in range(nf):
                a, b = m0[j, i, :, f], m1[j, i, :, f]
                h.eq('mass of the fraction conserved', b.sum(), a.sum(), scale=1e3)
                for k in range(n, nl):
                    h.eq('deeper layers untouched', b[k], a[k])
                if n:
                    mean = a[:n].sum() / n
                    for k in range(n):
                        if n < nl or dod <= depth:
                            h.eq('well mixed', b[k], mean, scale=1e3)
                        elif a[k] <= mean:
                            h.le('towards the mean', a[k], b[k], scale=1e3)
                            h.le('not beyond the mean', b[k], mean, scale=1e3)
                        else:
                            h.le('towards the mean', b[k], a[k], scale=1e3)
                            h.le('not beyond the mean', mean, b[k], scale=1e3)
                for k in range(nl):
                    h.ge('not negative', b[k], 0, scale=1e3)
            if equal:
                for k in range(nl):
                    h.eq('layer mass', m1[j, i, k].sum(), m0[j, i, k].sum(), scale=1e3)


def reset(h, ny, nx, on=True):
    p = make_p(h, ny, nx, process_wet_bed_reset=on)
    p['dt_opt'], p['Tbedreset'] = dt, T = h.real('dt', 1, 1e5), h.real('T', 1, 1e7)
    h.assume(dt <= T)
    p['dt'] = h.real('p_dt', 1, 1e5)
    s = make_s(h, ny, nx)
    for k in ('zb', 'zb0', 'zs'):
        s[k] = h.array(k, (ny, nx), -100, 100)
    old = {k: snap(v) for k, v in s.items() if hasattr(v, 'copy')}
    s = h.mod('bed').wet_bed_reset(s, p)
    for j in range(ny):
        for i in range(nx):
            z, z0, zs, b = old['zb'][j, i], old['zb0'][j, i], old['zs'][j, i], s['zb'][j, i]
            if on and zs > z + h.const('0.01'):
                h.eq('part of the difference', (b - z) * T, dt * (z0 - z), scale=1e7)
                if z0 >= z:
                    h.ge('towards the initial bed', b, z)
                    h.le('not beyond', b, z0)
                else:
                    h.le('towards the initial bed', b, z)
                    h.ge('not beyond', b, z0)
            else:
                h.eq('not under water', b, z)
    for k in ('zb0', 'zs', 'mass', 'zne', 'dzb'):
        h.eq('%s untouched' % k, s[k], old[k])


def average(h, ny, nx):
    p = make_p(h, ny, nx)
    p['dt_opt'], p['dt'] = dt, _ = h.real('dt', 1, 1e5), h.real('p_dt', 1, 1e5)
    p['accfac'], p['avg_time'] = acc, T = h.real('acc', 1, 100), h.real('avg', 1e3, 1e8)
    s, l = make_s(h, ny, nx), {}
    s['zb'], l['zb'] = h.array('zb', (ny, nx), -100, 100), h.array('zbprev', (ny, nx), -100, 100)
    l['dzbavg'] = h.array('avgprev', (ny, nx), -100, 100)
    keep = [snap(s['zb']), snap(l['zb']), snap(l['dzbavg'])]
    s = h.mod('bed').average_change(l, s, p)
    d = keep[0] - keep[1]
    yr = h.const(31557600)
    h.eq('change', s['dzb'], d)
    h.eq('per year', s['dzbyear'] * dt * acc, d * yr, scale=1e10)
    h.eq('for vegetation', s['dzbveg'], s['dzbyear'])
    h.eq('exponential average', (s['dzbavg'] - keep[2]) * T, (s['dzbyear'] - keep[2]) * dt * acc, scale=1e10)
    if dt * acc <= T:
        for j in range(ny):
            for i in range(nx):
                a, y, v = keep[2][j, i], s['dzbyear'][j, i], s['dzbavg'][j, i]
                if a <= y:
                    h.true('between', (v >= a - h.const('1e-9')) & (v <= y + abs(y) * h.const('1e-9') + h.const('1e-9')))
    h.eq('bed untouched', s['zb'], keep[0])
    h.eq('previous bed untouched', l['zb'], keep[1])
    h.eq('previous average untouched', l['dzbavg'], keep[2])
    h.true('own arrays', s['dzbveg'] is not s['dzbyear'])


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    for kind in ('dist', 'ints', 'layers', 'bedcomp', 'layers-bedcomp', 'ints-bedcomp'):
        add(initial, 'initial-%s' % kind, ny=2, nx=2, nl=2, nf=2, kind=kind)
    add(initial, 'initial-one-fraction', ny=1, nx=2, nl=3, nf=1, kind='dist')
    add(initial, 'initial-masks', ny=2, nx=2, nl=1, nf=2, kind='dist', mask=True)
    add(initial, 'initial-layers-3', ny=1, nx=2, nl=3, nf=3, kind='layers')
    for eq in (True, False):
        add(mixing, 'mixing-1x1-%s' % ('equal' if eq else 'any'), ny=1, nx=1, nl=3, nf=2, equal=eq)
        add(mixing, 'mixing-1x2-%s' % ('equal' if eq else 'any'), ny=1, nx=2, nl=2, nf=2, equal=eq)
    add(mixing, 'mixing-beside-calm', ny=2, nx=1, nl=2, nf=2, equal=False, still=(0, 0))
    add(mixing, 'mixing-off', ny=1, nx=2, nl=2, nf=2, equal=False, on=False)
    add(reset, 'reset', ny=1, nx=2)
    add(reset, 'reset-column', ny=2, nx=1)
    add(reset, 'reset-off', ny=1, nx=2, on=False)
    add(average, 'average', ny=1, nx=2)
    if tier == 'thorough':
        add(mixing, 'mixing-1x1-4layers', cost=4, ny=1, nx=1, nl=4, nf=3, equal=False)
        add(mixing, 'mixing-2x2', cost=6, ny=2, nx=2, nl=2, nf=2, equal=True)
        add(reset, 'reset-2x2', ny=2, nx=2)
        add(average, 'average-2x2', ny=2, nx=2)
    return out
