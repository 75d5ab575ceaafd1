"""Sand fences."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Sand fences act with the height above the sand and only downwind',
    statement='A fence keeps its top: its effective height is the initial bed plus configured height minus the current bed, so burial lowers it and erosion raises it. Heights under 10 cm '
              'do not act; above 1.5 m the fence has eroded out and never acts again, and no fence ever appears where none of at least 10 cm was placed. In one-dimensional '
              'runs each acting fence of height h reduces the shear velocity at a distance x downwind by (1-R0) exp(-C x/h), within 20 h including its own cell; reductions add up '
              'to at most the full wind. Upwind and further downwind the wind is unchanged; it is never increased except to 0.01 m/s, keeps its direction, and stress is rho_air '
              'ustar^2 along it again. Without the process nothing changes.',
    over=['inputs', 'histories'],
    text='all beds, fence heights, winds and sequences of bed changes',
    why='fences have no tests',
    files=['aeolis/fences.py'],
    mech=[('effective height', 'aeolis/fences.py: initialize, update_fence_height'), ('shear reduction', 'aeolis/fences.py: fence_shear1d')])
META = dict(
    bounds='transects of up to 5 cells with up to 2 fences, up to 4 bed changes',
    outside='two-dimensional fences (rotated grid of at least 200 cells a side), fence tops below 0.1 m above reference',
    stubs=['exp is an uninterpreted function with sound axioms, refined at models'],
    assumptions=[])


def setup(h, n, rows=1):
    p = make_p(h, rows, n, process_fences=True)
    s = make_s(h, rows, n)
    return s, p


def heights(h, n, steps):
    """heights through a history of beds"""
    F = h.mod('fences')
    s, p = setup(h, n)
    z0 = h.array('zb0', (1, n), 0, 5)
    p['fence_file'] = f = h.array('fence', (1, n), 0, 3)
    s['zb'] = snap(z0)
    s = F.initialize(s, p)
    h.eq('base', s['fence_base'], z0)
    h.eq('top', s['fence_top'], z0 + f)
    h.eq('initial height', s['fence_height'], f)
    f0 = snap(f)
    gone = [f0[0, i] < h.const('0.1') for i in range(n)]
    for k in range(steps):
        z = h.array('zb%d' % (k + 1), (1, n), 0, 5)
        s['zb'] = snap(z)
        s = F.update_fence_height(s, p)
        h.eq('bed untouched', s['zb'], z)
        for i in range(n):
            top = z0[0, i] + f0[0, i]
            h.assume(top >= h.const('0.1'))
            e = top - z[0, i]
            if gone[i] or e < h.const('0.1'):
                h.eq('no fence', s['fence_height'][0, i], 0)
            elif e > h.const('1.5'):
                h.eq('eroded out', s['fence_height'][0, i], 0)
                gone[i] = True
            else:
                h.eq('height above the bed', s['fence_height'][0, i], e)
        h.eq('top stays', s['fence_top'], z0 + f0)


def off(h, n):
    s, p = setup(h, n)
    p['process_fences'] = False
    old = {k: snap(v) for k, v in s.items() if hasattr(v, 'copy')}
    s = h.mod('fences').initialize(s, p)
    for k, v in old.items():
        h.eq('%s untouched' % k, s[k], v)


def shear(h, n, udir, fences, uniform=True, buried=None, still=False):
    s, p = setup(h, n)
    F = h.mod('fences')
    p['okin_c1_fence'], p['okin_initialred_fence'] = c1, r0 = h.const('0.5'), h.const('0.25')
    p['rhoa'] = h.const('1.25')
    sg = 1 if udir % 360 > 180 else -1
    s['udir'] = h.full((1, n), h.const(udir))
    s['ustar'] = h.full((1, n), h.real('u', 0, 3)) if uniform else h.array('ustar', (1, n), 0, 3)
    if still:
        s['ustar'] = h.zeros((1, n))
    s['ustars'], s['ustarn'] = s['ustar'] * sg * h.const('0.8'), s['ustar'] * h.const('0.6')
    xs = [h.const(v) for v in ('0', '0.5', '2', '4', '13')][:n]
    for i in range(n):
        s['x'][0, i] = xs[i]
    s['zb'] = h.full((1, n), h.const(1))
    hf = {}
    ff = h.zeros((1, n))
    for k in fences:
        ff[0, k] = hf[k] = h.const('0.5' if k == fences[0] else '1')
    p['fence_file'] = ff
    s = F.initialize(s, p)
    if buried is not None:
        s['zb'][0, buried] = h.const('1.25')
        hf[buried] = hf[buried] - h.const('0.25')
    o = {k: snap(v) for k, v in s.items() if hasattr(v, 'copy')}
    s = F.update_fences(s, p)
    for i in range(n):
        u, u0 = s['ustar'][0, i], o['ustar'][0, i]
        red = h.const(0)
        for k in fences:
            d = (xs[i] - xs[k]) * sg
            if d >= 0 and d < 20 * hf[k]:
                red = red + (1 - r0) * h.np.exp(-d * c1 / hf[k])
        f = max(1 - red, 0)
        h.eq('reduction', u, max(u0 * f, h.const('0.01')), tol=1e-4)
        h.ge('never increased beyond the least', max(u0, h.const('0.01')), u)
        h.eq('along', s['ustars'][0, i] * u0, o['ustars'][0, i] * u)
        h.eq('across', s['ustarn'][0, i] * u0, o['ustarn'][0, i] * u)
        if u0 > 0:
            t = p['rhoa'] * u * u
            h.eq('stress', s['tau'][0, i], t, scale=10)
            h.eq('stress along', s['taus'][0, i] * u0, t * o['ustars'][0, i], scale=10)
            h.eq('stress across', s['taun'][0, i] * u0, t * o['ustarn'][0, i], scale=10)
    h.eq('bed untouched', s['zb'], o['zb'])


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    add(heights, 'heights-1', n=1, steps=4)
    add(heights, 'heights-2', n=2, steps=2)
    add(off, 'off', n=2)
    for ud in (270, 90):
        add(shear, 'shear-one-%d' % ud, n=5, udir=ud, fences=(1,))
        add(shear, 'shear-two-%d' % ud, n=5, udir=ud, fences=(1, 2))
        add(shear, 'shear-buried-%d' % ud, n=5, udir=ud, fences=(2,), buried=2)
        add(shear, 'shear-vary-%d' % ud, n=2, udir=ud, fences=(int(ud < 180),), uniform=False)
        add(shear, 'shear-none-%d' % ud, n=2, udir=ud, fences=(), uniform=False)
    for ud in (-90, -60, 200, 170, 340, 400):
        add(shear, 'shear-direction-%d' % ud, n=3, udir=ud, fences=(1,))
    add(shear, 'shear-calm', n=3, udir=270, fences=(1,), still=True)
    if tier == 'thorough':
        add(heights, 'heights-2-4', n=2, steps=4, cost=9)
        for ud in (270, 90):
            add(shear, 'shear-three-%d' % ud, n=5, udir=ud, fences=(0, 1, 2), cost=3)
            add(shear, 'shear-vary-3-%d' % ud, n=3, udir=ud, fences=(1,), uniform=False, cost=3)
    return out
