"""Avalanching."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Avalanching only acts on steep slopes, moves sand downhill and conserves it',
    statement='Avalanching leaves the bed exactly as it is unless somewhere its downhill gradient exceeds the tangent of the static angle of repose; a '
              'cell only gets lower if its own gradient exceeds the tangent of the dynamic angle and only gets higher if a neighbour above it does; '
              'a cell without a lower neighbour is never lowered and one without a higher neighbour never raised. Cells at the border keep their level. On a '
              'uniform grid no sand is created, and none is lost unless a border cell lies below its neighbour. No cell is '
              'eroded below the non-erodible layer, and without such a layer avalanching is not limited. There is no preferred direction: mirroring '
              'the bed or exchanging its axes does so with the result, and moving bed and non-erodible layer up or down does not matter. It acts '
              'iteratively until the gradient is below the dynamic angle or the maximum number of iterations is reached.',
    over=['inputs', 'configurations'],
    text='all bed levels, non-erodible layers, cell sizes and angles within the bounds',
    why='no test enables avalanching with a bed that avalanches; a handful of profiles cannot show conservation or symmetry',
    files=['aeolis/avalanching.py'],
    mech=[('avalanching', 'aeolis/avalanching.py: avalanche'), ('gradients', 'aeolis/avalanching.py: calc_gradients'),
          ('angles', 'aeolis/avalanching.py: angele_of_repose')])
META = dict(
    bounds='profiles of 3 to 5 cells and grids of 3x3 and 3x4 cells; one iteration from any bed (two for the iteration laws); cell sizes 0.3 to 10 m; bed levels in [-10,10] m; '
           'angles 34/33 and 25/20 degrees',
    outside='longer sequences of iterations and larger grids (an iteration only couples cells with their neighbours)',
    stubs=['tanh is an uninterpreted function with sound axioms'],
    assumptions=['the bed is nowhere below the non-erodible layer before avalanching'])


def run(h, ny, nx, zb, zne, ds, dn, angles, n=1, layer=True):
    p = make_p(h, ny, nx, process_avalanche=True, theta_stat=h.const(angles[0]), theta_dyn=h.const(angles[1]), max_iter_ava=n)
    s = make_s(h, ny, nx)
    s['zb'], s['zne'] = zb.copy(), zne.copy()
    s['ds'], s['dn'] = h.full((ny, nx), ds), h.full((ny, nx), dn)
    A = h.mod('avalanching')
    s = A.angele_of_repose(s, p)
    h.eq('static angle', s['theta_stat'], h.const(angles[0]))
    h.eq('dynamic angle', s['theta_dyn'], h.const(angles[1]))
    s = A.avalanche(s, p)
    if layer:
        h.eq('non-erodible layer untouched', s['zne'], zne)
    return s['zb']


def setup(h, ny, nx, layer=True, ds=None, square=False, corners=False, kind=None):
    zb = h.array('zb', (ny, nx), -10, 10)
    if corners:
        for j in (0, -1):
            for i in (0, -1):
                zb[j, i] = h.const(11)
    if kind:
        # the order of the neighbours along both axes
        n = [(zb[1, 0], zb[1, 2]), (zb[0, 1], zb[2, 1])]
        for (a, b), k in zip(n, kind):
            c = zb[1, 1]
            h.assume({'/': (a < b) & (a < c), '\\': (b < a) & (b < c), '^': (a == b) & (a < c), 'v': (a > c) & (b > c)}[k])
    if layer:
        zne = h.array('zne', (ny, nx), -12, 10)
        h.assume((zne <= zb).all())
    else:
        zne = h.full((ny, nx), h.np.nan)
    if ds is None:
        ds = h.real('ds', .3, 10)
        dn = ds if square else h.real('dn', .3, 10)
    else:
        ds = dn = h.const(ds)
    return zb, zne, ds, dn


def downhill(h, zb, ds, dn, j, i):
    """squared downhill gradient of an interior cell, and of its axes"""
    ny, nx = zb.shape
    gx = gy = 0
    if 0 < i < nx - 1:
        gx = max(zb[j, i] - min(zb[j, i - 1], zb[j, i + 1]), 0) / ds
    if ny > 1 and 0 < j < ny - 1:
        gy = max(zb[j, i] - min(zb[j - 1, i], zb[j + 1, i]), 0) / dn
    return gx, gy


def tans(h, angles):
    return [h.np.tan(h.np.deg2rad(h.const(a))) for a in angles]


def laws(h, ny, nx, angles=(34., 33.), layer=True, ds=None, closed=False, kind=None):
    zb, zne, ds, dn = setup(h, ny, nx, layer, ds, corners=ny > 1, kind=kind)
    if closed:
        for j in range(ny):
            if ny == 1 or 0 < j < ny - 1:
                h.assume(zb[j, 0] >= zb[j, 1])
                h.assume(zb[j, -1] >= zb[j, -2])
        for i in range(1, nx - 1):
            if ny > 1:
                h.assume(zb[0, i] >= zb[1, i])
                h.assume(zb[-1, i] >= zb[-2, i])
    ts, td = tans(h, angles)
    new = run(h, ny, nx, zb, zne, ds, dn, angles, layer=layer)
    inner = [(j, i) for j in range(ny) for i in range(1, nx - 1) if ny == 1 or 0 < j < ny - 1]
    total = 0
    for j in range(ny):
        for i in range(nx):
            if (j, i) not in inner:
                h.eq('border keeps its level', new[j, i], zb[j, i])
            total = total + new[j, i] - zb[j, i]
            if layer:
                h.ge('not below the non-erodible layer', new[j, i], zne[j, i])
    if closed:
        h.eq('sand conserved', total, 0, scale=10.)
    else:
        h.le('no sand created', total, 0, scale=10.)
    steep = False
    for (j, i) in inner:
        nb = [zb[j, i - 1], zb[j, i + 1]] + ([zb[j - 1, i], zb[j + 1, i]] if ny > 1 else [])
        low, high = nb[0], nb[0]
        for v in nb[1:]:
            low, high = min(low, v), max(high, v)
        if zb[j, i] <= low:
            h.ge('no sand leaves a low', new[j, i], zb[j, i])
        if zb[j, i] >= high:
            h.le('no sand arrives at a high', new[j, i], zb[j, i])
        gx, gy = downhill(h, zb, ds, dn, j, i)
        g2 = gx * gx + gy * gy if ny > 1 else gx * gx
        if ny == 1:
            # one direction: compare gradients, not squares
            steep = steep or bool(gx > ts)
            if gx < td:
                h.ge('no sand leaves gentle slopes', new[j, i], zb[j, i])
    return steep


def still(h, ny, nx, angles=(34., 33.), layer=True, kind=None):
    """gradients up to the static angle: nothing happens"""
    zb, zne, ds, dn = setup(h, ny, nx, layer, corners=ny > 1, kind=kind)
    ts, td = tans(h, angles)
    for j in range(ny):
        for i in range(1, nx - 1):
            if ny == 1:
                gx, gy = downhill(h, zb, ds, dn, j, i)
                h.assume(gx < ts)
            elif 0 < j < ny - 1:
                gx, gy = downhill(h, zb, ds, dn, j, i)
                h.assume(gx * gx + gy * gy < ts * ts)
    new = run(h, ny, nx, zb, zne, ds, dn, angles, 2, layer=layer)
    h.eq('gentle bed untouched', new, zb)


def steep(h, nx, angles=(34., 33.), layer=False):
    """a cell steeper than the static angle whose uphill neighbours are gentle gets lower"""
    zb, zne, ds, dn = setup(h, 1, nx, layer)
    ts, td = tans(h, angles)
    d = ds * ts
    h.assume(zb[0, 1] - zb[0, 2] > d * h.const('1.01'))
    h.assume(zb[0, 0] >= zb[0, 1])
    if layer:
        h.assume(zb[0, 1] - zne[0, 1] >= h.const('0.01'))
    new = run(h, 1, nx, zb, zne, ds, dn, angles, layer=layer)
    h.true('a steep slope relaxes', new[0, 1] < zb[0, 1])


def mirror(h, ny, nx, how, layer=True, angles=(34., 33.), kind=None, ds=None, half=False):
    square = how == 'transpose'
    zb, zne, ds, dn = setup(h, ny, nx, layer, ds, square=square, corners=ny > 1, kind=kind)
    if half:
        h.assume(zb[0, 0] >= zb[0, 1])
    new = run(h, ny, nx, zb, zne, ds, dn, angles, layer=layer)
    if how == 'x':
        f = lambda a: a[:, ::-1].copy()
    elif how == 'y':
        f = lambda a: a[::-1, :].copy()
    elif how == 'transpose':
        f = lambda a: a.T.copy()
    else:
        c = h.real('shift', -5, 5)
        f = lambda a: a + c
    zb2, zne2 = f(zb), f(zne)
    new2 = run(h, zb2.shape[0], zb2.shape[1], zb2, zne2, ds, dn, angles, layer=layer)
    h.eq('no preferred direction' if how != 'shift' else 'shift', new2, f(new), tol=1e-6)


def channel(h, n, axis, layer=False, rise=False):
    """between high walls a grid behaves like a profile"""
    z = h.array('z', (1, n), -10, 10)
    if rise:
        h.assume(z[0, 0] >= z[0, 1])
    zne = h.full((1, n), h.np.nan)
    if layer:
        zne = h.array('zne', (1, n), -12, 10)
        h.assume((zne <= z).all())
    one = h.const(1)
    new = run(h, 1, n, z, zne, one, one, (34., 33.), layer=layer)
    zb, ne = h.full((3, n), 11.), h.full((3, n), h.np.nan)
    zb[1, :], ne[1, :] = z[0], zne[0]
    if axis == 'y':
        zb, ne = zb.T.copy(), ne.T.copy()
    got = run(h, zb.shape[0], zb.shape[1], zb, ne, one, one, (34., 33.), layer=False)
    if axis == 'y':
        got = got.T
    h.eq('like a profile', got[1, :], new[0], tol=1e-6)
    h.eq('wall untouched', got[0, :], h.full((n,), 11.))
    h.eq('other wall untouched', got[2, :], h.full((n,), 11.))


def iterate(h, nx, angles=(34., 33.), layer=False, oneway=True):
    """two iterations are one and, if still needed, another"""
    zb, zne, ds, dn = setup(h, 1, nx, layer, ds='1')
    if oneway:
        h.assume(zb[0, 0] >= zb[0, 1])
    ts, td = tans(h, angles)
    one = run(h, 1, nx, zb, zne, ds, dn, angles, 1, layer=layer)
    two = run(h, 1, nx, zb, zne, ds, dn, angles, 2, layer=layer)
    g = 0
    for i in range(1, nx - 1):
        g = max(g, downhill(h, one, ds, dn, 0, i)[0])
    if g < td:
        h.eq('stops below the dynamic angle', two, one)
    elif g > ts:
        again = run(h, 1, nx, one, zne, ds, dn, angles, 1, layer=layer)
        h.eq('continues above the dynamic angle', two, again)


def off(h):
    p = make_p(h, 1, 3, process_avalanche=False)
    s = make_s(h, 1, 3)
    s['zb'] = h.array('zb', (1, 3), -10, 10)
    z = s['zb'].copy()
    s = h.mod('avalanching').avalanche(s, p)
    h.eq('process off', s['zb'], z)


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    add(off, 'off')
    A2 = (25., 20.)
    for layer in (True, False):
        add(laws, 'laws-1x3-%s' % layer, ny=1, nx=3, layer=layer, cost=3)
        add(channel, 'channel-4x3-%s' % layer, n=4, axis='y', layer=layer, rise=layer, cost=5)
        if not layer or tier == 'thorough':
            add(channel, 'channel-3x4-%s' % layer, n=4, axis='x', layer=layer, rise=True, cost=5)
        add(laws, 'laws-1x4-angles-%s' % layer, ny=1, nx=4, layer=layer, angles=A2, closed=True, cost=3)
        add(still, 'still-1x4-%s' % layer, ny=1, nx=4, layer=layer)
        add(steep, 'steep-%s' % layer, nx=4, layer=layer)
        add(iterate, 'iterate-%s' % layer, nx=3, layer=layer, cost=5)
    for kind in ('//', '/^', 'v/', '^\\'):
        add(laws, 'laws-3x3-%s' % kind, ny=3, nx=3, layer=kind != '/^', kind=kind, ds=None if kind == '/^' else '1', cost=3)
        add(still, 'still-3x3-%s' % kind, ny=3, nx=3, layer=True, kind=kind)
    for how in ('x', 'shift'):
        add(mirror, 'mirror-1x3-%s' % how, ny=1, nx=3, how=how, layer=True, cost=3)
        add(mirror, 'mirror-1x4-%s' % how, ny=1, nx=4, how=how, layer=False, ds='1', half=True, cost=3)
    for kind in ('//', '\\^', 'v\\'):
        for how in ('x', 'y', 'transpose', 'shift'):
            add(mirror, 'mirror-3x3-%s-%s' % (how, kind), ny=3, nx=3, how=how, kind=kind, layer=kind != '//', cost=3)
    if tier == 'thorough':
        for layer in (True, False):
            add(laws, 'laws-1x4-%s' % layer, ny=1, nx=4, layer=layer, cost=3)
            add(laws, 'laws-1x5-%s' % layer, ny=1, nx=5, layer=layer, ds='1', closed=True, cost=9)
            add(laws, 'laws-1x5-open-%s' % layer, ny=1, nx=5, layer=layer, cost=9)
            add(laws, 'laws-3x4-%s' % layer, ny=3, nx=4, layer=layer, ds='1', cost=20)
            add(mirror, 'mirror-1x4-%s' % layer, ny=1, nx=4, how='x', layer=layer, cost=9)
            add(mirror, 'mirror-1x5-%s' % layer, ny=1, nx=5, how='x', layer=layer, cost=9)
        add(mirror, 'mirror-4x3', ny=4, nx=3, how='transpose', cost=20)
    return out
