"""Two-dimensional wind shear over a topography."""
import math
import numpy as _np
from common import make_p, make_s, snap

OPTS = dict(fork_ites=False)
PROP = dict(
    title='Two-dimensional shear is the linear response to relief and never reverses',
    statement='On two-dimensional grids the shear stress perturbation is the linear response of Kroy et al. (2002) to the variation of the bed along the wind: for every wave of the bed the '
              'documented complex response with inner and middle layer, short waves tapered. So a horizontal bed at any level leaves the undisturbed stress everywhere and for every wind direction, '
              'raising the whole bed changes nothing, a bed symmetric about the wind gives a symmetric stress, and without wind there is no perturbation. The perturbation is added relative to the '
              'size of the stress; stress never reverses against the wind and stays zero where it is zero. A separation surface lies nowhere below the bed, leaves the bed where it is upwind of a steep lee side and '
              'everywhere if no lee side is steep, and, where the bed stops falling further downwind, does not depend on the reference level; bubbles reduce both stress components by ten times their height, to zero at most. Interpolation '
              'between the grids preserves constants, gives back values at the same points and never exceeds the range of its input. Afterwards stress and shear velocity are consistent and bed and grid unchanged.',
    over=['inputs', 'configurations'],
    text='all beds, stresses, wind directions and levels within the bounds',
    why='tests run one barchan dune and compare with a stored result',
    files=['aeolis/shear.py', 'aeolis/wind.py'],
    mech=[('response', 'aeolis/shear.py: compute_shear, filter_highfrequenies'), ('stress', 'aeolis/shear.py: add_shear, separation_shear'), ('bubbles', 'aeolis/shear.py: separation'),
          ('grids', 'aeolis/shear.py: set_computational_grid, rotate, interpolate, __call__'), ('coupling', 'aeolis/wind.py: shear')])
META = dict(
    bounds='computational grids of 3x4 to 5x5 cells with arbitrary bed for the response; input grids of 3x3 cells with arbitrary bed and 7 wind directions for the whole computation; '
           'profiles of 9 cells with three arbitrary levels for separation; stresses up to 10 N/m2, bed levels in [-10,10] m',
    outside='larger grids, length and height of separation bubbles, smoothing of bubbles (sep_filter_iterations), curvilinear grids, other roughness and length scales than those listed',
    stubs=['fft2/ifft2 by their definition', 'RegularGridInterpolator by its definition', 'Bessel functions at known arguments by scipy', 'matplotlib is a dummy'],
    assumptions=['the stress is in the direction of the wind'])


def windshear(h, dx=1., dy=1., L=100., l=10., z0=.001, buffer=0.):
    g = h.zeros((2, 2))
    return h.mod('shear').WindShear(g, g, g, dx=dx, dy=dy, L=L, l=l, z0=z0, buffer_width=buffer)


def kernel(ny, nx, dx, dy, L, l, z0):
    """response to a unit bed level in cell (0, 0), by the formula"""
    from scipy.special import kv
    L = L / 4.
    for _ in range(5):
        l = 2 * .41**2 * L / math.log(l / z0)
    m = 1.
    for _ in range(5):
        m = L / math.sqrt(math.log(m / z0))
    ul = math.log(l / z0) / math.log(m / z0)
    A, B = _np.zeros((ny, nx), dtype=complex), _np.zeros((ny, nx), dtype=complex)
    for j in range(ny):
        for i in range(nx):
            kx = 2 * math.pi * (i if i < (nx + 1) // 2 else i - nx) / (nx * dx)
            ky = 2 * math.pi * (j if j < (ny + 1) // 2 else j - ny) / (ny * dy)
            if i == 0:
                continue
            k = math.hypot(kx, ky)
            sg = (1j * L * kx * z0 / l)**.5
            fx = 1 / (1 + math.exp(-(2 * math.pi / dx / abs(kx) - 1) * math.log(99)))
            fy = 1 / (1 + math.exp(-(2 * math.pi / dy / abs(ky) - 1) / 2 * math.log(99))) if j else 1.
            c = fx * fy * kx / k * 2 / ul**2
            A[j, i] = c * kx * (-1 + (2 * math.log(l / z0) + (k / kx)**2) * sg * kv(1, 2 * sg) / kv(0, 2 * sg))
            B[j, i] = c * ky * 2 * 2**.5 * sg * kv(1, 2 * 2**.5 * sg)
    return _np.fft.ifft2(A).real, _np.fft.ifft2(B).real


def convolve(h, z, K):
    ny, nx = K.shape
    out = h.zeros((ny, nx))
    for a in range(ny):
        for b in range(nx):
            out = out + z[a, b] * _np.roll(K, (a, b), (0, 1))
    return out


def near(h, name, a, b, scale=1.):
    """equal but for rounding of known coefficients"""
    e = h.const('1e-9') * scale
    h.le(name, a - b, e)
    h.ge(name, a - b, -e)


def response(h, ny, nx, dx=1., dy=1., L=100., l=10., z0=.001, rough=False, u0=8.):
    w = windshear(h, dx, dy, L, l, z0)
    z = h.array('z', (ny, nx), -10, 10)
    x, y = _np.meshgrid(_np.arange(nx) * dx, _np.arange(ny) * dy)
    w.cgrid.update(x=x, y=y, z=snap(z))
    w.igrid = dict(x=x, y=y, z=snap(z))
    w.compute_shear(u0)
    K, M = kernel(ny, nx, dx, dy, L, l, z0)
    if u0 == 0:
        K, M = K * 0, M * 0
    sc = abs(K).sum() * 10 + 1
    near(h, 'along', w.cgrid['dtaux'], convolve(h, z, K), scale=sc)
    near(h, 'across', w.cgrid['dtauy'], convolve(h, z, M), scale=sc)
    h.eq('bed', w.cgrid['z'], z)


def added(h):
    w = windshear(h)
    tx, ty = h.array('tx', (1, 2), -10, 10), h.array('ty', (1, 2), -10, 10)
    dx, dy = h.array('dx', (1, 2), -10, 10), h.array('dy', (1, 2), -10, 10)
    w.cgrid.update(taux=snap(tx), tauy=snap(ty), dtaux=snap(dx), dtauy=snap(dy))
    w.add_shear()
    for i in range(2):
        if h.pick((tx[0, i] == 0) & (ty[0, i] == 0)):
            h.eq('none', w.cgrid['taux'][0, i], 0)
            h.eq('none', w.cgrid['tauy'][0, i], 0)
        else:
            t = h.np.hypot(tx[0, i], ty[0, i])
            h.eq('x', w.cgrid['taux'][0, i], tx[0, i] + t * dx[0, i], scale=100)
            h.eq('y', w.cgrid['tauy'][0, i], ty[0, i] + t * dy[0, i], scale=100)


def bubble_stress(h):
    w = windshear(h)
    tx, ty = h.array('tx', (1, 2), -10, 10), h.array('ty', (1, 2), -10, 10)
    hs = h.array('hsep', (1, 2), 0, 10)
    w.cgrid.update(taux=snap(tx), tauy=snap(ty))
    w.separation_shear(snap(hs))
    for i in range(2):
        f = 1 - 10 * hs[0, i]
        f = f if h.pick(f >= 0) else 0
        h.eq('x', w.cgrid['taux'][0, i], tx[0, i] * f)
        h.eq('y', w.cgrid['tauy'][0, i], ty[0, i] * f)


def bubbles(h, level, free, bed, dx=1., rise=False):
    """bed: levels of one row, the other row is horizontal"""
    n = len(bed)
    z = h.zeros((2, n))
    for i in range(n):
        z[0, i] = level
        z[1, i] = h.const(str(bed[i])) + level
    for i in free:
        z[1, i] = level + h.real('z%d' % i, -2, 4)
    res = []
    for up in ((0, 3) if rise else (0,)):
        w = windshear(h, dx, dx)
        x, y = _np.meshgrid(_np.arange(n) * dx, _np.arange(2) * dx)
        w.cgrid.update(x=x, y=y, z=z + up, taux=h.full((2, n), 1.), tauy=h.zeros((2, n)))
        res.append(w.separation(0.2, 20., 0, False))
        h.eq('bed', w.cgrid['z'], z + up)
    h.ge('not below the bed', res[0], z)
    h.eq('other row', res[0][0, :], z[0, :])
    steep = None
    for i in range(n):
        a = min(i, n - 3)
        if h.pick((z[1, a + 2] - z[1, a]) / (2 * dx) < -math.tan(math.radians(20.02))):
            steep = i
            break
        h.assume((z[1, a + 2] - z[1, a]) / (2 * dx) > -math.tan(math.radians(19.98)))
    h.eq('upwind', res[0][1, :n if steep is None else steep], z[1, :n if steep is None else steep])
    if rise:
        h.eq('reference level', res[1] - 3, res[0], scale=10)


def regrid(h, what, turn, ny=3, nx=3):
    """from a grid in direction turn to the points of an other one"""
    w = windshear(h)
    c, q = math.cos(math.radians(turn)), math.sin(math.radians(turn))
    X, Y = _np.meshgrid(_np.arange(nx) * 2., _np.arange(ny) * 3.)
    x, y = 5 + X * c - Y * q, -3 + X * q + Y * c
    w.x0, w.y0 = float(x.mean()), float(y.mean())
    w.igrid = {}
    if what == 'same':
        z = h.array('z', (ny, nx), -10, 10)
        near(h, 'same points', w.interpolate(x, y, snap(z), x.copy(), y.copy(), 99.), z, scale=10)
    elif what == 'range':
        z = h.array('z', (ny, nx), 0, 10)
        xi, yi = _np.meshgrid(w.x0 + _np.array([-9.3, -2.1, -.4, .7, 3.9, 8.2]), w.y0 + _np.array([-7.7, -2.6, .3, 2.9]))
        r = w.interpolate(x, y, snap(z), xi, yi, 5.)
        h.ge('lowest', r, -h.const('1e-8'))
        h.le('highest', r, 10 + h.const('1e-8'))
    else:
        a, b, d = h.real('a', -10, 10), h.real('b', -1, 1), h.real('d', -1, 1)
        inner = [(.31, .77), (.5, .5), (.93, .12), (.05, .6)]
        xi = _np.array([[5 + 2. * (nx - 1) * u * c - 3. * (ny - 1) * v * q for u, v in inner]])
        yi = _np.array([[-3 + 2. * (nx - 1) * u * q + 3. * (ny - 1) * v * c for u, v in inner]])
        r = w.interpolate(x, y, a + b * h.np.asarray(x) + d * h.np.asarray(y), xi, yi, 5.)
        near(h, 'plane', r, a + b * h.np.asarray(xi) + d * h.np.asarray(yi), scale=10)


def whole(h, udir, what, size=10., turn=0., sep=False, n=3):
    c, q = math.cos(math.radians(turn)), math.sin(math.radians(turn))
    X, Y = _np.meshgrid(_np.arange(n) * size, _np.arange(n) * size)
    x, y = X * c - Y * q, X * q + Y * c
    ex, ey = math.cos(math.radians(270. - udir)), math.sin(math.radians(270. - udir))
    T = h.const('0.5')
    if what == 'flat':
        z = h.full((n, n), 1.) * h.real('level', -10, 10)
    else:
        z = h.array('z', (n, n), -2, 2)
    res = []
    for up in ((0, 7) if what == 'raise' else (0,)):
        w = windshear(h, size, size, buffer=0.)
        w(x=x.copy(), y=y.copy(), z=z + up, taux=None, tauy=None, u0=8., udir=udir, process_separation=sep, c=.2, mu_b=20., taus0=T * ex, taun0=T * ey,
          sep_filter_iterations=0, zsep_y_filter=False)
        h.eq('bed', w.igrid['z'], z + up)
        near(h, 'x', w.igrid['x'], h.np.asarray(x), size)
        near(h, 'y', w.igrid['y'], h.np.asarray(y), size)
        res.append(w.get_shear())
    tx, ty = res[0]
    if what == 'flat':
        near(h, 'undisturbed x', tx, T * ex * h.full((n, n), 1.), 10)
        near(h, 'undisturbed y', ty, T * ey * h.full((n, n), 1.), 10)
        if sep:
            h.eq('no bubble', w.get_separation(), 0)
    elif what == 'raise':
        near(h, 'raised x', res[1][0], tx, scale=100)
        near(h, 'raised y', res[1][1], ty, scale=100)
    else:
        for j in range(n):
            for i in range(n):
                h.ge('with the wind', tx[j, i] * ex + ty[j, i] * ey, -h.const('1e-8'))


def coupling(h, sep):
    p = make_p(h, 2, 2, process_shear=True, process_separation=sep)
    p['rhoa'] = h.real('rhoa', .5, 2)
    s = make_s(h, 2, 2)
    zb, tx, ty = h.array('zb', (2, 2), -10, 10), h.array('tx', (2, 2), -10, 10), h.array('ty', (2, 2), -10, 10)
    hs = h.array('hs', (2, 2), 0, 10)
    s['zb'] = snap(zb)

    class Fake(h.mod('shear').WindShear):
        def __init__(self):
            pass

        def __call__(self, *a, **k):
            self.igrid = dict(taux=snap(tx), tauy=snap(ty), hsep=snap(hs))
            return self
    s['shear'] = Fake()
    s = h.mod('wind').shear(s, p)
    h.eq('bed', s['zb'], zb)
    h.eq('taus', s['taus'], tx)
    h.eq('taun', s['taun'], ty)
    for j in range(2):
        for i in range(2):
            t2 = tx[j, i] * tx[j, i] + ty[j, i] * ty[j, i]
            h.eq('tau', s['tau'][j, i]**2, t2, scale=100)
            h.eq('ustar', s['ustar'][j, i]**2 * p['rhoa'], s['tau'][j, i], scale=10)
            h.eq('ustars', s['ustars'][j, i] * s['tau'][j, i], s['ustar'][j, i] * tx[j, i], scale=100)
            h.eq('ustarn', s['ustarn'][j, i] * s['tau'][j, i], s['ustar'][j, i] * ty[j, i], scale=100)
    h.ge('positive', s['tau'], 0)
    h.ge('positive', s['ustar'], 0)
    if sep:
        h.eq('bubble', s['zsep'], zb + hs)


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    add(response, 'response-4x4', ny=4, nx=4)
    add(response, 'response-3x4', ny=3, nx=4, dx=2., dy=5.)
    add(response, 'response-4x5', ny=4, nx=5, dx=1., dy=1., L=400., l=5., z0=1e-4)
    add(response, 'response-5x5', ny=5, nx=5, dx=.5, dy=.5, z0=.01, L=20.)
    add(response, 'response-calm', ny=3, nx=3, u0=0.)
    add(added, 'added')
    add(bubble_stress, 'bubble-stress')
    add(bubbles, 'bubbles-flat', level=-3, free=(), bed=[0] * 9)
    add(bubbles, 'bubbles-lee', level=0, free=(3, 4), bed=[0, .3, .6, .8, .2, 0, 0, 0, 0])
    add(bubbles, 'bubbles-below', level=-5, free=(4,), bed=[0, .3, .6, .8, .2, 0, 0, 0, 0], rise=True)
    add(bubbles, 'bubbles-hills', level=1, free=(5,), bed=[0, .3, .6, .2, 0, .7, .1, 0, 0])
    for what in ('same', 'range', 'plane'):
        for turn in (0, 37, 120, 180, 200, 300) if what == 'same' else (0, 37, 120, 200, 300):
            add(regrid, 'regrid-%s-%d' % (what, turn), what=what, turn=turn)
    for u in (270., 240., 180., 300., 45., 90., -20.):
        add(whole, 'flat-%g' % u, udir=u, what='flat', sep=u in (270., 45.))
    for u in (270., 240., 45.):
        add(whole, 'relief-%g' % u, udir=u, what='relief')
        add(whole, 'raise-%g' % u, udir=u, what='raise')
    add(whole, 'flat-turned', udir=250., what='flat', turn=30.)
    for sep in (False, True):
        add(coupling, 'coupling%s' % ('-bubble' if sep else ''), sep=sep)
    return out
