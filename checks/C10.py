"""Wave run-up."""

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Wave run-up: never negative, none without waves, grids like single values',
    statement='Run-up, set-up and swash are never negative or undefined and are zero when there are no waves (zero wave height or, for single '
              'values, zero period or slope). With waves they follow Stockdon et al. (2006): for an Iribarren number below 0.3 run-up is 0.043 '
              'sqrt(H L), swash half of 0.046 sqrt(H L) and set-up their difference; from 0.3 on set-up is 0.35 beta sqrt(H L), swash half of '
              'sqrt(H L (0.563 beta^2 + 0.0004)) and run-up 1.1 times their sum, with L = 9.81 T^2 / 2 pi. A grid of '
              'wave conditions gives in every cell what that cell gives as single value. The wave conditions are not changed.',
    over=['inputs'],
    text='all wave heights, periods and beach slopes, including the transition between the regimes and calm cells next to waves',
    why='run-up is never evaluated by a test',
    files=['aeolis/hydro.py'], mech=[('run-up', 'aeolis/hydro.py: calc_runup_stockdon')])
META = dict(
    bounds='wave heights in [0,20] m, periods in [0,30] s, slopes in (0,1]; arrays of shape (1,2), (2,1) and (2,) ; formulas for wave heights above 0.0001 m and periods above 0.1 s',
    outside='larger grids (cells are independent), slope zero on grids', stubs=[],
    assumptions=['slope positive (grids)'])


def scalar(h, zero):
    H, T, b = h.real('H', 0, 20), h.real('T', 0, 30), h.real('beta', 0, 1)
    if zero == 'H':
        h.assume(H == 0)
    elif zero == 'T':
        h.assume(T == 0)
    elif zero == 'beta':
        h.assume(b == 0)
    else:
        h.assume(H >= h.const('0.0001'))
        h.assume(T >= h.const('0.1'))
        h.assume(b >= h.const('0.001'))
    e, s, r = h.mod('hydro').calc_runup_stockdon(H, T, b)
    if zero:
        h.eq('run-up without waves', r, 0)
        h.eq('swash without waves', s, 0)
        h.eq('set-up without waves', e, 0)
        return
    laws(h, H, T, b, e, s, r)


def laws(h, H, T, b, e, s, r):
    h.ge('run-up not negative', r, 0)
    h.ge('swash not negative', s, 0)
    h.ge('set-up not negative', e, 0)
    L = h.const(9.81) * T * T / (2 * h.const(h.np.pi))
    x = H * L
    # squares instead of roots: every quantity is known not to be negative
    if b * b * L < h.const('0.09') * H:
        h.eq('dissipative run-up', r * r, h.const('0.001849') * x, tol=1e-7)
        h.eq('dissipative swash', s * s, h.const('0.000529') * x, tol=1e-7)
        h.eq('dissipative set-up', e, r - s, tol=1e-7)
    else:
        h.eq('set-up', e * e, h.const('0.1225') * b * b * x, tol=1e-7, scale=1000.)
        h.eq('swash', 4 * s * s, x * (h.const('0.563') * b * b + h.const('0.0004')), tol=1e-7, scale=1000.)
        h.eq('run-up', r, h.const('1.1') * (e + s), tol=1e-7, scale=10.)


def grid(h, shape, what):
    n = shape[0] * (shape[1] if len(shape) > 1 else 1)
    H, T, b = h.array('H', (n,), 0, 20), h.array('T', (n,), 0, 30), h.real('beta', .001, 1)
    for k in range(n):
        if what[k] == '0':
            h.assume(H[k] == 0)
        else:
            h.assume(H[k] >= h.const('0.0001'))
        h.assume(T[k] >= h.const('0.1'))
        L = h.const(9.81) * T[k] * T[k] / (2 * h.const(h.np.pi))
        if what[k] == 'd':
            h.assume(b * b * L < h.const('0.09') * H[k])
        elif what[k] == 'r':
            h.assume(b * b * L > h.const('0.09') * H[k])
    HH, TT = H.reshape(shape), T.reshape(shape)
    H0, T0 = HH.copy(), TT.copy()
    e, s, r = h.mod('hydro').calc_runup_stockdon(HH, TT, b)
    h.eq('heights untouched', HH, H0)
    h.eq('periods untouched', TT, T0)
    h.true('shape', h.np.shape(r) == tuple(shape))
    for k in range(n):
        if what[k] == '0':
            h.eq('run-up of a calm cell', r.reshape(-1)[k], 0)
            h.eq('swash of a calm cell', s.reshape(-1)[k], 0)
            h.eq('set-up of a calm cell', e.reshape(-1)[k], 0)
        else:
            laws(h, H[k], T[k], b, e.reshape(-1)[k], s.reshape(-1)[k], r.reshape(-1)[k])


def transition(h, grid):
    """exactly at Iribarren number 0.3: pi is the float, so the point is exact"""
    b = h.const('0.5')
    T = h.const(2)
    L = h.const(9.81) * T * T / (2 * h.const(h.np.pi))
    # on doubles the point needs this very number
    H = b * b * L / h.const('0.09') if h.mode == 'sym' else 17.347888797016594
    f = h.mod('hydro').calc_runup_stockdon
    if grid:
        a = h.zeros((2,))
        a[0], a[1] = H, H * 2
        c = h.zeros((2,))
        c[0] = c[1] = T
        e, s, r = f(a, c, b)
        r, s, e = r[0], s[0], e[0]
    else:
        e, s, r = f(H, T, b)
    # either regime may apply to a rounded number, none gives zero
    h.true('run-up at the transition', r > 0)
    h.true('swash at the transition', s > 0)
    h.true('set-up at the transition', e > 0)


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    for z in ('', 'H', 'T', 'beta'):
        add(scalar, 'single-%s' % (z or 'waves'), zero=z)
    for shape, ws in (((1, 2), ('d0', 'r0', 'dr', 'rd')), ((2, 1), ('0d', '0r')), ((2,), ('00',))):
        for w in ws:
            add(grid, 'grid-%s-%s' % ('x'.join(map(str, shape)), w), shape=shape, what=w)
    for g in (False, True):
        add(transition, 'transition-%s' % g, grid=g)
    return out
