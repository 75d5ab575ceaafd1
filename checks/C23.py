"""Grid geometry: cell sizes, areas and orientation."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Cell sizes and orientation are those of the grid, whichever way it lies',
    statement='The coordinates are those of the grid files (y zero for transects). In two-dimensional grids ds is the distance between neighbours along a grid row (x-direction of the grid) '
              'and dn that between rows, also if they differ and the grid is turned; in transects ds is the distance to the previous cell (to the next for the first) and dn is one. Cell '
              'area is ds dn and its inverse is kept with it; both are positive. alpha is the angle in degrees of the grid rows with the x-axis, for every orientation, so that '
              'turning the grid back by alpha makes x ascend along the rows at constant y. Moving the grid changes none of this.',
    over=['inputs', 'configurations'],
    text='all rectangular grids, orientations, sizes and positions',
    why='tests use square cells along the axes only',
    files=['aeolis/gridparams.py', 'aeolis/utils.py'],
    mech=[('grid', 'aeolis/gridparams.py: initialize'), ('rotation', 'aeolis/utils.py: rotate')])
META = dict(
    bounds='transects of 2 to 4 cells with any spacing, grids of 2x2, 2x3 and 3x2 cells of any size, turned into twelve directions',
    outside='curvilinear grids, left-handed grids',
    stubs=['sin and cos are uninterpreted with sound axioms, exact at the directions tested'],
    assumptions=['cell sizes at least 1 cm'])
DIRS = {'e': (1, 0), 'ene': ('0.8', '0.6'), 'nne': ('0.6', '0.8'), 'n': (0, 1), 'nnw': ('-0.6', '0.8'), 'wnw': ('-0.8', '0.6'), 'w': (-1, 0),
        'wsw': ('-0.8', '-0.6'), 'ssw': ('-0.6', '-0.8'), 's': (0, -1), 'sse': ('0.6', '-0.8'), 'ese': ('0.8', '-0.6')}


def transect(h, n, down=False):
    p = make_p(h, 1, n)
    s = make_s(h, 1, n)
    x = h.array('x', (1, n), -1000, 1000)
    for i in range(n - 1):
        d = x[0, i + 1] - x[0, i]
        h.assume(d <= -h.const('0.01') if down else d >= h.const('0.01'))
    p['xgrid_file'] = snap(x)
    s, p = h.mod('gridparams').initialize(s, p)
    h.eq('x', s['x'], x)
    h.eq('y', s['y'], h.zeros((1, n)))
    h.eq('dn', s['dn'], h.full((1, n), 1.))
    for i in range(n):
        d = x[0, max(i, 1)] - x[0, max(i, 1) - 1]
        d = -d if down else d
        h.eq('ds', s['ds'][0, i], d)
        h.eq('area', s['dsdn'][0, i], d)
        h.eq('inverse area', s['dsdni'][0, i] * d, 1)
    h.eq('alpha', p['alpha'], 180 if down else 0)


def grid(h, ny, nx, dirn, size=True):
    p = make_p(h, ny, nx)
    s = make_s(h, ny, nx)
    c, q = (h.const(v) for v in DIRS[dirn])
    a, b = (h.real('a', .01, 1000), h.real('b', .01, 1000)) if size else (h.const('2.5'), h.const(10))
    x0, y0 = h.real('x0', -1000, 1000), h.real('y0', -1000, 1000)
    x, y = h.zeros((ny, nx)), h.zeros((ny, nx))
    for j in range(ny):
        for i in range(nx):
            x[j, i] = x0 + i * a * c - j * b * q
            y[j, i] = y0 + i * a * q + j * b * c
    p['xgrid_file'], p['ygrid_file'] = snap(x), snap(y)
    s, p = h.mod('gridparams').initialize(s, p)
    h.eq('x', s['x'], x)
    h.eq('y', s['y'], y)
    for j in range(ny):
        for i in range(nx):
            h.ge('positive', s['ds'][j, i], 0)
            h.ge('positive', s['dn'][j, i], 0)
            h.eq('along the row', s['ds'][j, i] ** 2, a * a, tol=1e-8, scale=1e4)
            h.eq('between rows', s['dn'][j, i] ** 2, b * b, tol=1e-8, scale=1e4)
            h.eq('area', s['dsdn'][j, i], s['ds'][j, i] * s['dn'][j, i], scale=1e4)
            h.eq('inverse area', s['dsdni'][j, i] * s['dsdn'][j, i], 1)
    if not size:
        t = p['alpha'] / h.const(180) * h.np.pi
        h.eq('angle', h.np.cos(t), c, tol=1e-7)
        h.eq('angle', h.np.sin(t), q, tol=1e-7)
        xr, yr = h.mod('utils').rotate(s['x'], s['y'], p['alpha'], origin=(x0, y0))
        for j in range(ny):
            for i in range(nx):
                h.eq('turned along x', xr[j, i] - xr[0, 0], i * a, tol=1e-7, scale=100)
                h.eq('turned along y', yr[j, i] - yr[0, 0], j * b, tol=1e-7, scale=100)


def cases(tier):
    out = []

    def add(fn, name, cost=1, **kw):
        out.append(dict(name=name, fn=fn, kwargs=kw, cost=cost))
    for n in (2, 3, 4):
        add(transect, 'transect-%d' % n, n=n)
    add(transect, 'transect-descending', n=3, down=True)
    for d in DIRS:
        add(grid, 'direction-%s' % d, ny=2, nx=2, dirn=d, size=False)
        add(grid, 'size-%s' % d, ny=2, nx=2, dirn=d)
    for d in ('e', 'nne', 'wnw'):
        add(grid, 'size-2x3-%s' % d, ny=2, nx=3, dirn=d)
        add(grid, 'size-3x2-%s' % d, ny=3, nx=2, dirn=d)
    return out
