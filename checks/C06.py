"""Concentrations stay non-negative, the correction loses nothing."""
from solverlib import model, run
from common import snap

OPTS = dict(feas='lin')
PROP = dict(
    title='Transport solvers return no negative concentration and lose no sediment doing so',
    statement='No transport solver returns a negative or undefined sediment concentration. Where the linear system yields negative '
              'values they are set to zero and the positive values of that fraction are reduced by a common factor, so that the sum '
              'of the concentrations over the grid is preserved; only if the sum is not positive all concentrations become '
              'zero. If no value is negative the concentrations are those of the linear system.',
    over=['inputs', 'configurations'],
    text='whatever the solution of the linear system is, all solvers, bed masses, equilibrium concentrations and weights',
    why='negative solutions arise only for stretched grids, gradient boundaries or diverging winds, which no test has',
    files=['aeolis/model.py', 'aeolis/utils.py'],
    mech=[('removal of negative concentrations', 'aeolis/model.py: solve, solve_steadystate, solve_pieter, solve_steadystatepieter'),
          ('tiny negatives', 'aeolis/utils.py: prevent_tiny_negatives')])
META = dict(
    bounds='one solver call on 1x3, 1x4 and 3x3 cells with 1 fraction (2 in thorough); supply iteration ends within 2 steps; arbitrary vectors in [-10, 10] as '
           'solution of the linear systems',
    outside='larger grids, more supply iterations',
    stubs=['scipy spsolve returns an arbitrary vector', 'logging has an empty body'],
    assumptions=['common-factor scaling is checked when the supply iteration ends in its first step'])


def signs(h, ny, nx, solver, nf=1, neg=0, supply=True, tiny=False, **kw):
    """neg: number of leading cells with a negative linear solution"""
    m = model(h, ny, nx, nf, alpha=1, solver=solver, mass_lo=.01, mass_hi=1000, **kw)
    p = m.p
    p['offshore_flux'] = p['onshore_flux'] = p['constant_offshore_flux'] = p['constant_onshore_flux'] = h.const(0)
    pieter = solver.endswith('pieter')
    xs = [h.array('x%d' % k, (ny, nx), -10, 10) for k in range(nf * 2)]
    h.solutions(xs)
    Ct0 = snap(m.s['Ct'])
    eps = p['max_error']
    raw = snap(xs[0])
    if pieter:
        raw = raw + Ct0[:, :, 0]
    q = 0
    for v in raw.reshape(-1):
        if q < neg:
            h.assume(v < 0 if tiny else v <= -1e-5)
        else:
            h.assume(v >= 0)
        q += 1
    if supply:
        # supply-limited nowhere: the mass exceeds what the equilibrium can take
        for k in range(nf):
            for a, b in zip(m.s['mass'][:, :, 0, k].reshape(-1), m.s['Cu'][:, :, k].reshape(-1)):
                h.assume(b == 0)
    r = run(m, solver, 1)
    C = r['Ct']
    h.ge('concentrations are not negative', C, 0, tol=1e-9)
    if supply:
        tot = raw.sum()
        c = C[:, :, 0]
        if tot > 0:
            h.eq('the sum is preserved', c.sum(), tot, tol=2 * eps * ny * nx)
            if not tiny:
                pos = 0
                for v in raw.reshape(-1)[neg:]:
                    pos = pos + v
                for v, x in zip(raw.reshape(-1)[neg:], c.reshape(-1)[neg:]):
                    h.eq('common factor', x * pos, v * tot, scale=100.)
        if not neg:
            h.eq('the solution itself', c, raw)


def cases(tier):
    out = []

    def add(ny, nx, cost=1, **kw):
        n = '%dx%d-' % (ny, nx) + '-'.join('%s=%s' % (a, b) for a, b in sorted(kw.items()))
        out.append(dict(name=n, fn=signs, kwargs=dict(ny=ny, nx=nx, **kw), cost=cost))
    for sv in ('trunk', 'steadystate', 'pieter', 'steadystatepieter'):
        kw = dict(boundary_offshore='constant', boundary_onshore='gradient')
        add(1, 3, solver=sv, neg=0, **kw)
        add(1, 3, solver=sv, neg=1, **kw)
        add(1, 3, solver=sv, neg=1, supply=False, tiny=True, cost=3, **kw)
        add(3, 3, solver=sv, neg=3, cost=2, **kw)
        if tier == 'thorough':
            add(1, 3, solver=sv, neg=2, supply=False, tiny=True, cost=9, **kw)
            add(1, 4, solver=sv, neg=2, tiny=True, **kw)
            add(3, 4, solver=sv, neg=5, cost=3, **kw)
            add(1, 3, solver=sv, neg=3, **kw)
            add(1, 3, nf=2, solver=sv, neg=1, cost=9, **kw)
    return out
