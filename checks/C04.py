"""Pickup is limited by the supply and consistent with the exchange with the air."""
from solverlib import model, run, converged
from common import snap

OPTS = dict(feas='lin')
PROP = dict(
    title='Pickup never exceeds the sediment in the top layer and matches the air exchange',
    statement='When the supply iteration of a transport solver ends before its iteration limit, the pickup of every fraction in every cell is '
              'at most the mass of that fraction in the top bed layer (within max_error). With a single fraction it equals the time step over the adaptation time times '
              'the weighted equilibrium concentration minus the concentration, with the weights that are returned (within max_error). '
              'Deposition (negative pickup) is never limited, and with the solvers trunk and steadystate a weight is '
              'only reduced where the supply is insufficient.',
    over=['inputs', 'configurations'],
    text='all wind fields, equilibrium and previous concentrations, bed masses, time steps, adaptation times and solvers',
    why='supply limitation needs a multi-cell run with little sediment in one fraction and is not compared by any test',
    files=['aeolis/model.py', 'aeolis/transport.py'],
    mech=[('supply iteration', 'aeolis/model.py: solve, solve_steadystate, solve_pieter, solve_steadystatepieter'),
          ('weights', 'aeolis/transport.py: compute_weights, renormalize_weights')])
META = dict(
    bounds='one solver call on 1x3 (1x4, 3x3 in thorough) cells with 1 fraction, 1x2 (1x3) cells with 2 fractions, at most 2 supply iterations '
           '(3 in thorough), wind of one sign in both directions',
    outside='larger grids, iterations that hit the limit (the code then logs a warning and may exceed the supply)',
    stubs=['scipy spsolve: any x with A x = b for the matrix and right-hand side the code assembled', 'logging has an empty body'],
    assumptions=['the linear system solution is non-negative (property C06 covers the correction)'])


def supply(h, ny, nx, nf=1, solver='trunk', alpha=1, sgs='+', sgn='+', max_iter=3, nosupply=False, **kw):
    pieter = solver.endswith('pieter')
    m = model(h, ny, nx, nf, alpha=alpha, solver=solver, sgs=sgs, sgn=sgn, max_iter=max_iter, boundary_offshore='constant', boundary_onshore='constant',
              mass_lo=0, **kw)
    s, p = m.s, m.p
    p['constant_offshore_flux'] = p['constant_onshore_flux'] = h.const(0)
    Ct0 = snap(s['Ct'])
    h.nonneg_solutions(snap(Ct0), accumulate=True) if pieter else h.nonneg_solutions()
    mass = snap(s['mass'])
    Cu = snap(s['Cu'])
    r = run(m, solver, alpha)
    if not converged(m, nf):
        return
    C, w, pk = r['Ct'], r['w'], r['pickup']
    eps = p['max_error']
    for k in range(nf):
        for j in range(ny):
            for i in range(nx):
                ex = (w[j, i, k] * Cu[j, i, k] - C[j, i, k]) / p['T'] * m.dt
                h.le('pickup within the supply', pk[j, i, k], mass[j, i, 0, k], tol=2e-6, scale=1.)
                if nf == 1:
                    h.eq('pickup is what the air takes up', pk[j, i, k], ex, tol=2e-6, scale=1.)
                if nf == 1 and not pieter and mass[j, i, 0, k] > 0:
                    # a reduced weight uses all there is
                    h.imp_le('a weight is reduced for want of supply only', w[j, i, k] < 1 - 1e-9, mass[j, i, 0, k] - 1e-5 , ex, scale=1.)


def cases(tier):
    out = []

    def add(ny, nx, cost=1, **kw):
        n = '%dx%d-' % (ny, nx) + '-'.join('%s=%s' % (a, b) for a, b in sorted(kw.items()))
        out.append(dict(name=n, fn=supply, kwargs=dict(ny=ny, nx=nx, **kw), cost=cost))
    for sv in ('trunk', 'steadystate', 'pieter', 'steadystatepieter'):
        add(1, 3, solver=sv, cost=3)
    for sv in ('trunk', 'steadystate'):
        add(1, 3, solver=sv, sgs='-', sgn='-', cost=3)
        add(1, 2, nf=2, solver=sv, cost=2)
        add(1, 2, nl=2, solver=sv, cost=2)
    if tier == 'thorough':
        for sv in ('trunk', 'steadystate', 'pieter', 'steadystatepieter'):
            add(1, 4, solver=sv, cost=9)
        add(1, 3, solver='trunk', max_iter=4, cost=9)
        add(1, 3, nf=2, solver='trunk', cost=9)
        add(1, 3, alpha=.5, solver='trunk', cost=9)
        add(3, 3, solver='steadystatepieter', cost=9)
    return out
