"""Airborne sediment budget of the transport solvers."""
from solverlib import model, run, converged
from common import snap

OPTS = dict(feas='lin')
PROP = dict(
    title='Airborne sediment budget closes in every cell, also across circular sides',
    statement='While the wind keeps its direction, in every cell off the offshore and onshore boundary the concentration computed in a time step satisfies the sediment '
              'budget: its change equals the time step times the net upwind inflow through the four cell faces plus the exchange '
              'with the bed, (weighted equilibrium concentration minus concentration) divided by the adaptation time, weighted '
              'between the old and new time level by the implicitness of the scheme; in the steady-state solvers inflow and '
              'exchange balance. With circular lateral boundaries the first and last grid row are neighbours, so what leaves '
              'through one side enters at the other. With the implicit solvers (trunk, steadystate) the configured condition '
              '(prescribed flux, no flux, uniform or constant gradient) holds at the offshore and onshore boundary.',
    over=['inputs', 'configurations'],
    text='all wind fields without a change of sign, equilibrium and previous concentrations, weights, bed masses, time steps, adaptation times, '
         'boundary conditions, solvers and schemes',
    why='the tests run two one-dimensional examples and compare no concentration; wind against the grid direction and '
        'wind varying alongshore are not covered',
    files=['aeolis/model.py'],
    mech=[('matrix assembly and solution', 'aeolis/model.py: solve, solve_steadystate, solve_pieter, solve_steadystatepieter')])
META = dict(
    bounds='one solver call on 1x4 to 1x6, 3x3, 3x4 and 4x4 cells (alongshore x cross-shore), 1 fraction (2 in thorough), at most 2 supply '
           'iterations (1 for pieter and 2 fractions), '
           'cross-shore and alongshore wind each of one sign (trunk/steadystate) or with stated signs on the cell faces (pieter), '
           'grid spacing varying by row/column, 1 <= dt <= 3600 s, 0.1 <= T <= 10 s',
    outside='larger grids, supply-limited cells and the boundary columns with the pieter solvers, wind components that change sign within the grid for the trunk/steadystate solvers, lateral '
            'boundary "constant", calls in which the linear solution is negative somewhere or the supply iteration does '
            'not converge, fluid and impact threshold differing (pickup uses the latter only)',
    stubs=['scipy spsolve: any x with A x = b for the matrix and right-hand side the code assembled', 'logging has an empty body'],
    assumptions=['the linear system solution is non-negative (property C06 covers the correction)'])


def outflow(p, s, sg, k, c, pieter):
    """net outflow per unit area of every cell (row, column) with upwind concentrations"""
    ny, nx = c.shape[:2]
    us, un = s['us'], s['un']

    def up(u, a, b):
        return u * a if u >= 0 else u * b

    def fs(j, i):
        """flux through the face between columns i-1 and i, as seen from cells i-1, i"""
        if pieter:
            u = .5 * (us[j, i - 1, k] + us[j, i, k])
            return up(u, c[j, i - 1, k], c[j, i, k])
        q = i - 1 if sg[0] == '+' else i
        return us[j, q, k] * c[j, q, k]

    def fn(j, i):
        a, b = (j - 1) % ny, j % ny
        if pieter:
            u = .5 * (un[a, i, k] + un[b, i, k])
            return up(u, c[a, i, k], c[b, i, k])
        q = a if sg[1] == '+' else b
        return un[q, i, k] * c[q, i, k]

    def div(j, i):
        o = (fs(j, i + 1) - fs(j, i)) / s['ds'][j, i]
        if ny > 1:
            o = o + (fn(j + 1, i) - fn(j, i)) / s['dn'][j, i]
        elif not pieter:
            # a single row: lateral in- and outflow balance with one neighbour, itself
            pass
        return o
    return div


def balance(h, ny, nx, nf=1, solver='trunk', alpha=1, sgs='+', sgn='+', off='constant', on='gradient', oneiter=False, faces=None, **kw):
    pieter = solver.endswith('pieter')
    m = model(h, ny, nx, nf, mass_lo=.01 if pieter else 0, alpha=alpha, solver=solver, sgs=sgs, sgn=sgn, boundary_offshore=off, boundary_onshore=on,
              **kw)
    s, p, l = m.s, m.p, m.l
    p['offshore_flux'], p['onshore_flux'] = h.real('foff', 0, 1), h.real('fon', 0, 1)
    p['constant_offshore_flux'], p['constant_onshore_flux'] = h.real('coff', 0, 1), h.real('con', 0, 1)
    if pieter:
        for a, b in zip(s['mass'].reshape(-1), s['Cu'].reshape(-1)):
            h.assume(a >= b)
            h.assume(a / p['T'] >= b / p['T'])      # the same, in the form the code compares
            h.assume(a / p['T'] * m.dt >= b / p['T'] * m.dt)
        if alpha != 1:
            for a, b, c in zip(s['mass'].reshape(-1), l['Cu'].reshape(-1), l['w'].reshape(-1)):
                h.assume(a / p['T'] >= c * b / p['T'])
    if faces:
        # sign of the velocity on the faces: between columns, between rows
        for i in range(1, nx):
            for j in range(ny):
                v = .5 * (s['us'][j, i - 1, 0] + s['us'][j, i, 0])
                h.assume(v >= 0 if faces[0][i - 1] == '+' else v < 0)
        for j in range(ny):
            for i in range(nx):
                v = .5 * (s['un'][j, i, 0] + s['un'][(j + 1) % ny, i, 0])
                h.assume(v >= 0 if faces[1][j] == '+' else v < 0)
    Ct0 = snap(s['Ct'])
    h.nonneg_solutions(snap(Ct0), accumulate=True) if pieter else h.nonneg_solutions()
    us, un, u = snap(s['us']), snap(s['un']), snap(s['u'])
    Cu = snap(s['Cu'])
    r = run(m, solver, alpha)
    if not converged(m, nf) or oneiter and m.get_count('matrixsolve') > nf:
        return
    C, w = r['Ct'], r['w']
    dt, T = m.dt, p['T']
    for k in range(nf):
        new_div = outflow(p, s, sgs + sgn, k, C, pieter)
        old_div = outflow(p, s, sgs + sgn, k, Ct0, pieter)
        for j in range(ny):
            for i in range(1, nx - 1):
                new = (w[j, i, k] * Cu[j, i, k] - C[j, i, k]) / T - new_div(j, i)
                if solver.startswith('steady'):
                    h.eq('steady budget', new, 0, scale=100.)
                else:
                    old = 0
                    if alpha != 1:
                        old = (l['w'][j, i, k] * l['Cu'][j, i, k] - Ct0[j, i, k]) / T - old_div(j, i)
                    if pieter:
                        h.eq('budget', (C[j, i, k] - Ct0[j, i, k]) / dt, alpha * new + (1 - alpha) * old, scale=100.)
                        continue
                    h.eq('budget', C[j, i, k] - Ct0[j, i, k], dt * (alpha * new + (1 - alpha) * old), scale=1e4)
            if not pieter:
                a, b = C[j, 0, k], C[j, 1, k]
                y, x, z = C[j, nx - 2, k], C[j, nx - 1, k], C[j, nx - 3, k]
                if off == 'constant':
                    h.eq('offshore flux', a * u[j, 0, k], p['constant_offshore_flux'], scale=10.)
                elif off == 'flux':
                    h.eq('offshore flux factor', a, p['offshore_flux'] * s['Cu0'][j, 0, k], scale=10.)
                elif off == 'noflux':
                    h.eq('offshore no flux', a, 0)
                elif off == 'uniform':
                    h.eq('offshore uniform', a, b, scale=10.)
                elif off == 'gradient':
                    h.eq('offshore gradient', (b - a) / s['ds'][j, 1], (C[j, 2, k] - b) / s['ds'][j, 2], scale=10.)
                if on == 'constant':
                    h.eq('onshore flux', x * u[j, nx - 1, k], p['constant_onshore_flux'], scale=10.)
                elif on == 'flux':
                    h.eq('onshore flux factor', x, p['onshore_flux'] * s['Cu0'][j, nx - 1, k], scale=10.)
                elif on == 'noflux':
                    h.eq('onshore no flux', x, 0)
                elif on == 'uniform':
                    h.eq('onshore uniform', x, y, scale=10.)
                elif on == 'gradient':
                    h.eq('onshore gradient', (x - y) / s['ds'][j, nx - 2], (y - z) / s['ds'][j, nx - 3], scale=10.)
    h.eq('cross-shore flux', r['qs'], C * us, scale=1000.)
    h.eq('alongshore flux', r['qn'], C * un, scale=1000.)


def cases(tier):
    out = []

    def add(ny, nx, cost=1, **kw):
        n = '%dx%d-' % (ny, nx) + '-'.join('%s=%s' % (a, b) for a, b in sorted(kw.items()))
        out.append(dict(name=n, fn=balance, kwargs=dict(ny=ny, nx=nx, **kw), cost=cost))
    add(1, 4)
    add(1, 4, sgs='-', off='gradient', on='constant')
    add(1, 5, off='uniform', on='flux')
    add(3, 3, sgn='-')
    add(3, 3, sgs='-', off='flux', on='uniform')
    add(3, 3, alpha=.5)
    add(1, 4, solver='steadystate')
    add(3, 3, solver='steadystate', sgn='-', off='constant', on='flux')
    add(3, 3, solver='steadystate', sgs='-', off='flux', on='gradient')
    add(3, 3, oneiter=True, solver='pieter', off='flux', on='flux', sgn='-')
    add(3, 3, oneiter=True, solver='pieter', off='flux', on='flux', sgs='*', sgn='*', faces=('+-', '+--'))
    add(3, 4, oneiter=True, solver='pieter', off='gradient', on='gradient', sgs='*', sgn='*', faces=('-++', '-++'))
    add(3, 3, oneiter=True, solver='pieter', off='constant', on='constant', sgs='-', sgn='+', alpha=.5)
    add(3, 3, oneiter=True, solver='steadystatepieter', off='flux', on='flux')
    if tier == 'thorough':
        add(1, 4, nf=2, oneiter=True)
        add(1, 4, nf=2, oneiter=True, solver='steadystate')
        add(3, 4, off='noflux', on='gradient')
        add(3, 4, sgs='-', sgn='-', off='constant', on='noflux')
        add(4, 4, off='gradient', on='uniform', sgn='-')
        add(3, 4, alpha=0.)
        add(3, 4, alpha=.5, sgs='-', sgn='-')
        add(1, 6, off='gradient', on='flux')
        add(3, 4, solver='steadystate', off='uniform', on='constant')
        add(4, 4, solver='steadystate', sgs='-', sgn='-')
        add(4, 4, oneiter=True, solver='pieter', off='flux', on='flux', sgs='*', sgn='*', faces=('+-+', '-++-'))
        add(3, 4, oneiter=True, solver='pieter', off='flux', on='flux', sgs='*', sgn='*', faces=('--+', '+--'), alpha=.5)
        add(3, 4, oneiter=True, solver='steadystatepieter', off='flux', on='flux', sgs='*', sgn='*', faces=('+--', '-++'))
    return out
