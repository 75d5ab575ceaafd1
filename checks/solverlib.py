"""A model object around arbitrary states for the transport solvers."""
from common import make_p, make_s, snap


def model(h, ny, nx, nf, sgs='+', sgn='+', alpha=1, steady=False, solver='trunk', zero_n=False, umax=30, same=True, mass_lo=0, mass_hi=1000,
          max_iter=3, max_error=1e-6, t=60., nl=1, grid='stretched', ctmax=10, **over):
    """sgs/sgn: sign of the cross-shore / alongshore wind in all cells"""
    dt = h.real('dt', 1, 3600)
    T = h.real('T', .1, 10)
    p = make_p(h, ny, nx, nl, nf, T=T, max_iter=max_iter, max_error=max_error, solver=solver)
    s = make_s(h, ny, nx, nl, nf)

    def vel(name, sg):
        lo, hi = {'+': (0, umax), '-': (-umax, 0), '0': (0, 0), '*': (-umax, umax)}[sg]
        if sg == '0':
            return h.zeros((ny, nx, nf))
        return h.array(name, (ny, nx, nf), lo, hi)
    us = vel('us', sgs)
    un = vel('un', sgn)
    if sgs == '-':
        h.assume((us < 0).all())
    if sgn == '-':
        h.assume((un < 0).all())
    s['us'], s['un'] = us, un
    s['u'] = h.array('u', (ny, nx, nf), .1, 2 * umax)
    for j in range(ny):
        for i in range(nx):
            # orthogonal grid: cell sizes vary by column and by row
            s['ds'][j, i] = h.const([2, 3, 4, 5][i % 4]) if grid == 'stretched' else h.const(2)
            s['dn'][j, i] = h.const([5, 3, 4][j % 3]) if grid == 'stretched' else h.const(4)
    s['dsdn'] = s['ds'] * s['dn']
    s['dsdni'] = 1 / s['dsdn']
    s['Cu'] = h.array('Cu', (ny, nx, nf), 0, 10)
    s['Cuf'] = snap(s['Cu']) if same else h.array('Cuf', (ny, nx, nf), 0, 10)
    s['Cu0'] = h.array('Cu0', (ny, nx, nf), 0, 10)
    s['Ct'] = h.array('Ct', (ny, nx, nf), 0, ctmax)
    s['mass'] = h.array('mass', (ny, nx, nl, nf), mass_lo, mass_hi)
    l = {k: v.copy() if hasattr(v, 'copy') else v for k, v in s.items()}
    if alpha != 1:
        l['Cu'] = h.array('lCu', (ny, nx, nf), 0, 10)
        l['Cuf'] = snap(l['Cu']) if same else h.array('lCuf', (ny, nx, nf), 0, 10)
        l['w'] = h.array('lw', (ny, nx, nf), 0, 1)
    for k, v in over.items():
        p[k] = v
    A = h.mod('model').AeoLiS
    m = A.__new__(A)
    m.p, m.s, m.l, m.dt, m.t, m.c = p, s, l, dt, t, {}
    return m


def run(m, solver='trunk', alpha=1):
    if solver == 'trunk':
        return m.solve(alpha=alpha, beta=1.)
    if solver == 'steadystate':
        return m.solve_steadystate()
    if solver == 'pieter':
        return m.solve_pieter(alpha=alpha, beta=1.)
    return m.solve_steadystatepieter()


def converged(m, nf):
    """every supply iteration ended before the iteration limit"""
    return m.get_count('matrixsolve') < m.p['max_iter'] + nf - 1
