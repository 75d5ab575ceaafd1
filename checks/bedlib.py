"""Symbolic bed states for aeolis.bed.update."""
from common import make_p, make_s, snap

RHO, POR = 2650., .4


def bed_state(h, ny, nx, nl, nf, comp='dist', big=0, sign=None, tide=False, bedupdate=True, onesign=False):
    """arbitrary bed with equal, positive layer masses per cell; pickup of a
    fraction never exceeds what the top layer holds; deposition at most
    (1 + big) layer masses"""
    mx = h.array('M', (ny, nx), 1, 100)
    mass = h.zeros((ny, nx, nl, nf))
    for j in range(ny):
        for i in range(nx):
            for l in range(nl):
                rest = mx[j, i]
                for k in range(nf - 1):
                    v = h.real('m_%d_%d_%d_%d' % (j, i, l, k), 0, 100)
                    mass[j, i, l, k] = v
                    rest = rest - v
                h.assume(rest >= 0)
                mass[j, i, l, nf - 1] = rest
    pk = h.array('pickup', (ny, nx, nf), -100 * (1 + big), 100)
    for j in range(ny):
        for i in range(nx):
            for k in range(nf):
                h.assume(pk[j, i, k] <= mass[j, i, 0, k])
            if onesign and nf > 1:
                h.assume(((pk[j, i] <= 0).all()) | ((pk[j, i] >= 0).all()))
            h.assume(0 - pk[j, i].sum() <= mx[j, i] * (1 + big))
    if sign is not None:
        for q, (j, i) in enumerate([(j, i) for j in range(ny) for i in range(nx)]):
            t = pk[j, i].sum()
            if sign[q] == '+':
                h.assume(t < 0)             # net deposition
            elif sign[q] == '-':
                h.assume(t > 0)             # net erosion
            elif sign[q] == '0':
                h.assume(t == 0)
    over = {}
    if comp == 'dist':
        over['grain_dist'] = h.array('gd', (nf,), 0.1, 1)
        base = [[over['grain_dist'] for i in range(nx)] for j in range(ny)]
    elif comp == 'dist2':
        over['grain_dist'] = h.array('gd', (nl, nf), 0.1, 1)
        base = [[over['grain_dist'][nl - 1] for i in range(nx)] for j in range(ny)]
    elif comp == 'file':
        f = h.array('bc', (ny * nx * nl * nf,), 0.1, 1)
        over['bedcomp_file'] = f
        g = f.reshape((ny, nx, nl, nf))
        base = [[g[j, i, nl - 1] for i in range(nx)] for j in range(ny)]
    p = make_p(h, ny, nx, nl, nf, process_bedupdate=bedupdate, process_tide=tide, rhog=h.const(RHO),
               porosity=h.const(POR), **over)
    s = make_s(h, ny, nx, nl, nf)
    s['zb'] = h.array('zb', (ny, nx), -10, 10)
    s['zs'] = h.array('zs', (ny, nx), -10, 10)
    s['mass'] = snap(mass)
    s['pickup'] = snap(pk)
    return s, p, mx, mass, pk, base
