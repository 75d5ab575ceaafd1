"""Weights of the sediment fractions."""
from common import make_p, make_s, snap

OPTS = dict(fork_ites=True)
PROP = dict(
    title='Sediment fraction weights form a partition of unity',
    statement='In every cell that holds sediment in the top bed layer the fraction weights used for transport are between zero and '
              'one and sum to one, whatever the concentrations in the air (also above equilibrium) and the bed interaction parameter '
              'in [0,1]. Without sediment in the air, or with bed interaction 1, they are the composition of the top layer; when '
              '(1-bi) times the total degree of saturation of the air is at least one they are the composition of the air. In between, a '
              'fraction that is overrepresented in the air relative to the bed weighs more than in the bed and less than in '
              'the air. Renormalising the weights from fraction ix on keeps the sum one and all weights between zero and one, '
              'leaves the fractions before ix as they are and the proportions of the later ones unchanged, as long as a later '
              'fraction has weight; without any weight the distribution is uniform. Computing weights changes no input array. Normalisation '
              'sums to one along the requested axis, or returns the fill value where there is nothing to normalise.',
    over=['inputs', 'configurations'],
    text='all bed masses, concentrations, equilibrium concentrations and bed interaction parameters',
    why='tests cover normalize on two arrays and never the weights',
    files=['aeolis/transport.py', 'aeolis/utils.py'],
    mech=[('weights', 'aeolis/transport.py: compute_weights'), ('renormalisation', 'aeolis/transport.py: renormalize_weights'),
          ('normalisation', 'aeolis/utils.py: normalize')])
META = dict(
    bounds='1x1, 1x2 and 2x1 cells, 1-3 fractions (4 in thorough), 2 layers; masses in [0,1000], concentrations in [0,10], bi in [0,1]',
    outside='larger grids (cells are independent), more fractions',
    stubs=['matplotlib is a dummy'],
    assumptions=['masses, concentrations and equilibrium concentrations are not negative'])


def weights(h, ny, nx, nf, mode):
    p = make_p(h, ny, nx, 2, nf, bi=h.real('bi', 0, 1))
    s = make_s(h, ny, nx, 2, nf)
    s['mass'] = h.array('mass', (ny, nx, 2, nf), 0, 1000)
    s['Ct'] = h.array('Ct', (ny, nx, nf), 0, 10)
    s['Cu'] = h.array('Cu', (ny, nx, nf), 0, 10)
    if mode == 'one':
        h.assume(p['bi'] == 1)
    elif mode == 'empty':
        h.assume((s['Ct'] == 0).all())
    elif mode == 'nobed':
        h.assume((s['mass'] == 0).all())
    else:
        h.assume((s['Cu'] > 0).all())
    mass, Ct, Cu, bi = snap(s['mass']), snap(s['Ct']), snap(s['Cu']), p['bi']
    w, wa, wb = h.mod('transport').compute_weights(s, p)
    h.eq('bed mass untouched', s['mass'], mass)
    h.eq('concentrations untouched', s['Ct'], Ct)
    h.eq('equilibrium untouched', s['Cu'], Cu)
    h.ge('not negative', w, 0)
    h.le('at most one', w, 1)
    for j in range(ny):
        for i in range(nx):
            m = mass[j, i, 0].sum()
            if mode == 'nobed':
                h.eq('sum is one or nothing is there', w[j, i].sum() * (1 - w[j, i].sum()), 0)
                continue
            if not m > 0:
                continue
            h.eq('sum', w[j, i].sum(), 1)
            for k in range(nf):
                h.eq('bed composition', wb[j, i, k] * m, mass[j, i, 0, k])
                if mode in ('one', 'empty'):
                    h.eq('weights follow the bed', w[j, i, k] * m, mass[j, i, 0, k], scale=1000.)
            if mode == 'mix':
                sat = 0
                for k in range(nf):
                    h.eq('air composition', wa[j, i, k] * Cu[j, i, k], Ct[j, i, k], scale=10.)
                    sat = sat + wa[j, i, k]
                full = (1 - bi) * sat >= 1
                if full:
                    for k in range(nf):
                        h.eq('weights follow the air', w[j, i, k] * sat, wa[j, i, k])
                elif sat > 0:
                    for k in range(nf):
                        a, b = wa[j, i, k], wb[j, i, k] * sat
                        if a > b:
                            h.ge('more than in the bed', w[j, i, k], wb[j, i, k])
                            h.le('less than in the air', w[j, i, k] * sat, a)
                    # the documented mix itself
                    for k in range(nf):
                        mix = (1 - bi) * wa[j, i, k] + (1 - (1 - bi) * sat) * wb[j, i, k]
                        h.eq('mix of air and bed', w[j, i, k], mix)


def renorm(h, ny, nx, nf, ix):
    w = h.array('w', (ny, nx, nf), 0, 1)
    for j in range(ny):
        for i in range(nx):
            h.assume(w[j, i, :ix].sum() <= 1 if ix else w[j, i].sum() >= 0)
    w0 = snap(w)
    r = h.mod('transport').renormalize_weights(w, ix)
    h.ge('not negative', r, 0)
    h.le('at most one', r, 1)
    for j in range(ny):
        for i in range(nx):
            h.eq('sum', r[j, i].sum(), 1)
            rest = w0[j, i, ix:].sum()
            if rest > 0:
                h.eq('solved fractions', r[j, i, :ix], w0[j, i, :ix])
                for k in range(ix, nf):
                    h.eq('proportions of the others', r[j, i, k] * rest, w0[j, i, k] * (1 - w0[j, i, :ix].sum()), scale=3.)
            elif (w0[j, i] == 0).all():
                h.eq('uniform', r[j, i] * nf, 1)


def norm(h, shape, axis, fill):
    x = h.array('x', shape, 0, 100)
    x0 = snap(x)
    f = h.real('fill', 0, 1) if fill else 0
    y = h.mod('utils').normalize(x, axis=axis, **(dict(fill=f) if fill else {}))
    h.eq('input untouched', x, x0)
    h.true('shape', h.np.shape(y) == h.np.shape(x0))
    t = x0.sum(axis=axis)
    ty = y.sum(axis=axis)
    for a, b in zip(t.reshape(-1), ty.reshape(-1)):
        if a > 0:
            h.eq('sum', b, 1)
        else:
            h.eq('fill', b, f * shape[axis])


def cases(tier):
    out = []

    def add(fn, n, cost=1, **kw):
        out.append(dict(name=n, fn=fn, kwargs=kw, cost=cost))
    for mode in ('one', 'empty', 'nobed', 'mix'):
        for nf in (1, 2, 3) if mode != 'mix' else (1, 2):
            add(weights, 'weights-%s-f%d' % (mode, nf), ny=1, nx=1, nf=nf, mode=mode, cost=nf)
        add(weights, 'weights-%s-1x2' % mode, ny=1, nx=2, nf=2 if mode != 'mix' else 1, mode=mode, cost=3)
        if mode != 'mix':
            add(weights, 'weights-%s-2x1' % mode, ny=2, nx=1, nf=2, mode=mode, cost=3)
    for nf in (1, 2, 3):
        for ix in range(0, nf + 1):
            add(renorm, 'renorm-f%d-ix%d' % (nf, ix), ny=1, nx=1, nf=nf, ix=ix)
    add(renorm, 'renorm-2x1', ny=2, nx=1, nf=2, ix=1)
    add(renorm, 'renorm-1x2', ny=1, nx=2, nf=2, ix=1)
    for shape in ((2, 3), (2, 2, 2)):
        for ax in range(len(shape)):
            for fill in (False, True):
                add(norm, 'normalize-%s-%d-%s' % ('x'.join(map(str, shape)), ax, fill), shape=shape, axis=ax, fill=fill)
    if tier == 'thorough':
        add(weights, 'weights-mix-f3', ny=1, nx=1, nf=3, mode='mix', cost=9)
        add(weights, 'weights-mix-1x2f2', ny=1, nx=2, nf=2, mode='mix', cost=9)
        for ix in range(0, 5):
            add(renorm, 'renorm-f4-ix%d' % ix, ny=1, nx=1, nf=4, ix=ix, cost=3)
    return out
