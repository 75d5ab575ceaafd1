"""Per-fraction sediment budget of the bed and non-negative bed masses."""
from bedlib import bed_state

PROP = dict(
    title='Bed column budget per grain-size fraction closes and no mass goes negative',
    statement='In a bed update with pickups not exceeding the supply no bed mass becomes negative. Per cell and fraction, what the '
              'bed column gains equals what is deposited on top (minus what is picked up) plus what crosses the bottom: under net '
              'erosion the column is refilled from below with exactly the eroded mass in the configured composition of the '
              'lowest layer, under net deposition mass only leaves through the bottom, exactly as much in total as was deposited, '
              'and without net exchange nothing crosses the bottom. Deposits mix with the top layer, which passes on its former '
              'composition downward.',
    over=['inputs', 'configurations'],
    text='all bed masses, pickups not exceeding the supply and deposits of any size, per fraction; uniform/layered/per-cell '
         'bed composition',
    why='multi-fraction exchange with mixed signs is not exercised and no mass balance is checked by any test',
    files=['aeolis/bed.py'],
    mech=[('layer exchange', 'aeolis/bed.py: update, arrange_layers'),
          ('deposits beyond a layer', 'aeolis/bed.py: prevent_negative_mass')])
OPTS = dict(fork_ites=True)
META = dict(
    bounds='one bed.update step from an arbitrary state: 1 cell with 1-2 layers and 1-2 fractions, 2 cells with 1 layer; '
           'deposits of up to 5 layer masses (1 fraction) / 2 layer masses (2 fractions); three bed-composition configurations',
    outside='larger grids, layers of unequal mass, layers without mass, pickup above the supply',
    stubs=['numba.njit is the identity', 'logging has an empty body'],
    assumptions=['all layers of a cell hold the same positive mass before the step',
                 'pickup of a fraction does not exceed its mass in the top layer (property C04)'])


def budget(h, ny, nx, nl, nf, sign, **kw):
    s, p, mx, mass, pk, base = bed_state(h, ny, nx, nl, nf, sign=sign, **kw)
    s = h.mod('bed').update(s, p)
    h.ge('bed masses non-negative', s['mass'], 0, scale=100., tol=1e-8)
    q = 0
    for j in range(ny):
        for i in range(nx):
            dm = 0 - pk[j, i].sum()
            for k in range(nf):
                change = s['mass'][j, i, :, k].sum() - mass[j, i, :, k].sum()
                left = 0 - pk[j, i, k] - change          # what left through the bottom
                if sign[q] == '-':
                    h.eq('eroded column is refilled from below', left, dm * base[j][i][k] / base[j][i].sum(), scale=100.)
                elif sign[q] == '0':
                    h.eq('balanced column only swaps fractions', left, 0, scale=100.)
                else:
                    h.ge('deposits only leave downward', left, 0, scale=100.)
            if sign[q] == '+':
                tot = s['mass'][j, i].sum() - mass[j, i].sum()
                h.eq('outflow equals deposition', 0 - pk[j, i].sum() - tot, dm, scale=100.)
            q += 1


def top(h, nl, nf):
    """fresh deposits arrive in the top layer, and a pickup leaves from it"""
    s, p, mx, mass, pk, base = bed_state(h, 1, 1, nl, nf, sign='+', onesign=True)
    s = h.mod('bed').update(s, p)
    dm = 0 - pk[0, 0].sum()
    for k in range(nf):
        old = mass[0, 0, 0, k]
        h.eq('top layer mixes with the deposit', s['mass'][0, 0, 0, k],
             old - pk[0, 0, k] - dm * old / mx[0, 0], scale=100.)


def cases(tier):
    out = []

    def add(ny, nx, nl, nf, comp='dist', big=0, cost=1, **kw):
        n = '%dx%d-l%d-f%d-%s' % (ny, nx, nl, nf, comp)
        n += '-big%d' % big if big else ''
        n += '-' + kw['sign'] if 'sign' in kw else ''
        out.append(dict(name=n, fn=budget, cost=cost, kwargs=dict(ny=ny, nx=nx, nl=nl, nf=nf, comp=comp, big=big, **kw)))
    for sg in '+-0':
        add(1, 1, 1, 2, sign=sg)
        add(1, 1, 2, 1, sign=sg)
        add(1, 1, 2, 2, sign=sg, cost=10)
    add(1, 1, 2, 2, 'dist2', sign='-', cost=10)
    add(1, 1, 2, 2, 'file', sign='-', cost=10)
    add(2, 1, 1, 2, 'file', sign='-+', onesign=True, cost=10)
    add(1, 2, 1, 2, 'file', sign='--', onesign=True, cost=10)
    add(1, 1, 2, 1, big=4, sign='+')
    add(1, 1, 3, 1, big=4, sign='+')
    add(1, 1, 1, 2, big=1, sign='+', onesign=True, cost=10)
    add(1, 2, 1, 2, big=1, sign='+-', onesign=True, cost=10)
    add(1, 2, 2, 1, big=1, sign='-+', cost=10)
    out.append(dict(name='top-l2-f2', fn=top, cost=5, kwargs=dict(nl=2, nf=2)))
    if tier == 'thorough':
        add(1, 1, 2, 2, big=1, sign='+', onesign=True, cost=10)
        for sg in '+-':
            add(1, 1, 3, 2, sign=sg, cost=20)
    return out
