"""Every bed layer keeps its total mass through a bed update."""
from bedlib import bed_state

PROP = dict(
    title='Every bed layer keeps its total mass through a bed update',
    statement='When the bed is updated with the sediment picked up (positive) or deposited (negative) per fraction in a time '
              'step, the total mass of every bed layer of every cell, summed over the fractions, is the same after the update '
              'as before. This holds for net erosion, net deposition and no net exchange, for deposits of any size including '
              'deposits exceeding a full layer, and for every way to configure the composition of the bed underneath.',
    over=['inputs', 'configurations'],
    text='all bed masses, all pickups not exceeding the supply, all deposits, uniform/layered/per-cell bed composition',
    why='the exchange between layers has separate branches for erosion, deposition, balanced cells and deposits beyond a '
        'layer; the tests run one example and check no mass',
    files=['aeolis/bed.py'],
    mech=[('shift mass between layers', 'aeolis/bed.py: update, arrange_layers'),
          ('deposits beyond a layer', 'aeolis/bed.py: prevent_negative_mass')])
OPTS = dict(fork_ites=True)
META = dict(
    bounds='one bed.update step from an arbitrary state: 1 cell with 1-3 layers and 1-2 fractions (3 fractions thorough), '
           '2 cells with 1-2 layers; layer mass in [1,100] kg/m2, deposits up to one layer mass (up to 3 layer masses in the '
           '"big" cases), all three bed-composition configurations',
    outside='larger grids (cells are independent, 2-cell cases check for cross talk), layers of unequal mass, layers '
            'without mass, pickup above the supply',
    stubs=['numba.njit is the identity', 'logging has an empty body'],
    assumptions=['all layers of a cell hold the same positive mass before the step',
                 'pickup of a fraction does not exceed its mass in the top layer (property C04)'])


def layers(h, **kw):
    s, p, mx, mass, pk, base = bed_state(h, **kw)
    s = h.mod('bed').update(s, p)
    h.eq('layer total mass', s['mass'].sum(axis=3), mass.sum(axis=3), scale=100.)


def cases(tier):
    out = []

    def add(ny, nx, nl, nf, comp='dist', big=0, cost=1, **kw):
        n = '%dx%d-l%d-f%d-%s' % (ny, nx, nl, nf, comp)
        n += '-big%d' % big if big else ''
        n += '-' + kw['sign'] if 'sign' in kw else ''
        out.append(dict(name=n, fn=layers, cost=cost, kwargs=dict(ny=ny, nx=nx, nl=nl, nf=nf, comp=comp, big=big, **kw)))
    add(1, 1, 1, 1)
    add(1, 1, 3, 1)
    add(1, 1, 1, 2)
    for sg in '+-0':
        add(1, 1, 2, 2, sign=sg, cost=5)
    add(1, 1, 2, 2, 'dist2', sign='-')
    add(1, 1, 2, 2, 'file', sign='-')
    add(1, 2, 2, 1)
    for sg in ('-+', '--'):
        add(2, 1, 1, 2, 'file', onesign=True, sign=sg, cost=3)
    add(1, 1, 2, 1, big=2)
    add(1, 1, 3, 1, big=4, cost=3)
    add(1, 1, 2, 2, big=1, sign='+', onesign=True, cost=5)
    if tier == 'thorough':
        for sg in '+-0':
            add(1, 1, 3, 2, sign=sg, cost=20)
        add(1, 1, 2, 3, sign='+', cost=20)
        add(1, 1, 2, 3, sign='-', cost=20)
        add(1, 3, 2, 1, cost=10)
        add(1, 1, 2, 2, big=2, sign='+', cost=20)
    return out
