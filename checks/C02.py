"""Bed level follows the net deposited mass."""
from bedlib import bed_state, RHO, POR
from common import snap

PROP = dict(
    title='Bed level follows the net deposited mass',
    statement='In a bed update the bed level of every cell rises by the net mass deposited in that cell in the step divided by '
              'the bulk density of the bed (grain density times one minus porosity), and falls likewise for net erosion; the '
              'reported bed level change equals it and the water level moves along with the bed level when the tide is on and '
              'is unchanged otherwise. With bed updating switched off neither level changes, and the recorded initial bed '
              'level never changes.',
    over=['inputs', 'configurations'],
    text='all bed masses, pickups not exceeding the supply and deposits of any size, tide and bed update on or off',
    why='deposits larger than a layer and mixed fractions never occur in the tests and no bed level is checked',
    files=['aeolis/bed.py'],
    mech=[('bed level from mass', 'aeolis/bed.py: update'), ('deposits beyond a layer', 'aeolis/bed.py: prevent_negative_mass')])
OPTS = dict(fork_ites=True)
META = dict(
    bounds='one bed.update step from an arbitrary state: 1 cell with 1-3 layers and 1-2 fractions, 2 cells with 1-2 layers; '
           'deposits of up to 5 layer masses; bed and water levels in [-10,10] m',
    outside='larger grids, layers of unequal mass, layers without mass, pickup above the supply',
    stubs=['numba.njit is the identity', 'logging has an empty body'],
    assumptions=['all layers of a cell hold the same positive mass before the step',
                 'pickup of a fraction does not exceed its mass in the top layer (property C04)'])


def level(h, tide, bedupdate, **kw):
    s, p, mx, mass, pk, base = bed_state(h, tide=tide, bedupdate=bedupdate, **kw)
    zb, zs, zb0 = snap(s['zb']), snap(s['zs']), snap(s['zb0'])
    s = h.mod('bed').update(s, p)
    dz = (0 - pk.sum(axis=2)) / (h.const(RHO) * (1 - h.const(POR)))
    if not bedupdate:
        h.eq('bed level frozen', s['zb'], zb)
        h.eq('water level frozen', s['zs'], zs)
        return
    h.eq('bed level change', s['zb'], zb + dz, tol=1e-11)
    h.eq('reported bed level change', s['dzb'], dz, tol=1e-11)
    h.eq('water level', s['zs'], zs + dz if tide else zs, tol=1e-11)
    h.eq('initial bed level', s['zb0'], zb0)


def cases(tier):
    out = []

    def add(ny, nx, nl, nf, comp='dist', big=0, tide=False, bedupdate=True, cost=1, **kw):
        n = '%dx%d-l%d-f%d-%s' % (ny, nx, nl, nf, comp)
        n += ('-big%d' % big if big else '') + ('-tide' if tide else '') + ('' if bedupdate else '-frozen')
        n += '-' + kw['sign'] if 'sign' in kw else ''
        out.append(dict(name=n, fn=level, cost=cost, kwargs=dict(ny=ny, nx=nx, nl=nl, nf=nf, comp=comp, big=big, tide=tide,
                                                                bedupdate=bedupdate, **kw)))
    add(1, 1, 1, 1)
    add(1, 1, 3, 1, tide=True)
    add(1, 1, 3, 1, bedupdate=False)
    add(1, 1, 1, 2)
    for sg in '+-0':
        add(1, 1, 2, 2, sign=sg, tide=sg == '-', cost=5)
    add(1, 1, 2, 2, 'dist2', sign='-')
    add(1, 1, 2, 2, 'file', sign='-')
    add(1, 2, 2, 1, tide=True)
    add(2, 1, 1, 2, onesign=True, sign='+-', cost=3)
    add(1, 1, 2, 1, big=4)
    add(1, 1, 3, 1, big=4, tide=True, cost=3)
    add(1, 1, 2, 2, big=1, sign='+', onesign=True, cost=5)
    if tier == 'thorough':
        for sg in '+-':
            add(1, 1, 3, 2, sign=sg, cost=20)
        add(1, 3, 2, 1, cost=10, tide=True)
        add(1, 1, 2, 3, sign='-', cost=20)
        add(1, 1, 2, 2, big=2, sign='+', cost=20)
    return out
