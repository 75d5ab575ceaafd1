"""State and configuration builders shared by the harnesses."""
import copy
import numpy as _np

DIMS = {'ny': 0, 'nx': 1, 'nlayers': 2, 'nfractions': 3}


def make_p(h, ny, nx, nl=1, nf=1, **over):
    """configuration dictionary: the shipped defaults plus overrides;
    nx, ny are the numbers of cells (the code's nx/ny are one less)"""
    c = h.mod('constants')
    p = {}
    for k, v in c.DEFAULT_CONFIG.items():
        p[k] = copy.copy(v)
    p['nx'], p['ny'] = nx - 1, ny - 1
    p['nlayers'], p['nfractions'] = nl, nf
    p['grain_size'] = h.np.array([225e-6 + 50e-6 * i for i in range(nf)])
    p['grain_dist'] = h.np.array([1.] * nf)
    p['_time'] = 0.
    for k, v in over.items():
        p[k] = v
    return p


def make_s(h, ny, nx, nl=1, nf=1, **over):
    """all model-state arrays, zero unless overridden"""
    c = h.mod('constants')
    size = {'ny': ny, 'nx': nx, 'nlayers': nl, 'nfractions': nf}
    s = {}
    for dims, names in c.MODEL_STATE.items():
        for n in names:
            s[n] = h.np.zeros(tuple(size[d] for d in dims))
    for k in ('wave_mask', 'tide_mask', 'runup_mask', 'threshold_mask', 'gw_mask'):
        s[k] = 1.
    for k in ('ds', 'dn', 'dsdn', 'dsdni'):
        s[k] = h.full((ny, nx), 1.)
    for k, v in over.items():
        s[k] = v
    return s


def snap(x):
    """independent copy of an array"""
    return x.copy()
