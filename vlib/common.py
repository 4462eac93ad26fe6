"""Helpers shared by the checks"""
import json

import numpy as np
import pandas as pd
import xarray as xr

from . import ref, world
from .world import World, Out, Violation, fail, assert_close, assert_between


def simulate(case, d, w=None, **over):
    w = w or World(case)
    p = w.write(d)
    p.update(over)
    world.run_metsim(p)
    return w, Out(p['out_dir'], p.get('out_prefix', 'forcing')), p


def precision(p):
    """Relative rounding of the output's number type"""
    return 1e-12 if p.get('out_precision') == 'f8' else 1.3e-7


def label_world(ctx, w):
    g = w.case['grid']
    ctx.label('grid:' + w.kind)
    if (w.mask == 0).any():
        ctx.label('masked cells')
    if w.ncell > 1:
        ctx.label('several cells')
    if np.any(np.abs(w.clat) > 66.5):
        ctx.label('polar')
    if np.any(w.clat < 0):
        ctx.label('southern')
    if len(set(w.days.month)) > 1:
        ctx.label('crosses month')
    if len(set(w.days.year)) > 1:
        ctx.label('crosses year')
    if any((t.month, t.day) == (2, 29) for t in w.days):
        ctx.label('leap day')
    for k in ('prec_type', 'utc_offset', 'period_ending', 'method',
              'lw_type', 'lw_cloud', 'out_precision', 'sw_averaging'):
        if k in w.cfg:
            ctx.label('{}={}'.format(k, w.cfg[k]))
    ts = int(w.cfg.get('time_step', 60))
    ctx.label('daily' if ts == 1440 else 'hour or less' if ts <= 60 else
              'over an hour')


def ref_daily(w, c, doys=None, given=None, cfg=None):
    """Reference daily values of cell c"""
    return ref.daily(
        w.t_min[:, c], w.t_max[:, c], w.prec[:, c], w.s_tmin[:, c],
        w.s_tmax[:, c], w.s_prec[:, c], float(w.clat[c]), float(w.elev[c]),
        w.days.dayofyear if doys is None else doys,
        w.cfg if cfg is None else cfg, given)


def check_grid(w, out, names):
    """Every named variable lies on (time,) + the domain's dimensions"""
    for n in names:
        out[n]
        if tuple(out.dims[n]) != ('time',) + w.dims:
            fail('{} has dimensions {} instead of {}', n, out.dims[n],
                 ('time',) + w.dims)
        if out[n].shape[1:] != w.shape:
            fail('{} has grid shape {} instead of {}', n, out[n].shape[1:],
                 w.shape)


def lon180(lon):
    return abs(abs((lon + 180.) % 360. - 180.) - 180.) < 1e-9


def vp_kpa(vals, approx_kpa):
    """Sub-daily vapour pressure in kPa, whichever of Pa or kPa it is in

    (what unit the file claims is property C13's business)
    """
    v, e = np.asarray(vals, float), np.asarray(approx_kpa, float)
    ok = e > 1e-9
    if not ok.any():
        return v
    r = np.median(v[ok] / e[ok])
    return v / 1000. if r > 30 else v


def vague_sun(dl):
    """Days on which sunrise is not well defined on half-minute geometry"""
    return ((dl > 85680) & (dl < 86400)) | ((dl > 0) & (dl < 600))


def knot_envelope(w, p, c, day, func):
    """Lowest and highest func(kmin, kmax) for sunrise/sunset off by a minute"""
    tol = 1.75 if p.get('utc_offset') else .75
    env = [func(*ref.knots(day, p, float(w.clon[c]), w.nd, (a, b)))
           for a in (-tol, 0., tol) for b in (-tol, 0., tol)]
    return np.min(env, axis=0), np.max(env, axis=0)


def interior(w, p, n, days=1):
    """Boolean mask of the steps that are compared under UTC"""
    sel = np.ones(n, bool)
    if p.get('utc_offset'):
        k = days * 1440 // int(p['time_step'])
        sel[:k] = False
        sel[max(n - k, 0):] = False
    return sel


def copy_case(x):
    return json.loads(json.dumps(x))


def same_output(what, a, b, names=None, rtol=1e-12, atol=1e-12, times=True):
    """Two outputs hold the same variables, times and values"""
    if times and list(a.time) != list(b.time):
        fail('{}: time axes differ ({} steps from {}, {} steps from {})', what,
             len(a.time), a.time[0], len(b.time), b.time[0])
    if names is None:
        if sorted(a.vars) != sorted(b.vars):
            fail('{}: variables differ: {} and {}', what, sorted(a.vars),
                 sorted(b.vars))
        names = [k for k in a.vars]
    for k in names:
        if a.vars[k].dtype.kind not in 'fiu':
            continue
        assert_close('{}: {}'.format(what, k), nan_fill(b[k]), nan_fill(a[k]),
                     rtol=rtol, atol=atol)


def nan_fill(a):
    """Values with fill values as NaN"""
    a = np.array(a, dtype=float)
    a[np.abs(a) > 9e36] = np.nan
    return a
