"""C19 A constant variable acts as a forcing field of that value"""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C19'
RULE = ('worlds of 1-4 cells run with one or more variables given as '
        'constants (number, whole number or text), which the forcing file '
        'leaves out or contradicts, in netCDF (floating point or integer), '
        'in-memory, ASCII and binary input, with both methods, whole or in '
        'chunks; compared with a run whose forcing file holds the constants; '
        'non-trivial: the value differs from what the file holds, or the '
        'file lacks the variable')
BUDGET = {'quick': 34, 'thorough': 600}
ASSUMPTIONS = ['at least one forcing variable is not constant, as documented']


@st.composite
def _cases(draw):
    cfg = gen.cfgs(
        time_step=st.sampled_from([60, 180, 360, 1440, 1440]),
        prec_type=gen.maybe(st.sampled_from(['triangle', 'mix'])),
        utc_offset=gen.maybe(st.booleans()),
        method=st.sampled_from([None, None, 'passthrough']),
        chunks=gen.maybe(st.sampled_from([{'0': 1}, {'0': 1, '1': 1}])))
    c = draw(gen.worlds(long=[13, 34], cfg=cfg, days=(1, 5), max_cells=4, triangle=True,
                        wind='maybe'))
    names = ['prec', 't_min', 't_max', 'wind']
    if c['cfg'].get('method'):
        names += ['shortwave', 'longwave', 'shortwave']
    pick = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4,
                         unique=True))
    c['const'] = {}
    for v in pick:
        val = draw(st.one_of(st.integers(0, 300).map(lambda k: k / 10.),
                             st.integers(0, 12), st.just(0)))
        if v in ('shortwave', 'longwave'):
            val = val + 50
        if v == 't_min':
            val = val - 10
        if v == 't_max':
            val = val + 20.5
        c['const'][v] = draw(st.sampled_from([val, val, str(val),
                                              float(val)]))
    fmts = ['netcdf', 'netcdf', 'netcdf-int', 'data']
    if c['grid']['kind'] in ('latlon', 'lonlat'):
        fmts += ['ascii', 'binary']
    c['fmt'] = draw(st.sampled_from(fmts))
    c['lacks'] = draw(st.lists(st.sampled_from(names), unique=True))
    return c


def strategy(tier):
    return _cases()


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    fmt = case['fmt']
    ctx.label('format:' + fmt, *('constant:' + k for k in case['const']))
    ch = w.cfg.pop('chunks', None)
    if ch:
        w.cfg['chunks'] = {w.dims[int(k)]: v for k, v in ch.items()
                           if int(k) < len(w.dims)}
    passthrough = w.cfg.get('method') == 'passthrough'
    if passthrough:
        k = np.arange(w.nd)[:, None] + np.arange(w.ncell)[None, :]
        w.extra['shortwave'] = 20. + k
        if 'longwave' in case['const']:
            w.extra['longwave'] = 200. + k
    if fmt in ('netcdf-int', 'binary'):
        for f in ('prec', 't_min', 't_max', 'wind'):
            if getattr(w, f) is not None:
                setattr(w, f, np.round(getattr(w, f)))
        w.prec = np.minimum(w.prec, 600)
    const = dict(case['const'])
    num = {k: float(v) for k, v in const.items()}
    # days have to be consistent whichever of the two is constant
    if 't_max' in num and 't_min' not in num:
        w.t_min = np.minimum(w.t_min, np.floor(num['t_max']) - 1)
        w.t_max = np.maximum(w.t_min, w.t_max)
    elif 't_min' in num and 't_max' not in num:
        w.t_max = np.maximum(w.t_max, np.ceil(num['t_min']) + 1)
        w.t_min = np.minimum(w.t_min, w.t_max)
    names = ['prec', 't_min', 't_max'] + sorted(w.extra)
    if w.wind is not None:
        names.append('wind')
    lacks = [v for v in case['lacks'] if v in const and v in names]
    kept = [v for v in names if v not in lacks]
    if not [v for v in kept if v not in const]:
        # one forcing has to vary: keep the precipitation of the file
        const.pop('prec', None)
        num.pop('prec', None)
        kept = sorted(set(kept) | {'prec'})
    if not const:
        return
    ctx.nontrivial(w.ncell * w.nd > 1)
    with scratch() as d:
        p = w.write(d)
        ds = w.forcing_ds()
        p['out_vars'] = {n: {'out_name': n} for n in (
            world.DAY_VARS if int(p['time_step']) == 1440 else
            world.SUB_VARS) if n != 'wind' or w.wind is not None
            or 'wind' in const}
        # the run that is asked for
        q = dict(p, out_dir=d + '/const', constant_vars=const)
        q['forcing_vars'] = {v: v for v in kept}
        f = ds[kept]
        if fmt == 'data':
            q.update(forcing=f, forcing_fmt='data')
        elif fmt in ('ascii', 'binary'):
            cells(w, f, kept, fmt, d, q)
        else:
            if fmt == 'netcdf-int':
                f = f.map(lambda a: a.astype('i4') if a.dtype.kind == 'f'
                          and 'time' in a.dims else a, keep_attrs=True)
            f.to_netcdf(d + '/const_forcing.nc')
            q['forcing'] = d + '/const_forcing.nc'
        # the same with the constants as fields
        full = ds.copy()
        for v, x in num.items():
            full[v] = xr.full_like(ds['prec'], x, dtype=float)
        full.to_netcdf(d + '/in_full.nc')
        p['forcing'] = d + '/in_full.nc'
        p['forcing_vars'] = {v: v for v in full.data_vars
                             if v in names or v in num}
        world.run_metsim(p)
        a = Out(p['out_dir'])
        world.run_metsim(q)
        b = Out(q['out_dir'])
    same_output('constant {} ({})'.format(const, fmt), a, b,
                sorted(p['out_vars']), rtol=1e-9, atol=1e-9)
    for v in ('wind', 't_min', 't_max'):
        if v in num and v in b.vars:
            got = b.cells(v)[:, w.active()]
            assert_close('output {} of a constant'.format(v), got,
                         np.full(got.shape, num[v]), rtol=1e-12)
            ctx.label('constant in output')


def cells(w, f, names, fmt, d, q):
    import struct
    os.makedirs(d + '/cells')
    q['forcing'] = []
    for c in range(w.ncell):
        path = '{}/cells/data_{}_{}'.format(d, w.clat[c], w.clon[c])
        rows = np.stack([f[v].values.reshape(w.nd, -1)[:, c]
                         for v in names], axis=1)
        with open(path, 'wb') as h:
            for r in rows:
                if fmt == 'ascii':
                    h.write((' '.join(repr(float(x)) for x in r)
                             + '\n').encode())
                else:
                    for x in r:
                        h.write(struct.pack('h', int(round(x * 10))))
        q['forcing'].append(path)
    q['forcing_fmt'] = fmt
    q['forcing_vars'] = {v: v if fmt == 'ascii' else '10 signed'
                         for v in names}
