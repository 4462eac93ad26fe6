"""C15 The same data give the same results whatever format they come in"""
import os
import struct

import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C15'
RULE = ('lat-lon worlds of 1-4 cells (masked cells included), 1-8 days; the '
        'netCDF run is compared with one on the same data as ASCII or binary '
        'files per cell (any column order, scale factors and signedness, '
        'files in any order, unrelated files among them, longer files), '
        'netCDF files split along time (glob or list), an in-memory dataset, '
        'renamed variables, other time encodings and stamps, integer '
        'packing, integer or single precision storage; non-trivial: two active cells or two days that differ')
BUDGET = {'quick': 34, 'thorough': 700}
HOW = ['ascii', 'ascii', 'binary', 'binary', 'glob', 'list', 'data',
       'renamed', 'encoding', 'noon', 'packed', 'data-renamed', 'ints',
       'ints', 'float32', 'domain types']


@st.composite
def _cases(draw):
    cfg = gen.cfgs(
        time_step=st.sampled_from([60, 180, 360, 1440]),
        prec_type=gen.maybe(st.sampled_from(['triangle', 'mix'])),
        utc_offset=gen.maybe(st.booleans()),
        chunks=gen.maybe(st.sampled_from([{'lat': 1}, {'lat': 1, 'lon': 1}])))
    c = draw(gen.worlds(long=True, kinds=('latlon', 'lonlat'), cfg=cfg, days=(1, 8),
                        max_cells=4, triangle=True, wind='maybe'))
    c['how'] = draw(st.sampled_from(HOW))
    c['cols'] = draw(st.permutations(list(range(5))))
    c['extra'] = draw(st.integers(0, 3))
    c['flip'] = draw(st.booleans())
    c['stray'] = draw(st.booleans())
    c['masked'] = draw(st.sampled_from(['absent', 'junk', 'data']))
    c['big'] = draw(st.booleans())
    c['scale'] = draw(st.sampled_from([10, 20, 40, 100]))
    c['cut'] = draw(st.integers(1, 7))
    c['enc'] = draw(st.sampled_from(
        ['hours since 1900-01-01', 'days since 2000-01-01',
         'minutes since 1970-01-01 00:00:00', 'seconds since 1950-01-01']))
    c['hour'] = draw(st.sampled_from([12, 6, 1, 23]))
    return c


def strategy(tier):
    return _cases()


def cell_files(case, w, d, ctx):
    """One file per cell; returns (paths, forcing_vars)"""
    names = ['prec', 't_min', 't_max'] + (['wind'] if w.wind is not None
                                          else [])
    if case['how'] == 'binary' and case['stray']:
        # a variable that nothing needs
        names.append('humid')
    order = [names[i] for i in case['cols'] if i < len(names)]
    order += [x for x in names if x not in order]
    data = {'prec': w.prec, 't_min': w.t_min, 't_max': w.t_max,
            'wind': w.wind, 'humid': w.prec * 0 + 3.}
    scale = {x: case['scale'] * (1 + (i % 2)) for i, x in enumerate(names)}
    kind = {x: 'unsigned' if x in ('prec', 'wind', 'humid') else 'signed'
            for x in names}
    # 16 bits hold 3276 at a scale of 20
    paths = []
    os.makedirs(d + '/cells')
    for c in range(w.ncell):
        path = '{}/cells/data_{}_{}'.format(d, w.clat[c], w.clon[c])
        rows = np.stack([data[x][:, c] for x in order], axis=1)
        if w.mask[c] == 0:
            if case['masked'] == 'absent':
                continue
            if case['masked'] == 'junk':
                rows = rows * 0 + 7
        rows = np.concatenate([rows] + [rows[-1:] * 0 + 5] * case['extra'])
        if case['how'] == 'ascii':
            with open(path, 'w') as f:
                for r in rows:
                    f.write('  '.join(repr(float(x)) for x in r) + '\n')
        else:
            with open(path, 'wb') as f:
                for r in rows:
                    for x, v in zip(order, r):
                        f.write(struct.pack(
                            'H' if kind[x] == 'unsigned' else 'h',
                            int(round(v * scale[x]))))
        paths.append(path)
    if case['stray']:
        # a cell that is not in the domain
        path = '{}/cells/data_{}_{}'.format(d, 12.34375, -178.03125)
        with open(path, 'wb') as f:
            f.write(open(paths[0], 'rb').read())
        paths.append(path)
        with open(d + '/cells/README', 'w') as f:
            f.write('what these files are\n')
        paths.append(d + '/cells/README')
    if case['flip']:
        paths = paths[::-1]
    if case['how'] == 'ascii':
        return paths, {x: x for x in order}
    return paths, {x: '{} {}'.format(scale[x], kind[x]) for x in order}


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    how = case['how']
    ctx.label('format:' + how)
    ctx.nontrivial(len(w.active()) > 1 or w.nd > 1)
    # 16-bit numbers with the largest scale used
    cap = 65535 // (2 * case['scale']) - 10
    if how == 'binary':
        w.prec = np.minimum(w.prec, cap)
        if case['big']:
            # the upper half of what an unsigned number holds
            w.prec[w.nd // 2] = (65535 - np.arange(w.ncell)) // (
                2 * case['scale']) * 2
            if w.wind is not None:
                w.wind[-1] = 60000 // (2 * case['scale'])
        lim = 32767 // (2 * case['scale']) - 2
        w.t_min = np.clip(w.t_min, -lim, lim)
        w.t_max = np.clip(w.t_max, w.t_min, lim)
    if how == 'domain types':
        w.elev = np.round(w.elev)
        for v in ('s_tmin', 's_tmax', 's_prec'):
            setattr(w, v, np.round(getattr(w, v)))
        w.s_tmax = np.maximum(w.s_tmax, w.s_tmin)
        if w.t_pk is not None:
            # one of the two is stored as an integer
            w.t_pk, w.dur = np.round(w.t_pk), np.round(w.dur)
    if how == 'ints':
        for v in ('prec', 't_min', 't_max', 'wind'):
            if getattr(w, v) is not None:
                setattr(w, v, np.round(getattr(w, v)))
        if w.t_pk is not None:
            # times need not be whole minutes
            w.t_pk = w.t_pk + .25
            w.dur = w.dur + .5
    with scratch() as d:
        p = w.write(d)
        world.run_metsim(p)
        a = Out(p['out_dir'])
        q = dict(p, out_dir=d + '/other')
        f = w.forcing_ds()
        if how in ('ascii', 'binary'):
            q['forcing_fmt'] = how
            q['forcing'], q['forcing_vars'] = cell_files(case, w, d, ctx)
        elif how in ('glob', 'list'):
            cut = min(case['cut'], w.nd)
            files = []
            for k, part in enumerate((f.isel(time=slice(0, cut)),
                                      f.isel(time=slice(cut, None)))):
                if part.sizes['time']:
                    files.append('{}/part_{}.nc'.format(d, k))
                    part.to_netcdf(files[-1])
            q['forcing'] = files if how == 'list' else d + '/part_*.nc'
        elif how == 'data':
            q['forcing'], q['forcing_fmt'] = f, 'data'
        elif how in ('renamed', 'data-renamed'):
            f = f.rename({v: v + '_src' for v in f.data_vars})
            f['unused'] = f['prec_src'] * 3
            # the names of other variables
            f = f.rename({'prec_src': 'wind', 't_min_src': 'prec'})
            q['forcing_vars'] = {
                {'prec': 'wind', 't_min': 'prec'}.get(v, v + '_src'): v
                for v in p['forcing_vars'].values()}
            if how == 'renamed':
                f.to_netcdf(d + '/renamed.nc')
                q['forcing'] = d + '/renamed.nc'
            else:
                q['forcing'], q['forcing_fmt'] = f, 'data'
            m = w.domain_ds().rename({'elev': 'topo', 'mask': 'run_cell'})
            m.to_netcdf(d + '/m2.nc')
            q['domain'] = d + '/m2.nc'
            q['domain_vars'] = {{'elev': 'topo', 'mask': 'run_cell'}.get(
                k, k): v for k, v in p['domain_vars'].items()}
            s = w.state_ds().rename({'t_min': 'tn', 't_max': 't_min'})
            s.to_netcdf(d + '/s2.nc')
            q['state'] = d + '/s2.nc'
            q['state_vars'] = {'prec': 'prec', 'tn': 't_min',
                               't_min': 't_max'}
        elif how == 'encoding':
            f.to_netcdf(d + '/enc.nc', encoding={'time': {
                'units': case['enc'], 'calendar': 'proleptic_gregorian'
                if case['flip'] else 'standard', 'dtype': 'f8'}})
            q['forcing'] = d + '/enc.nc'
        elif how == 'noon':
            # a stamp inside the day means that day
            for k, g in (('forcing', f), ('state', w.state_ds())):
                g.assign_coords(time=g.time + np.timedelta64(
                    case['hour'], 'h')).to_netcdf(d + '/noon_' + k + '.nc')
                q[k] = d + '/noon_' + k + '.nc'
        elif how == 'packed':
            f.to_netcdf(d + '/packed.nc', encoding={v: {
                'dtype': 'i4', 'scale_factor': .1, 'add_offset': 5.,
                '_FillValue': -2 ** 31 + 1} for v in f.data_vars})
            q['forcing'] = d + '/packed.nc'
        elif how == 'domain types':
            m, s = w.domain_ds(), w.state_ds()
            m['elev'] = m['elev'].astype(['i4', 'f4'][case['flip']])
            m['mask'] = m['mask'].astype(['f8', 'i1', 'i8', 'i2'][
                case['extra']])
            if w.t_pk is not None:
                m['t_pk'] = m['t_pk'].astype(['f4', 'i4'][case['flip']])
                m['dur'] = m['dur'].astype(['i4', 'f4'][case['flip']])
            for v in ('prec', 't_min', 't_max'):
                s[v] = s[v].astype(['i4', 'f4', 'i2'][case['cut'] % 3])
            m.to_netcdf(d + '/m2.nc')
            s.to_netcdf(d + '/s2.nc')
            q.update(domain=d + '/m2.nc', state=d + '/s2.nc')
        elif how in ('ints', 'float32'):
            kind = 'f4' if how == 'float32' else ['i4', 'i2'][case['flip']]
            for v in f.data_vars:
                f[v] = f[v].astype(kind)
            f.to_netcdf(d + '/typed.nc')
            q['forcing'] = d + '/typed.nc'
        world.run_metsim(q)
        b = Out(q['out_dir'])
    tol = {'packed': 1e-6, 'float32': 1e-4}.get(how, 1e-9)
    same_output('{} forcing against netCDF'.format(how), a, b,
                sorted(p['out_vars']), rtol=tol, atol=tol)
