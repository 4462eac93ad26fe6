"""C11 Every cell is computed from its own data, found by its coordinates"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C11'
RULE = ('worlds of 2-6 cells that all differ; each case compares a run with '
        'one of: every active cell run alone; other cells given other data; '
        'other cells masked out (their data replaced by garbage or NaN); '
        'forcing and state laid out otherwise (coordinates reversed, '
        'shuffled, covering more cells, dimensions transposed); domain '
        'variables transposed; masked cells activated; non-trivial: at least '
        'two active cells')
BUDGET = {'quick': 32, 'thorough': 600}
ASSUMPTIONS = ['data of masked cells obey t_max >= t_min or are NaN']
HOW = ['layout', 'layout', 'layout', 'others', 'mask', 'alone', 'transpose',
       'unmask']


@st.composite
def _cases(draw):
    cfg = gen.cfgs(
        time_step=st.sampled_from([60, 180, 360, 1440]),
        prec_type=gen.maybe(st.sampled_from(['triangle', 'mix'])),
        utc_offset=gen.maybe(st.booleans()),
        method=gen.maybe(st.just('mtclim')),
        out_freq=gen.maybe(st.sampled_from(['D'])))
    c = draw(gen.worlds(long=[13, 34], kinds=('latlon', 'lonlat', 'hru', 'yx'), cfg=cfg,
                        days=(2, 4), max_cells=6, min_cells=2,
                        triangle=True))
    c['how'] = draw(st.sampled_from(HOW))
    n = len(c['mask'])
    c['perm'] = draw(st.sampled_from(['shuffle', 'reverse', 'more', 'same']))
    c['transpose'] = draw(st.booleans())
    c['straight'] = draw(st.sampled_from(['', 'prec', 't_min', 't_max']))
    c['order'] = draw(st.permutations(list(range(6))))
    c['pick'] = draw(st.integers(0, n - 1))
    c['junk'] = draw(st.sampled_from(['nan', 'number', 'huge']))
    c['fmt'] = draw(st.sampled_from(['netcdf', 'netcdf', 'data']))
    return c


def strategy(tier):
    return _cases()


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    how = case['how']
    ctx.label('relation:' + how)
    act = w.active()
    ctx.nontrivial(len(act) > 1)
    # all cells differ even where the generator drew equal values
    bump = .1 * np.arange(w.ncell)
    w.t_min, w.t_max = w.t_min + bump, w.t_max + 2 * bump
    w.prec = w.prec + np.where(w.prec > 0, bump, 0)
    with scratch() as d:
        p = w.write(d)
        world.run_metsim(p)
        a = Out(p['out_dir'])
    names = sorted(p['out_vars'])
    if how == 'alone':
        for c in act:
            b = alone(case, w, c)
            for v in names:
                assert_close('{} of cell {} run alone'.format(v, c),
                             a.cells(v)[:, c], b.cells(v)[:, 0], rtol=1e-9,
                             atol=1e-9)
        return
    with scratch() as d:
        b = {'others': others, 'mask': others, 'layout': layout,
             'transpose': transpose, 'unmask': others}[how](
                 case, w, d, ctx)
    cells = act
    if how in ('others', 'mask'):
        cells = [act[case['pick'] % len(act)]]
    for v in names:
        assert_close('{} of cells {} ({})'.format(v, list(map(int, cells)),
                                                  how),
                     b.cells(v)[:, cells], a.cells(v)[:, cells], rtol=1e-9,
                     atol=1e-9)
    if how in ('layout', 'transpose'):
        if a.dims != b.dims:
            fail('output dimensions {} instead of {}', b.dims, a.dims)
        for k in w.dims:
            assert_close('coordinate ' + k, b[k], a[k])


def _sub(w, c):
    """The world of cell c only"""
    n = copy_case(w.case)
    n['grid'] = {'kind': 'latlon' if w.kind == 'yx' else w.kind,
                 'lat': [float(w.clat[c])], 'lon': [float(w.clon[c])]}
    n['mask'], n['elev'] = [1], [float(w.elev[c])]
    for k in ('tmin', 'dtr', 'prec', 'wind'):
        if n.get(k) is not None:
            n[k] = [[row[c]] for row in n[k]]
    s = World(n)
    for k in ('t_min', 't_max', 'prec', 's_tmin', 's_tmax', 's_prec', 't_pk',
              'dur'):
        setattr(s, k, getattr(w, k)[:, [c]])
    return s


def alone(case, w, c):
    s = _sub(w, c)
    with scratch() as d:
        p = s.write(d)
        world.run_metsim(p)
        return Out(p['out_dir'])


def others(case, w, d, ctx):
    """Other data, or a mask, in all cells but one"""
    act = w.active()
    keep = act[case['pick'] % len(act)]
    oth = np.arange(w.ncell) != keep
    if case['how'] == 'unmask':
        # activating further cells leaves the active ones alone
        w.mask = np.ones(w.ncell, int)
    elif case['how'] == 'mask':
        w.mask = np.where(oth, 0, 1)
        junk = {'nan': np.nan, 'number': -3., 'huge': 9.96921e36}[case['junk']]
        ctx.label('junk:' + case['junk'])
        for k in ('t_min', 't_max', 'prec', 's_tmin', 's_tmax', 's_prec',
                  't_pk', 'dur', 'wind'):
            v = getattr(w, k).astype(float)
            v[:, oth] = junk
            setattr(w, k, v)
        w.elev[oth] = junk
    else:
        for k in ('t_min', 't_max', 's_tmin', 's_tmax'):
            v = getattr(w, k).copy()
            v[:, oth] = v[:, oth] + (3.7 if 'min' in k else 6.3)
            setattr(w, k, v)
        for k in ('prec', 's_prec'):
            v = getattr(w, k).copy()
            v[:, oth] = 4.4 + 2 * v[:, oth]
            setattr(w, k, v)
        w.t_pk = np.where(oth, (w.t_pk + 333) % 1380, w.t_pk)
        w.elev = np.where(oth, w.elev + 777., w.elev)
        w.wind = np.where(oth, w.wind + 5., w.wind)
    p = w.write(d)
    world.run_metsim(p)
    return Out(p['out_dir'])


def layout(case, w, d, ctx):
    """Forcing and state stored in another order than the domain"""
    p = w.write(d)
    f, s = w.forcing_ds(), w.state_ds()
    ctx.label('layout:' + case['perm'])
    coord = [k for k in w.dims if k in f.coords]

    def relay(ds, flip):
        for k in coord:
            n = ds.sizes[k]
            if case['perm'] == 'reverse':
                ds = ds.isel({k: slice(None, None, -1)})
            elif case['perm'] == 'shuffle':
                o = [i for i in case['order'] if i < n]
                o += [i for i in range(n) if i not in o]
                ds = ds.isel({k: o[::-1] if flip else o})
            elif case['perm'] == 'more':
                # neighbours that are not part of the domain
                lo, hi = float(ds[k].min()), float(ds[k].max())
                if k == 'lat' and (lo - 1.03 < -90 or hi + 1.03 > 90):
                    continue
                far = ds.isel({k: [0, 0]}).assign_coords(
                    {k: [lo - 1.03, hi + 1.03]}) + 1.
                far['t_max'] = far['t_max'] + 5.
                ds = xr.concat([far.isel({k: [1]}), ds, far.isel({k: [0]})],
                               dim=k)
        if case['transpose']:
            order = list(w.dims)[::-1] + ['time']
            ds = ds.transpose(*order)
        return ds
    f, s = relay(f, False), relay(s, True)
    # variables of differing layout
    if case['transpose'] and case['straight']:
        k = case['straight']
        f[k] = f[k].transpose('time', *w.dims)
    f.to_netcdf(d + '/f2.nc')
    s.to_netcdf(d + '/s2.nc')
    p['forcing'], p['state'] = d + '/f2.nc', d + '/s2.nc'
    if case['fmt'] == 'data':
        p['forcing'], p['forcing_fmt'] = f, 'data'
        ctx.label('in memory')
    world.run_metsim(p)
    return Out(p['out_dir'])


def transpose(case, w, d, ctx):
    """Domain variables whose dimensions are ordered unlike the mask's"""
    p = w.write(d)
    m = w.domain_ds()
    for k in ('elev', 'lat', 'lon'):
        if set(m[k].dims) == set(w.dims):
            m[k] = m[k].transpose(*w.dims[::-1])
    for k in ('t_pk', 'dur'):
        m[k] = m[k].transpose(*(w.dims[::-1] + ('month',)))
    m.to_netcdf(d + '/m2.nc')
    p['domain'] = d + '/m2.nc'
    world.run_metsim(p)
    return Out(p['out_dir'])
