"""C10 Chunks, scheduler and number of workers do not change the results"""
from hypothesis import strategies as st

from vlib import gen
from vlib.common import *
from vlib.world import scratch

PROP = 'C10'
RULE = ('worlds of 4-9 cells run whole and single-threaded, and again with '
        'drawn chunks (along all, some or none of the dimensions, sizes up '
        'to beyond the dimension, as number or text), scheduler and number '
        'of workers, one or several output files, one or several netCDF '
        'files or data in memory; non-trivial: more than one chunk with active cells')
BUDGET = {'quick': 22, 'thorough': 300}
# for what threads do only now and then
REPLAYS = 8


@st.composite
def _cases(draw, tier):
    cfg = gen.cfgs(
        time_step=st.sampled_from([60, 180, 360, 1440]),
        prec_type=gen.maybe(st.sampled_from(['triangle', 'mix'])),
        utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        out_freq=gen.maybe(st.sampled_from(['D', '2D', 'MS', '12H'])),
        out_precision=st.sampled_from(['f8', 'f4']),
        constant_vars=gen.maybe(st.just({'wind': 2.5})))
    c = draw(gen.worlds(long=[13, 34], cfg=cfg, days=(1, 4), max_cells=9, min_cells=4, triangle=True,
                        wind='maybe'))
    g = c['grid']
    dims = {'latlon': ['lat', 'lon'], 'lonlat': ['lon', 'lat'],
            'hru': ['hru'], 'yx': ['y', 'x']}[g['kind']]
    use = draw(st.sampled_from(
        [dims, dims, dims, dims[:1], dims[-1:], dims[::-1]]))
    size = st.one_of(st.just(1), st.just(1), st.integers(1, 2),
                     st.integers(1, 12))
    c['chunks'] = {k: draw(st.one_of(size, size.map(str))) for k in use}
    # chunks of both kinds are the point; now and then none at all
    if draw(st.integers(0, 9)) == 0:
        c['chunks'] = {}
    c['scheduler'] = draw(st.sampled_from(
        ['single-threaded', 'threading', 'threads', 'threading', 'sync',
         'synchronous', 'threading', 'threading']
        + ['multiprocessing' if draw(st.integers(0, 2)) == 0 else 'threads']))
    c['workers'] = draw(st.integers(1, 4))
    c['data'] = draw(st.sampled_from(['netcdf', 'netcdf', 'data', 'parts']))
    c['first'] = draw(st.integers(0, 3)) == 0
    return c


def strategy(tier):
    return _cases(tier)


def n_chunks(w, chunks):
    """Chunks that contain active cells"""
    act = np.argwhere(w.mask.reshape(w.shape) > 0)
    keys = set()
    for ix in act:
        keys.add(tuple(ix[k] // int(chunks[d]) if d in chunks else 0
                       for k, d in enumerate(w.dims)))
    return len(keys)


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    ctx.label('scheduler:' + case['scheduler'], 'input:' + case['data'])
    n = n_chunks(w, case['chunks'])
    ctx.nontrivial(n > 1)
    ctx.label('chunks:{}'.format('1' if n == 1 else '2-4' if n < 5 else '5+'))
    over = {'scheduler': case['scheduler'], 'chunks': case['chunks'],
            'num_workers': case['workers']}
    with scratch() as d:
        w, a, p = simulate(case, d, w)
    with scratch() as d:
        if case['data'] == 'data':
            over.update(forcing=w.forcing_ds(), forcing_fmt='data')
        elif case['data'] == 'parts':
            # up to four files
            n, f = -(-w.nd // 4), w.forcing_ds()
            for i in range(0, w.nd, n):
                f.isel(time=slice(i, i + n)).to_netcdf(
                    '{}/part{:04d}.nc'.format(d, i))
            over.update(forcing=d + '/part*.nc')
        if case.get('first'):
            # a whole run before it, in the same process
            simulate(case, d, w, **dict(
                over, scheduler='single-threaded', chunks={}))
        _, b, _ = simulate(case, d, w, **over)
    same_files('run in chunks', a, b)


def same_files(what, a, b):
    if [q['file'] for q in a.parts] != [q['file'] for q in b.parts]:
        fail('{}: output files {} instead of {}', what,
             [q['file'] for q in b.parts], [q['file'] for q in a.parts])
    if a.dims != b.dims:
        fail('{}: dimensions {} instead of {}', what, b.dims, a.dims)
    same_output(what, a, b, rtol=0, atol=0)


def _case(kind, scheduler, chunks, **cfg):
    n = 4
    lat, lon = ([10., 11.], [20., 21.])
    if kind == 'hru':
        lat, lon = [10., 11., 12., -13.], [20., 21., 0., 5.]
    return {'grid': {'kind': kind, 'lat': lat, 'lon': lon},
            'mask': [1, 0, 1, 1], 'elev': [10, 200, 0, 1000],
            'start': '2001-02-27', 'nd': 3,
            'tmin': [[k + 11 * c - 20 for c in range(n)] for k in range(3)],
            'dtr': [[80 + k + c for c in range(n)] for k in range(3)],
            'prec': [[10 * k + c for c in range(n)] for k in range(3)],
            'wind': None, 'st': {'tmin': 10, 'dtr': [90], 'prec': [20],
                                 'ramp': 3},
            'cfg': dict({'time_step': 180}, **cfg), 'chunks': chunks,
            'scheduler': scheduler, 'workers': 2, 'data': 'netcdf'}


CORPUS = [
    _case('latlon', 'multiprocessing', {'lat': 1, 'lon': 1}),
    _case('yx', 'processes', {'x': 1}, out_freq='D'),
    _case('hru', 'distributed', {'hru': 1}),
    _case('latlon', 'threading', {'lat': 1, 'lon': 1}, out_freq='D'),
    _case('lonlat', 'single-threaded', {'lat': 1}),
    dict(_case('latlon', 'single-threaded', {'lat': 1, 'lon': 2}),
         data='data'),
    _case('hru', 'threads', {'hru': 3}, out_freq='2D'),
] + [dict(_case('latlon', 'threading', {'lat': 1, 'lon': 1}), data='parts',
          first=True, workers=4, again=k) for k in range(14)]
