"""C13 Values are in the units that the file says, under the requested name"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C13'
RULE = ('runs of 1-2 cells, 1-4 days, daily and sub-daily, whose output '
        'variables ask for every documented unit, for units that do not '
        'exist or for none, under arbitrary output names, compared with a '
        'run on default units and with the inputs; non-trivial: at least '
        'two variables in a unit that is not the default')
BUDGET = {'quick': 34, 'thorough': 700}
ASSUMPTIONS = ['kPa is the spelling of the unit (the documentation also has '
               'KPa)']

UNITS = {
    'pet': ['mm timestep-1', 'mm h-1', 'mm s-1'],
    'prec': ['mm timestep-1', 'mm h-1', 'mm s-1'],
    'shortwave': ['W m-2'], 'longwave': ['W m-2'],
    't_max': ['C', 'K'], 't_min': ['C', 'K'], 'temp': ['C', 'K'],
    'vapor_pressure': ['Pa', 'hPa', 'kPa'],
    'air_pressure': ['kPa', 'hPa', 'Pa'],
    'tskc': ['fraction', '%'], 'rel_humid': ['%', 'fraction'],
    'spec_humid': ['g g-1'], 'wind': ['m s-1'], 'daylength': ['s']}
BOGUS = ['furlong', 'degF', 'mm', '', 'PA']


@st.composite
def _cases(draw):
    ts = draw(st.one_of(st.just(1440), gen.steps(True), gen.steps(True)))
    names = world.DAY_VARS if ts == 1440 else world.SUB_VARS
    cfg = gen.cfgs(
        time_step=st.just(ts),
        prec_type=gen.maybe(st.sampled_from(['triangle', 'mix'])),
        utc_offset=gen.maybe(st.booleans()),
        out_freq=gen.maybe(st.just('D')),
        scheduler=st.just('single-threaded'))
    c = draw(gen.worlds(long=[13, 34], cfg=cfg, days=(1, 4), max_cells=2, triangle=True))
    pick = draw(st.lists(st.sampled_from(names), min_size=1, unique=True))
    pick = draw(st.permutations(pick))
    out = {}
    for k, v in enumerate(pick):
        conf = {'out_name': draw(st.sampled_from(
            [v, v, v.upper(), 'x{}'.format(k), 'my_' + v,
             # the name of another variable
             'q_' + names[(names.index(v) + 1) % len(names)]]))}
        u = draw(st.one_of(st.sampled_from(UNITS[v]),
                           st.sampled_from(UNITS[v][::-1]),
                           st.just(None),
                           st.sampled_from(BOGUS)))
        if u is not None:
            conf['units'] = u
        out[v] = conf
    c['out'] = [[v, out[v]] for v in pick]
    return c


def strategy(tier):
    return _cases()


def to_si(v, units, ts, x):
    """Value in base units from the value in the unit a file declares"""
    factor = {'mm timestep-1': 1. / (ts * 60.), 'mm h-1': 1 / 3600.,
              'mm s-1': 1., 'W m-2': 1., 'Pa': 1., 'hPa': 100., 'kPa': 1000.,
              'fraction': 1., '%': .01, 'g g-1': 1., 'm s-1': 1., 's': 1.,
              'K': 1., 'C': 1.}.get(units)
    if factor is None:
        fail('{} is in the unknown unit {!r}', v, units)
    x = np.asarray(x, float)
    return x + 273.15 if units == 'C' else x * factor


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    ts = int(w.cfg['time_step'])
    names = [v for v, _ in case['out']]
    conf = dict((v, dict(c)) for v, c in case['out'])
    with scratch() as d:
        w, a, p = simulate(case, d, w)
    case2 = copy_case(case)
    with scratch() as d:
        _, b, _ = simulate(case2, d, out_vars=copy_case(conf))
    coords = set(w.dims) | {'time', 'lat', 'lon'}
    want = sorted(conf[v]['out_name'] for v in names)
    if sorted(k for k in b.vars if k not in coords) != want:
        fail('output has {} instead of {}', sorted(b.vars), want)
    ctx.nontrivial(sum(conf[v].get('units') in UNITS[v][1:] for v in names)
                   > 1)
    act = w.active()
    cells = {v: a.cells(v)[:, act] for v in p['out_vars']}
    for v in p['out_vars']:
        if a.attrs[v].get('units') != UNITS[v][0]:
            fail('{} without a unit is in {!r} instead of the default {!r}',
                 v, a.attrs[v].get('units'), UNITS[v][0])
    for v in names:
        c = conf[v]
        at = b.attrs[c['out_name']]
        unit = c.get('units')
        want = unit if unit in UNITS[v] else UNITS[v][0]
        ctx.label('unit:' + ('none' if unit is None else 'unknown' if unit
                             not in UNITS[v] else 'default' if
                             unit == UNITS[v][0] else 'converted'))
        if at.get('units') != want:
            fail('{} requested in {!r} is declared to be in {!r} instead of '
                 '{!r}', v, unit, at.get('units'), want)
        for k in ('long_name', 'standard_name'):
            if at.get(k) != a.attrs[v].get(k):
                fail('{} of {} is {!r}, with the default name and unit it is '
                     '{!r}', k, v, at.get(k), a.attrs[v].get(k))
        x = to_si(v, UNITS[v][0], ts, cells[v])
        y = to_si(v, want, ts, b.cells(c['out_name'])[:, act])
        assert_close('{} in {} (as base unit) against the default unit'
                     .format(v, want), y, x, rtol=1e-9, atol=1e-12)
    physical(w, p, ts, cells, act, ctx)


def physical(w, p, ts, got, act, ctx):
    """Default units against the inputs, which are in mm, C and m s-1"""
    n = w.nd
    if ts == 1440:
        assert_close('t_min (C)', got['t_min'], w.t_min[:, act], atol=1e-9)
        assert_close('t_max (C)', got['t_max'], w.t_max[:, act], atol=1e-9)
        assert_close('prec (mm)', got['prec'], w.prec[:, act], atol=1e-9)
        assert_close('wind (m s-1)', got['wind'], w.wind[:, act], atol=1e-9)
        e = got['vapor_pressure']
        # dew point below the saturation at a temperature close to t_min
        assert_between('daily vapor pressure (Pa)', e, 0.,
                       1.5 * ref.svp(w.t_min[:, act] + 8.))
        dry = ref.svp(w.t_min[:, act] - 45.)
        assert_between('daily vapor pressure (Pa)', e, dry / 4, 1e9)
        return
    if not p.get('utc_offset'):
        day = got['prec'].reshape(n, -1, len(act)).sum(axis=1)
        assert_close('prec (mm)', day, w.prec[:, act], rtol=1e-9, atol=1e-9)
    lo = np.minimum(w.t_min[:, act].min(axis=0), w.s_tmin[-1, act])
    hi = np.maximum(w.t_max[:, act].max(axis=0), w.s_tmax[-1, act])
    assert_between('temp (C)', got['temp'], lo - 1e-6, hi + 1e-6)
    assert_between('wind (m s-1)', got['wind'], w.wind[:, act].min(axis=0)
                   - 1e-9, w.wind[:, act].max(axis=0) + 1e-9)
    pr = np.array([ref.air_pressure_kpa(got['temp'][:, k], float(w.elev[c]),
                                        float(p.get('lapse_rate', .0065)))
                   for k, c in enumerate(act)]).T
    assert_close('air pressure (kPa)', got['air_pressure'], pr, rtol=1e-9)
    # vapour pressure from temperature and relative humidity
    true = got['rel_humid'] / 100. * ref.svp(got['temp'])
    vp = got['vapor_pressure']
    ok = true > 1e-6
    if ok.any():
        ratio = vp[ok] / true[ok]
        if np.all(np.abs(ratio - 1e-3) < 1e-6):
            ctx.finding('K1', 'sub-daily vapor pressure declared in Pa is a '
                        'thousand times too small')
        elif not np.all(np.abs(ratio - 1) < 1e-3):
            fail('vapor pressure declared in Pa is {!r} times that of '
                 'temperature and relative humidity', float(np.median(ratio)))
