"""C23 Every requested value is there, finite and physically possible"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C23'
RULE = ('worlds of 1-12 cells over the whole globe with weather from '
        'ordinary to extreme (-70..50 C, no diurnal range, metres of rain, '
        'droughts, -400..8000 m), every option, any requested subset of the '
        'variables under drawn names, masks of any number type and value; '
        'non-trivial: at least two variables and two active cells')
BUDGET = {'quick': 40, 'thorough': 900}
ASSUMPTIONS = ['cloud fraction is bounded by 1 for lw_cloud=cloud_deardorff '
               'only: the other formula, which its authors give for '
               'transmittances above 0.35, exceeds it']


@st.composite
def _cases(draw):
    ts = draw(st.one_of(st.just(1440), gen.steps(True)))
    cfg = gen.cfgs(
        time_step=st.sampled_from([ts, str(ts)]),
        utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        out_precision=st.sampled_from(['f8', 'f4']),
        out_freq=gen.maybe(st.sampled_from(['D', 'MS', '12H', '2D'])),
        prec_type=gen.maybe(st.sampled_from(['uniform', 'triangle', 'mix'])),
        **dict(gen.TUNING, **gen.LW))
    extreme = draw(st.booleans())
    c = draw(gen.worlds(
        long=True, cfg=cfg, days=(1, 5), max_cells=12, max_side=6, triangle=True,
        temp=gen.temps(-700, 450) if extreme else None,
        dtr=st.one_of(st.just(0), st.integers(0, 350)) if extreme else None))
    names = world.DAY_VARS if ts == 1440 else world.SUB_VARS
    c['outs'] = draw(st.one_of(st.just(names), st.lists(
        st.sampled_from(names), min_size=1, unique=True)))
    c['rename'] = draw(st.lists(st.sampled_from(
        ['', 'x_', 'Out.', 'var-']), min_size=3, max_size=3))
    if extreme:
        n = len(c['mask'])
        c['elev'] = draw(st.lists(st.sampled_from(
            [-400, 0, 10, 8000, 5000.25, -50, 1]), min_size=n, max_size=n))
        c['prec'] = [[draw(st.sampled_from([0, 0, 1, 30000, 5000, 3]))
                      for _ in range(n)] for _ in range(c['nd'])]
        # what the atmosphere could conceivably hold: 55 C at most
        c['dtr'] = [[min(x, 550 - y) for x, y in zip(a, b)]
                    for a, b in zip(c['dtr'], c['tmin'])]
    c['extreme'] = extreme
    c['on'] = draw(st.sampled_from([1, 1, 2, 0.5, 100]))
    c['off'] = draw(st.sampled_from([0, 0, -1, None]))
    return c


def strategy(tier):
    return _cases()


BOUNDS = {'prec': (0, np.inf), 'shortwave': (0, 1600), 'longwave': (1, 1500),
          'rel_humid': (0, 100), 'spec_humid': (0, .35),
          'air_pressure': (1, 120), 'vapor_pressure': (0, 20000),
          'tskc': (0, 1), 'pet': (-1, 40), 'daylength': (0, 86400),
          'wind': (0, 15.0001), 'temp': (-71, 81), 't_min': (-71, 46),
          't_max': (-71, 81)}


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    ts = int(w.cfg['time_step'])
    ctx.label('extreme' if case['extreme'] else 'ordinary')
    names = case['outs']
    ctx.nontrivial(len(names) > 1 and len(w.active()) > 1)
    act = w.mask > 0
    outs = {v: {'out_name': case['rename'][i % 3] + v}
            for i, v in enumerate(names)}
    # days of sun of seconds have no sensible daylight averages
    with scratch() as d:
        p = w.write(d)
        m = w.domain_ds()
        off = np.nan if case['off'] is None else case['off']
        m['mask'] = (w.dims, w.grid(np.where(act, float(case['on']), off)))
        m.to_netcdf(d + '/domain2.nc')
        p.update(domain=d + '/domain2.nc', out_vars=outs)
        world.run_metsim(p)
        out = Out(p['out_dir'])
    want = {v['out_name'] for v in outs.values()}
    n = w.nd * 1440 // ts
    for q in out.parts:
        if set(q['vars']) != want | set(w.dims):
            fail('{} holds {} instead of {}', q['file'], sorted(q['vars']),
                 sorted(want | set(w.dims)))
        for v in want:
            if q['dims'][v] != ('time',) + w.dims:
                fail('{} has dimensions {}', v, q['dims'][v])
            if q['dtype'][v] != np.dtype(p['out_precision']):
                fail('{} has type {} instead of {}', v, q['dtype'][v],
                     p['out_precision'])
        for k in w.dims:
            exp = w.coords.get(k, np.arange(w.shape[w.dims.index(k)]))
            assert_close('coordinate ' + k, q['vars'][k], exp)
    for v in names:
        a = out.cells(outs[v]['out_name'])
        if a.shape != (n, w.ncell):
            fail('{} has shape {} instead of {}', v, a.shape, (n, w.ncell))
        on, rest = a[:, act], a[:, ~act]
        if not np.isfinite(on).all() or (np.abs(on) > 1e30).any():
            fail('{} is not finite in {} of {} values of active cells', v,
                 int((~np.isfinite(on) | (np.abs(on) > 1e30)).sum()), on.size)
        if not (np.isnan(rest) | (np.abs(rest) > 9e36)).all():
            fail('{} has values in cells that are masked out', v)
        lo, hi = BOUNDS[v]
        if v == 'tskc' and w.cfg.get('lw_cloud') == 'default':
            hi = 1.3
        s = 1e-5 * max(abs(lo), min(abs(hi), 1e5)) if v != 'temp' else 1e-3
        assert_between(v, on, lo - (0 if lo == 0 else s), hi + s)
    if 't_min' in names and 't_max' in names:
        a = out.cells(outs['t_min']['out_name'])[:, act]
        b = out.cells(outs['t_max']['out_name'])[:, act]
        if (a > b).any():
            fail('minimum temperature above the maximum')
