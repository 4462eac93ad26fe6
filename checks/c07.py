"""C07 Daily output equals the MT-CLIM estimates for the cell's data"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.common import *
from vlib.world import scratch

PROP = 'C07'
RULE = ('daily runs of worlds of 1-6 cells, 1-12 days, all latitudes, '
        'elevations, dates and tuning options, wet and dry seasons; '
        'non-trivial: wet and dry days both occur')
BUDGET = {'quick': 60, 'thorough': 1200}
ASSUMPTIONS = ['the iteration for dewpoint stops at a root mean square '
               'change of tdew_tol; vapour pressure is compared to 100 times '
               'the relative effect of that tolerance']


def strategy(tier):
    cfg = gen.cfgs(
        time_step=st.just(1440), lw_cloud=gen.LW['lw_cloud'],
        tdew_tol=gen.maybe(st.sampled_from([1e-6, 1e-8, 1e-4])),
        utc_offset=gen.maybe(st.booleans()), **gen.TUNING)
    return gen.worlds(long=True, cfg=cfg, days=(1, 12), max_cells=6, wind='maybe')


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    with scratch() as d:
        w, out, p = simulate(case, d, w)
    tol = float(p.get('tdew_tol', 1e-6))
    names = [v for v in world.DAY_VARS if v != 'wind' or w.wind is not None]
    check_grid(w, out, names)
    rel = max(1e-6, 20 * tol)
    for c in w.active():
        day = ref_daily(w, c)
        pr = w.prec[:, c]
        ctx.nontrivial((pr > 0).any() and (pr == 0).any())
        if (day['season'] <= 80.).any():
            ctx.label('dry season')
        if (day['season'] > 80.).any():
            ctx.label('wet season')
        want = dict(day, shortwave=day['shortwave'] * day['daylength'] / 86400.)
        if w.wind is not None:
            want['wind'] = w.wind[:, c]
        for v in names:
            r = {'vapor_pressure': rel, 'shortwave': rel, 'pet': rel,
                 'daylength': 1e-7}.get(v, 1e-10)
            assert_close('daily {} of cell {} (latitude {}, elevation {})'
                         .format(v, c, w.clat[c], w.elev[c]),
                         out.cells(v)[:, c], want[v], rtol=r, atol=1e-9)
