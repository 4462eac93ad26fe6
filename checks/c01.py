"""C01 Disaggregation neither creates nor loses precipitation"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.common import *
from vlib.world import scratch

PROP = 'C01'
RULE = ('worlds with 1-4 cells, 1-8 days, any latitude, all precipitation '
        'schemes, steps of 1-360 min and daily, local or UTC time, several '
        'output files; non-trivial: at least two wet cell-days with '
        'different amounts')
BUDGET = {'quick': 40, 'thorough': 900}
ASSUMPTIONS = ['UTC output is exact for the record as a whole only: what '
               'falls off one end of the record is defined to re-enter at '
               'the other']


def strategy(tier):
    cfg = gen.cfgs(
        time_step=st.one_of(gen.steps(True), st.just(1440)),
        prec_type=gen.maybe(st.sampled_from(
            ['uniform', 'triangle', 'mix', 'TRIANGLE', 'Mix'])),
        utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        out_freq=gen.maybe(st.sampled_from(['D', '2D', 'MS', '12H', 'A'])),
        out_precision=st.sampled_from(['f8', 'f8', 'f4']),
        sw_prec_thresh=gen.TUNING['sw_prec_thresh'])
    return gen.worlds(long=True, triangle=True, cfg=cfg, wind='maybe')


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    with scratch() as d:
        w, out, p = simulate(case, d, w)
    ts = int(p['time_step'])
    check_grid(w, out, ['prec'])
    got = out.cells('prec')
    act = w.active()
    wet = w.prec[:, act]
    ctx.nontrivial(len(set(wet[wet > 0].tolist())) >= 2)
    ctx.label('wet' if wet.any() else 'dry')
    n = w.nd * 1440 // ts
    if len(got) != n:
        fail('{} time steps instead of {}', len(got), n)
    got = got[:, act]
    if not np.isfinite(got).all():
        fail('precipitation is not finite')
    if (got < 0).any():
        fail('precipitation is negative: {!r}', float(got.min()))
    eps = 1e-9 if p['out_precision'] == 'f8' else 2e-5
    assert_close('total precipitation of the record', got.sum(axis=0),
                 wet.sum(axis=0), atol=1e-9, rtol=eps)
    if not p.get('utc_offset') or ts == 1440:
        days = got.reshape(w.nd, -1, len(act)).sum(axis=1)
        assert_close('daily precipitation', days, wet, atol=1e-9, rtol=eps)
