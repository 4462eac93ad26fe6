"""C06 Longwave radiation follows the configured emissivity schemes"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.common import *
from vlib.world import scratch

PROP = 'C06'
RULE = ('worlds of 1-3 cells, every lw_type x lw_cloud (any capitalization), '
        'temperatures -70..45 C, with and without a supplied daily mean, '
        'local and UTC time; non-trivial: cloudy and clear days both occur')
BUDGET = {'quick': 42, 'thorough': 800}


def strategy(tier):
    def caps(s):
        return st.one_of(s, s, s.map(str.upper), s.map(str.capitalize))
    cfg = gen.cfgs(
        time_step=gen.steps(),
        utc_offset=gen.maybe(st.booleans()),
        lw_type=gen.maybe(caps(st.sampled_from(gen.LW_TYPES))),
        lw_cloud=gen.maybe(caps(st.sampled_from(
            ['default', 'cloud_deardorff']))),
        period_ending=gen.maybe(st.booleans()),
        method=st.sampled_from(['mtclim', 'mtclim', 'passthrough']))
    base = gen.worlds(long=True, cfg=cfg, wind=False, days=(1, 6), max_cells=3,
                      temp=gen.temps(-700, 420))
    return st.tuples(base, st.lists(st.integers(60, 450), min_size=3,
                                    max_size=3),
                     st.sampled_from(['sw', 'sw+lw', 'sw+lw+tskc'])).map(
        lambda t: dict(t[0], lw=t[1], given=t[2]))


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    if w.cfg.get('method') == 'passthrough':
        k = np.arange(w.nd)[:, None] + np.arange(w.ncell)[None, :]
        w.extra['shortwave'] = 20. + k
        if 'lw' in case['given']:
            w.extra['longwave'] = np.array(case['lw'], float)[k % 3]
        if 'tskc' in case['given']:
            w.extra['tskc'] = np.array([0., .35, 1.])[k % 3]
        ctx.label('given:' + case['given'])
    with scratch() as d:
        w, out, p = simulate(case, d, w)
    ts = int(p['time_step'])
    n, per = w.nd * 1440 // ts, 1440 // ts
    o = {v: out.cells(v) for v in ('temp', 'vapor_pressure', 'tskc',
                                   'longwave')}
    for v, a in o.items():
        if a.shape[0] != n:
            fail('{} has {} steps instead of {}', v, a.shape[0], n)
    lw_type = p.get('lw_type', 'prata')
    lw_cloud = p.get('lw_cloud', 'cloud_deardorff')
    for c in w.active():
        day = ref_daily(w, c, given={k: v[:, c] for k, v in w.extra.items()})
        ctx.nontrivial(np.ptp(day['tskc']) > .05)
        temp, tskc = o['temp'][:, c], o['tskc'][:, c]
        sel = interior(w, p, n)
        assert_close('cloud fraction of cell {}'.format(c), tskc[sel],
                     ref.constant_steps(day['tskc'], p,
                                        float(w.clon[c]))[sel],
                     rtol=1e-9, atol=1e-9)
        vp = vp_kpa(o['vapor_pressure'][:, c],
                    np.minimum(np.median(day['vapor_pressure']),
                               ref.svp(temp)) / 1000.)
        want = ref.longwave(temp, vp, tskc, lw_type, lw_cloud)
        if 'longwave' in w.extra:
            f = w.extra['longwave'][:, c] / want.reshape(w.nd, per).mean(axis=1)
            want = want * np.repeat(f, per)
        assert_close('longwave of cell {} ({}, {})'.format(
            c, lw_type, lw_cloud), o['longwave'][:, c], want, rtol=1e-8)
        if (o['longwave'][:, c] <= 0).any():
            fail('longwave is not positive')
