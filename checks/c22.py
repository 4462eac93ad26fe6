"""C22 Runs of different time steps agree with each other"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C22'
RULE = ('the same world of 1-3 cells run with a fine step, a coarse step that '
        'is a multiple of it, and daily: sums (precipitation), means '
        '(shortwave, cloud fraction, wind) and values at the same instant '
        '(temperature and what derives from it) agree; all schemes, local '
        'and UTC, mtclim and passthrough; non-trivial: wet and sunny')
BUDGET = {'quick': 28, 'thorough': 500}
PAIRS = [(f, g) for f in gen.STEPS for g in gen.STEPS
         if g > f and g % f == 0 and f >= 3]


@st.composite
def _cases(draw):
    cfg = gen.cfgs(
        prec_type=gen.maybe(st.sampled_from(['uniform', 'triangle', 'mix'])),
        utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        method=st.sampled_from([None, None, 'passthrough']),
        sw_averaging=gen.maybe(st.just('daylight')),
        **dict(gen.TUNING, **gen.LW))
    c = draw(gen.worlds(long=[13, 34], cfg=cfg, days=(1, 5), max_cells=3, triangle=True,
                        wind='maybe'))
    c['steps'] = list(draw(st.one_of(
        st.sampled_from([(30, 60), (60, 180), (60, 360), (30, 360),
                         (15, 60), (60, 120), (180, 360), (10, 30)]),
        st.sampled_from(PAIRS))))
    return c


def strategy(tier):
    return _cases()


def run_case(case, ctx):
    f, g = case['steps']
    r = g // f
    base = case['cfg']
    outs = {}
    for ts in (f, g, 1440):
        w = World(case)
        w.cfg = dict(base, time_step=ts)
        if base.get('method') == 'passthrough':
            k = np.arange(w.nd)[:, None] + np.arange(w.ncell)[None, :]
            w.extra['shortwave'] = 20. + 31. * (k % 7)
        with scratch() as d:
            w, outs[ts], p = simulate(case, d, w)
    label_world(ctx, w)
    ctx.label('ratio:{}'.format(r if r < 7 else '7+'))
    utc = bool(base.get('utc_offset'))
    act = w.active()
    fine, coarse, daily = outs[f], outs[g], outs[1440]
    ctx.nontrivial((w.prec[:, act] > 0).any())

    def at(o, v):
        return o.cells(v)[:, act]

    def grouped(o, v, n):
        a = at(o, v)
        return a.reshape(-1, n, a.shape[1])

    if len(fine.time) != len(coarse.time) * r:
        fail('{} steps of {} min and {} of {} min', len(fine.time), f,
             len(coarse.time), g)
    # time stamps
    a, b = fine.stamps(), coarse.stamps()
    want = a[r - 1::r] if base.get('period_ending') else a[::r]
    if list(want) != list(b):
        fail('time stamps of {} and {} min steps do not match', f, g)
    mid = '{} of {} min steps against {} min'
    assert_close(mid.format('precipitation', g, f), at(coarse, 'prec'),
                 grouped(fine, 'prec', r).sum(axis=1), rtol=1e-9, atol=1e-9)
    for v in ('shortwave', 'tskc', 'wind'):
        if v in fine.vars:
            assert_close(mid.format(v, g, f), at(coarse, v),
                         grouped(fine, v, r).mean(axis=1), rtol=1e-9,
                         atol=1e-7)
    # values at the end of each step
    same = {v: grouped(fine, v, r)[:, -1] for v in (
        'temp', 'air_pressure', 'vapor_pressure', 'rel_humid', 'spec_humid',
        'longwave')}
    n = len(b)
    for v in same:
        sel = np.ones(n, bool)
        if v not in ('temp', 'air_pressure'):
            # the ends of the record are filled step by step
            sel = interior(w, dict(time_step=g, utc_offset=True), n,
                           days=2 if utc else 1)
        if v == 'longwave' and not utc or v != 'longwave':
            if sel.any():
                assert_close(mid.format(v, g, f), at(coarse, v)[sel],
                             same[v][sel], rtol=1e-8, atol=1e-9)
    # daily
    per = 1440 // f
    day = daily.stamps()
    if len(day) != w.nd:
        fail('{} daily steps for {} days', len(day), w.nd)
    if utc:
        return
    assert_close('daily precipitation against {} min'.format(f),
                 at(daily, 'prec'), grouped(fine, 'prec', per).sum(axis=1),
                 rtol=1e-9, atol=1e-9)
    for v in ('tskc', 'wind'):
        if v in fine.vars:
            assert_close('daily {} against {} min'.format(v, f),
                         at(daily, v), grouped(fine, v, per).mean(axis=1),
                         rtol=1e-9, atol=1e-9)
    sw, sub = at(daily, 'shortwave'), grouped(fine, 'shortwave',
                                              per).mean(axis=1)
    sun = at(daily, 'daylength') > 1200
    assert_close('daily shortwave against {} min'.format(f), sub[sun],
                 sw[sun], rtol=1e-3, atol=.02)
    t = grouped(fine, 'temp', per)
    lo, hi = at(daily, 't_min'), at(daily, 't_max')
    pad = np.concatenate([w.s_tmin[-1:, act], lo, lo[-1:]])
    lo3 = np.minimum(np.minimum(pad[:-2], pad[1:-1]), pad[2:])
    pad = np.concatenate([w.s_tmax[-1:, act], hi, hi[-1:]])
    hi3 = np.maximum(np.maximum(pad[:-2], pad[1:-1]), pad[2:])
    assert_between('temperatures of a day against the daily extremes', t,
                   lo3[:, None] - 1e-9, hi3[:, None] + 1e-9)
