"""C05 Sub-daily shortwave keeps the day's energy and follows the sun"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.common import *
from vlib.world import scratch

PROP = 'C05'
RULE = ('worlds of 1-3 cells over all latitudes (polar day and night '
        'included), dates (leap days, year ends), steps of 1-360 min, local '
        'and UTC time, both methods; non-trivial: a day with sunrise and '
        'sunset and a non-zero estimate')
BUDGET = {'quick': 40, 'thorough': 800}
ASSUMPTIONS = [
    'half-minute radiation grid: a step may be off by one half-minute sample '
    'plus 0.4 % of the day\'s peak; a day\'s energy by 0.1 %',
    'passthrough radiation on days without sun has no steps to go to and is '
    'not compared']


def strategy(tier):
    cfg = gen.cfgs(
        time_step=gen.steps(True),
        utc_offset=gen.maybe(st.booleans()),
        lapse_rate=gen.TUNING['lapse_rate'],
        rain_scalar=gen.TUNING['rain_scalar'],
        period_ending=gen.maybe(st.booleans()),
        method=st.sampled_from(['mtclim', 'mtclim', 'passthrough']),
        sw_averaging=gen.maybe(st.just('daylight')),
        out_vars=gen.maybe(st.just(
            {'shortwave': {'out_name': 'shortwave'}})))
    base = gen.worlds(long=True, cfg=cfg, wind=False, days=(1, 8), max_cells=3)
    return st.tuples(base, st.lists(st.integers(0, 400), min_size=3,
                                    max_size=3)).map(
        lambda t: dict(t[0], sw=t[1]))


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    if w.cfg.get('method') == 'passthrough':
        k = np.arange(w.nd)[:, None] + np.arange(w.ncell)[None, :]
        w.extra['shortwave'] = np.array(case['sw'], float)[k % 3]
    with scratch() as d:
        w, out, p = simulate(case, d, w)
    ts = int(p['time_step'])
    n, per = w.nd * 1440 // ts, 1440 // ts
    got = out.cells('shortwave')
    if got.shape[0] != n:
        fail('{} time steps instead of {}', got.shape[0], n)
    utc = bool(p.get('utc_offset'))
    for c in w.active():
        sw = got[:, c]
        if not np.isfinite(sw).all():
            fail('shortwave of cell {} is not finite', c)
        if (sw < 0).any():
            fail('shortwave of cell {} is negative: {!r}', c, sw.min())
        day = ref_daily(w, c, given={k: v[:, c] for k, v in w.extra.items()})
        dl = day['daylength']
        ctx.nontrivial(((dl > 0) & (dl < 86000) & (day['shortwave'] > 0)).any())
        if (dl == 0).any():
            ctx.label('polar night')
        if (dl >= 86400).any():
            ctx.label('polar day')
        whole_day = (p.get('method') == 'passthrough'
                     and p.get('sw_averaging') != 'daylight')
        energy = day['shortwave'] * (86400. if whole_day else dl)
        sunny = day['share'].sum(axis=1) > 0
        if not utc:
            e = sw.reshape(w.nd, per).sum(axis=1) * ts * 60.
            if sunny.any():
                assert_close('daily shortwave energy (J m-2) of cell {}'
                             .format(c), e[sunny], energy[sunny], rtol=1e-3,
                             atol=1.)
            assert_close('shortwave in the polar night', e[~sunny],
                         np.zeros((~sunny).sum()), atol=1e-9)
        # the shape
        want = ref.sw_steps(day, p, float(w.clon[c]))
        sel = interior(w, p, n)
        if utc and abs(w.clat[c]) > 60:
            # next to polar night the days around a year's end differ
            ends = [i for i, t in enumerate(w.days)
                    if (t.month, t.day) in ((12, 30), (12, 31), (1, 1))]
            for i in ends:
                sel[max(0, (i - 1) * per):(i + 2) * per] = False
        # peak of the neighbourhood of each step
        pk = np.array([want[max(0, (i // per - 1) * per):
                            (i // per + 2) * per].max() for i in range(n)])
        tol = pk * (.004 + 36. / (ts * 60.)) + 1e-6
        err = np.abs(sw - want)
        bad = (err > tol) & sel
        if bad.any():
            i = int(np.argmax(bad))
            fail('shortwave of cell {} at step {}: got {!r}, expected {!r} '
                 '+- {!r}', c, i, sw[i], want[i], tol[i])
        # night: nothing while the sun is below the horizon
        share = (ref.sw_steps(dict(day, shortwave=np.ones(w.nd)), p,
                              float(w.clon[c])))
        near = np.roll(share, 1) + np.roll(share, -1) + share
        night = (near == 0) & sel
        assert_close('shortwave at night of cell {}'.format(c), sw[night],
                     np.zeros(night.sum()), atol=1e-9)
