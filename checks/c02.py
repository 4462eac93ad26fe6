"""C02 Precipitation is timed as its scheme prescribes"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.common import *
from vlib.world import scratch

PROP = 'C02'
RULE = ('worlds whose monthly peak times and durations fit inside the day, '
        'days of all months (dates biased to month and year ends), all '
        'schemes with any capitalization, steps of 1-360 min, local or UTC '
        'time; non-trivial: a triangular wet day, or a mix run with both '
        'kinds of wet day')
BUDGET = {'quick': 45, 'thorough': 900}
ASSUMPTIONS = ['triangle discretised to minutes: cumulative share may be off '
               'by the share of 1.5 minutes at the peak intensity',
               'UTC: first and last day are not compared (record ends wrap)']


@st.composite
def _cases(draw):
    cfg = gen.cfgs(
        time_step=gen.steps(True),
        prec_type=gen.maybe(st.sampled_from(
            ['uniform', 'triangle', 'triangle', 'mix', 'mix', 'TRIANGLE',
             'MIX', 'Uniform'])),
        utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()))
    long = not draw(st.integers(0, 5))      # crosses several months
    c = draw(gen.worlds(cfg=cfg, wind=False, max_cells=3, one_cell=long,
                        days=(27, 70) if long else (1, 9),
                        temp=st.one_of(st.integers(-40, 40),
                                       st.sampled_from([0, -1, 1, -5]))))
    if c['cfg'].get('utc_offset'):
        c['nd'] = max(3, c['nd'])
        for k in ('tmin', 'dtr', 'prec'):
            while len(c[k]) < c['nd']:
                c[k].append([v + 1 for v in c[k][-1]])
    dur = st.one_of(st.integers(30, 600), st.integers(600, 1350),
                    st.integers(120, 2400).map(lambda k: k / 4.))
    c['dur'] = draw(st.lists(dur, min_size=12, max_size=12))
    # cells add up to 30 min of duration and 21 min to the peak
    part = 1 if draw(st.integers(0, 3)) else 4
    c['tpk'] = []
    for x in c['dur']:
        half = (int(x) + 31) // 2 + 1
        c['tpk'].append(draw(st.integers(
            half * part, (1440 - 21 - half - 2) * part)) / part)
    return c


def strategy(tier):
    return _cases()


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    with scratch() as d:
        w, out, p = simulate(case, d, w)
    ts = int(p['time_step'])
    kind = p.get('prec_type', 'uniform').lower()
    utc = bool(p.get('utc_offset'))
    got = out.cells('prec')
    months = w.days.month
    per_day = 1440 // ts
    if got.shape[0] != w.nd * per_day:
        fail('{} time steps instead of {}', got.shape[0], w.nd * per_day)
    for c in w.active():
        frozen = w.t_min[:, c] < 0
        wet = w.prec[:, c] > 0
        tri = (np.zeros(w.nd, bool) if kind == 'uniform' else
               np.ones(w.nd, bool) if kind == 'triangle' else ~frozen)
        if (tri & wet).any():
            ctx.label('triangular day')
            ctx.nontrivial(kind == 'triangle')
        if kind == 'mix' and (tri & wet).any() and (~tri & wet).any():
            ctx.nontrivial()
            ctx.label('both kinds of day')
        minutes = ref.prec_minutes(w.prec[:, c], w.t_min[:, c], months, p,
                                   w.t_pk[:, c], w.dur[:, c])
        flat = minutes.ravel()
        lead = ref.lon_minutes(w.clon[c]) if utc else 0
        flat = np.roll(flat, -lead)
        cum = np.concatenate([[0.], np.cumsum(flat)])[::ts]
        mine = np.concatenate([[0.], np.cumsum(got[:, c])])
        # tolerance: 1.5 min at the highest intensity of the day (peak of a
        # triangle is twice its mean over the duration)
        dens = np.where(tri, 2. / w.dur[months - 1, c], 1. / 1440.)
        tol = 1.5 * np.max(dens * w.prec[:, c]) + 1e-9
        lo, hi = (per_day, (w.nd - 1) * per_day) if utc else (
            0, w.nd * per_day)
        a, b = mine[lo:hi + 1] - mine[lo], cum[lo:hi + 1] - cum[lo]
        # the uniform scheme has no discretisation error in local time
        if not utc and not (tri & wet).any():
            tol = 1e-9
        assert_close('accumulated precipitation of cell {} (scheme {}, UTC '
                     '{})'.format(c, kind, utc), a, b, atol=tol)
        if not utc:
            for k in range(w.nd):
                day = got[k * per_day:(k + 1) * per_day, c]
                if not tri[k]:
                    assert_close('evenly spread precipitation of day {} cell '
                                 '{}'.format(k, c), day,
                                 np.full(per_day, w.prec[k, c] / per_day),
                                 rtol=1e-9, atol=1e-12)
                    continue
                pk, du = w.t_pk[months[k] - 1, c], w.dur[months[k] - 1, c]
                t0 = np.arange(per_day) * ts
                outside = (t0 + ts < pk - du / 2 - 1) | (t0 > pk + du / 2 + 1)
                assert_close('precipitation outside the triangle of day {} '
                             'cell {}'.format(k, c), day[outside],
                             np.zeros(outside.sum()), atol=1e-12)
