"""C04 Humidity and air pressure agree with temperature at every step"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.common import *
from vlib.world import scratch

PROP = 'C04'
RULE = ('worlds of 1-3 cells, 1-8 days, temperatures -70..50 C with jumps '
        'between days, all latitudes and elevations, both methods, local and '
        'UTC time; non-trivial: saturation limits some but not all steps, or '
        'temperatures on both sides of 0 C')
BUDGET = {'quick': 40, 'thorough': 800}
ASSUMPTIONS = ['sub-daily vapour pressure is accepted in kPa or Pa (see the '
               'known finding of C13); the scale must be one of the two']


def strategy(tier):
    cfg = gen.cfgs(
        time_step=gen.steps(),
        utc_offset=gen.maybe(st.booleans()),
        lapse_rate=gen.TUNING['lapse_rate'],
        lw_cloud=gen.LW['lw_cloud'],
        period_ending=gen.maybe(st.booleans()),
        method=st.sampled_from(['mtclim', 'mtclim', 'passthrough']))
    base = gen.worlds(long=True, cfg=cfg, wind=False, days=(1, 8), max_cells=3,
                      temp=st.one_of(gen.temps(-400, 350),
                                     gen.temps(-700, 450)))
    return st.tuples(base, st.lists(st.integers(1, 400), min_size=3,
                                    max_size=3)).map(
        lambda t: dict(t[0], sw=t[1]))


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    given = None
    if w.cfg.get('method') == 'passthrough':
        k = np.arange(w.nd)[:, None] + np.arange(w.ncell)[None, :]
        w.extra['shortwave'] = np.array(case['sw'], float)[k % 3]
        w.extra['vapor_pressure'] = np.array([700., 120., 1900.])[k % 3]
    with scratch() as d:
        w, out, p = simulate(case, d, w)
    ts = int(p['time_step'])
    lr = float(p.get('lapse_rate', .0065))
    n = w.nd * 1440 // ts
    o = {v: out.cells(v) for v in ('temp', 'vapor_pressure', 'rel_humid',
                                   'air_pressure', 'spec_humid')}
    for v, a in o.items():
        if a.shape[0] != n:
            fail('{} has {} steps instead of {}', v, a.shape[0], n)
    for c in w.active():
        given = {k: v[:, c] for k, v in w.extra.items()}
        day = ref_daily(w, c, given=given)
        temp = o['temp'][:, c]
        sat = ref.svp(temp) / 1000.
        q = ts * np.arange(n, dtype=float)
        lo, hi = knot_envelope(w, p, c, day, lambda kn, kx: np.interp(
            q, kn, day['vapor_pressure'] / 1000.))
        vp = vp_kpa(o['vapor_pressure'][:, c], np.minimum((lo + hi) / 2, sat))
        ctx.nontrivial(((lo > sat).any() and (lo < sat).any())
                       or (temp.min() < 0 < temp.max()))
        if (lo > sat).any():
            ctx.label('saturated step')
        if not np.isfinite(vp).all():
            fail('vapor pressure of cell {} is not finite', c)
        assert_between('vapor pressure of cell {} against zero and '
                       'saturation'.format(c), vp, 0., sat * (1 + 1e-9))
        if not vague_sun(day['daylength']).any():
            sel = interior(w, p, n)
            span = np.ptp(day['vapor_pressure']) / 1000.
            slack = 2e-5 * np.max(hi) + 1e-3 * span + 1e-9
            assert_between(
                'vapor pressure of cell {} against the line between the '
                'daily values'.format(c), vp[sel],
                (np.minimum(lo, sat) - slack)[sel],
                (np.minimum(hi, sat) + slack)[sel])
        assert_close('relative humidity of cell {}'.format(c),
                     o['rel_humid'][:, c], ref.rel_humid(vp, temp),
                     rtol=1e-9, atol=1e-9)
        assert_between('relative humidity', o['rel_humid'][:, c], 0., 100.)
        pr = ref.air_pressure_kpa(temp, float(w.elev[c]), lr)
        assert_close('air pressure of cell {}'.format(c),
                     o['air_pressure'][:, c], pr, rtol=1e-9)
        assert_close('specific humidity of cell {}'.format(c),
                     o['spec_humid'][:, c], ref.spec_humid(vp, pr), rtol=1e-9)
