"""C03 Sub-daily temperature follows the day's extremes"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.common import *
from vlib.world import scratch

PROP = 'C03'
RULE = ('worlds of 1-3 cells, 1-8 days, all latitudes, steps of 1-360 min, '
        'local and UTC time; non-trivial: two days whose extremes differ, '
        'with sunrise and sunset')
BUDGET = {'quick': 40, 'thorough': 800}
ASSUMPTIONS = [
    'sunrise and sunset known to +-0.75 min (half-minute solar geometry), in '
    'UTC +-1.75 min (offsets held in whole minutes)',
    'days with more than 23.8 h of sun that still sets, or less than 10 min '
    'of sun, are only compared by bounds: their sunrise is ill-defined',
    'UTC: the last day is only compared by bounds']


def strategy(tier):
    cfg = gen.cfgs(
        time_step=gen.steps(True),
        utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        tmax_daylength_fraction=gen.maybe(gen.FRACTION),
        lapse_rate=gen.TUNING['lapse_rate'],
        out_vars=gen.maybe(st.just({'temp': {'out_name': 'temp'}})))
    return gen.worlds(long=True, cfg=cfg, wind=False, days=(1, 8), max_cells=3)


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    with scratch() as d:
        w, out, p = simulate(case, d, w)
    ts = int(p['time_step'])
    got = out.cells('temp')
    n = w.nd
    if got.shape[0] != n * 1440 // ts:
        fail('{} time steps instead of {}', got.shape[0], n * 1440 // ts)
    for c in w.active():
        check_cell(w, p, c, got[:, c], ctx)


def check_cell(w, p, c, got, ctx):
    ts = int(p['time_step'])
    utc = bool(p.get('utc_offset'))
    n = w.nd
    tn, tx = w.t_min[:, c], w.t_max[:, c]
    before = (w.s_tmin[-1, c], w.s_tmax[-1, c])
    # bounds: the extremes of the day before, the day and the day after
    lo = np.concatenate([[before[0]], tn, [tn[-1]]])
    hi = np.concatenate([[before[1]], tx, [tx[-1]]])
    q = ts * np.arange(len(got))
    k = q // 1440 + 1
    reach = range(-1, 2) if not utc else range(-2, 3)
    lo3 = np.min([lo[np.clip(k + j, 0, n + 1)] for j in reach], axis=0)
    hi3 = np.max([hi[np.clip(k + j, 0, n + 1)] for j in reach], axis=0)
    assert_between('temperature of cell {} against the extremes of the '
                   'neighbouring days'.format(c), got, lo3 - 1e-6, hi3 + 1e-6)
    day = ref_daily(w, c)
    dl = day['daylength']
    lon = float(w.clon[c])
    vague = ((dl > 85680) & (dl < 86400)) | ((dl > 0) & (dl < 600))
    if vague.any():
        ctx.label('vague sunrise')
        return
    ctx.nontrivial(n > 1 and (dl > 0).all() and (dl < 86400).all()
                   and (len(set(tn)) > 1 or len(set(tx)) > 1))
    tol = 1.75 if utc else .75
    env = []
    for a in (-tol, 0., tol):
        for b in (-tol, 0., tol):
            kn, kx = ref.knots(day, p, lon, n, (a, b))
            env.append(ref.temperature(tn, tx, kn, kx, ts, before))
    span = hi3 - lo3
    lo_e, hi_e = np.min(env, axis=0), np.max(env, axis=0)
    slack = 2e-4 * span + 1e-6
    a, b = (0, len(got)) if not utc else (
        0, (n - 1) * 1440 // ts)
    # beyond the last daily extremes the curve is only bounded
    sel = np.zeros(len(got), bool)
    sel[a:b] = True
    assert_between('temperature of cell {} against the shape-preserving '
                   'curve through the daily extremes'.format(c),
                   got[sel], (lo_e - slack)[sel], (hi_e + slack)[sel])
