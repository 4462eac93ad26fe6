"""C18 Results of a day depend on its own history only; runs can be restarted"""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C18'
RULE = ('a run of 3-63 days, and one of: a second run that starts k days '
        'later from a state made of the preceding 90 days; one that stops '
        'earlier; one whose forcing and state files hold further days; one '
        'with different weather from day j on; one whose state differs only '
        'before the 30 days (temperatures) and 90 days (precipitation) that '
        'count; and one (32-95 days) whose whole state differs; daily and '
        'sub-daily, local and UTC; non-trivial: the two runs share at least '
        'one compared wet day')
BUDGET = {'quick': 30, 'thorough': 500}
ASSUMPTIONS = ['the iteration for dewpoint stops by the mean change over the '
               'record, so values that depend on it are compared to its '
               'tolerance',
               'the day next to either end of a run is compared loosely: its '
               'temperature curve needs the neighbouring day, which a run '
               'estimates at its ends']


@st.composite
def _cases(draw):
    mode = draw(st.sampled_from(['restart', 'restart', 'restart', 'stop',
                                 'wider', 'future', 'future', 'old state',
                                 'state']))
    ts = draw(st.one_of(st.just(1440), st.sampled_from([60, 180, 360]),
                        gen.steps()))
    if mode == 'state':
        ts = draw(st.sampled_from([1440, 1440, 360]))
    cfg = gen.cfgs(
        time_step=st.just(ts), utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        prec_type=gen.maybe(st.sampled_from(['uniform', 'triangle', 'mix'])),
        tdew_tol=gen.maybe(st.sampled_from([1e-8, 1e-10])),
        lw_cloud=gen.LW['lw_cloud'], **gen.TUNING)
    c = draw(gen.worlds(cfg=cfg, days=(3, 12), max_cells=3, triangle=True,
                        wind='maybe'))
    c['mode'] = mode
    n = draw(st.sampled_from([32, 40, 92, 95] if mode == 'state' else
                             [0, 0, 0, 14, 20, 33, 63]))
    if n and (mode == 'state' or ts >= 60):
        # a long record made of the drawn days
        for f in ('tmin', 'dtr', 'prec', 'wind'):
            if c.get(f):
                rows = c[f]
                c[f] = [[v + (i * i) % 7 for v in rows[i % len(rows)]]
                        for i in range(n)]
        c['nd'] = n
    c['k'] = draw(st.integers(1, max(1, c['nd'] - 2)))
    c['shift'] = draw(st.integers(-80, 80).filter(bool))
    return c


def strategy(tier):
    return _cases()


def clone(w):
    w2 = World(w.case)
    w2.cfg = dict(w.cfg)
    return w2


def part(w, i, j):
    """The days [i, j) of a world, with the state that precedes them"""
    v = clone(w)
    for f, s in (('t_min', 's_tmin'), ('t_max', 's_tmax'),
                 ('prec', 's_prec')):
        full = np.concatenate([getattr(w, s), getattr(w, f)])
        setattr(v, s, full[i:i + 90])
        setattr(v, f, full[90 + i:90 + j])
    if w.wind is not None:
        v.wind = w.wind[i:j]
    v.days = w.days[i:j]
    v.nd = j - i
    v.start, v.stop = v.days[0], v.days[-1]
    v.sdays = pd.date_range(end=v.start - pd.Timedelta('1D'), periods=90)
    return v


def wider(w, d, shift):
    """Input files that hold more days than the run needs"""
    full = {k: np.concatenate([getattr(w, s), getattr(w, f)]) for k, f, s in (
        ('t_min', 't_min', 's_tmin'), ('t_max', 't_max', 's_tmax'),
        ('prec', 'prec', 's_prec'))}
    p = w.write(d)
    f, s = w.forcing_ds(), w.state_ds()

    def more(ds, before, after):
        lo = ds.isel(time=np.zeros(before, int)) + abs(shift) / 10.
        hi = ds.isel(time=np.full(after, -1)) + abs(shift) / 7.
        t0, t1 = ds.indexes['time'][[0, -1]]
        lo['time'] = pd.date_range(end=t0 - pd.Timedelta('1D'),
                                   periods=before)
        hi['time'] = pd.date_range(t1 + pd.Timedelta('1D'), periods=after)
        return xr.concat([lo, ds, hi], dim='time')
    b = abs(shift) % 7
    more(f, 1 + b, 1 + b // 2).to_netcdf(os.path.join(d, 'long_f.nc'))
    more(s, 10 * b, 1 + b).to_netcdf(os.path.join(d, 'long_s.nc'))
    p.update(forcing=os.path.join(d, 'long_f.nc'),
             state=os.path.join(d, 'long_s.nc'))
    return p


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    mode, k, ts = case['mode'], case['k'], int(w.cfg['time_step'])
    ctx.label('mode:' + mode)
    utc = bool(w.cfg.get('utc_offset')) and ts < 1440
    day = 1440
    # [lo, hi): minutes of the first run that are compared; `lag`: minutes
    # by which the second run starts later
    lo, hi, lag = 0, w.nd * day, 0
    tight = False
    w2 = None
    if mode == 'restart':
        w2 = part(w, k, w.nd)
        lag = k * day
        lo = (k if ts == day else k + 2 if utc else k + 1) * day
        hi -= day if utc else 0
    elif mode == 'stop':
        w2 = part(w, 0, w.nd - k)
        hi = (w.nd - k) * day
        if ts < day:
            hi -= 3 * day if utc else day + 360
            lo = day if utc else 0
    elif mode == 'future':
        w2 = clone(w)
        s = case['shift'] / 10.
        w2.t_min[k:] += s
        w2.t_max[k:] += s + 1.7
        w2.prec[k:] = np.round(w2.prec[k:] + abs(s), 1)
        if w2.wind is not None:
            w2.wind[k:] += abs(s)
        hi = k * day
        if ts < day:
            hi -= 3 * day if utc else day + 360
            lo = day if utc else 0
    elif mode == 'old state':
        w2 = clone(w)
        s = case['shift'] / 10.
        w2.s_tmin[:61] += s
        w2.s_tmax[:61] += s + 2.5
        w2.s_prec[:1] += abs(s)
    elif mode == 'state':
        w2 = clone(w)
        w2.s_tmax += abs(case['shift']) / 10.
        lo = 30 * day
        if w.nd > 91:
            w2.s_prec += abs(case['shift']) / 10.
            lo = 90 * day
        if ts < day:
            lo += 2 * day if utc else day
            hi -= day if utc else 0
    with scratch() as d:
        w, a, p = simulate(case, d, w)
    with scratch() as d:
        if mode == 'wider':
            p2 = wider(w, d, case['shift'])
            world.run_metsim(p2)
            b = Out(p2['out_dir'])
            tight = True
        else:
            _, b, _ = simulate(case, d, w2)
    t0 = a.stamps()[0]
    shift = b.stamps()[0] - t0
    if shift != pd.Timedelta(minutes=lag):
        fail('the second run starts {} after the first', shift)
    if sorted(a.vars) != sorted(b.vars):
        fail('variables differ: {} and {}', sorted(a.vars), sorted(b.vars))
    i, j = lo // ts, hi // ts
    off = lag // ts
    if j > i:
        wet = w.prec[lo // day:-(-hi // day)][:, w.active()]
        ctx.nontrivial((wet > 0).any())
        ctx.label('compared')
    tol = float(p.get('tdew_tol', 1e-6))
    rel = 1e-12 if tight else 1e-9
    dew = 1e-12 if tight else 2 * max(1e-6, 20 * tol)
    vague = np.any(vague_sun(np.array(
        [ref_daily(w, c)['daylength'] for c in w.active()])))
    for v in a.vars:
        if 'time' not in a.dims[v] or v == 'time':
            continue
        r = dew if v in ('vapor_pressure', 'shortwave', 'pet', 'rel_humid',
                         'spec_humid', 'longwave') else rel
        x, y = a.cells(v)[i:j], b.cells(v)[i - off:j - off]
        if j > i:
            assert_close('{} ({}, compared from minute {} to {})'.format(
                v, mode, lo, hi), y, x, rtol=r, atol=1e-9)
    if mode == 'restart' and ts < day and not utc and not vague:
        # the first day's temperature: what precedes it comes from the state
        i, j = k * day // ts, (k + 1) * day // ts
        for c in w.active():
            if abs(w.clat[c]) > 60:
                continue
            near = np.concatenate([
                f[max(k - 1, 0):k + 2, c] for f in (w.t_min, w.t_max)])
            assert_close('temperature of the first day after a restart',
                         b.cells('temp')[:j - i, c], a.cells('temp')[i:j, c],
                         atol=.02 * np.ptp(near) + .01)
            ctx.label('first day compared')
