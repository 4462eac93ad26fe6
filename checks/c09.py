"""C09 UTC output is local-time output moved by the longitude"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.common import *
from vlib.world import scratch

PROP = 'C09'
RULE = ('worlds of 1-3 cells of different longitudes whose local time leads '
        'UTC by a whole number of steps (1-360 min), 3-8 days; each case '
        'relates two runs: UTC with local time (of the same or of a finer '
        'step), longitudes with longitudes turned by full circles, or local '
        'time with other longitudes; '
        'non-trivial: days differ and a longitude is not 0')
BUDGET = {'quick': 32, 'thorough': 600}
ASSUMPTIONS = [
    'longitudes of exactly 180 degrees (a tie between +12 h and -12 h) are '
    'not turned',
    'longitudes whose offset is a whole minute that binary floating point '
    'cannot reach are not used: the offset is truncated to minutes',
    'UTC: only steps whose local counterpart lies inside the record are '
    'compared; shortwave around the end of a non-leap year is not']


def good(lon):
    a = lon / 360. * 1440.
    return int(a) == round(a, 6) and int(lon / 360. * 2880) == round(
        lon / 360. * 2880, 6)


@st.composite
def _cases(draw):
    how = draw(st.sampled_from(['utc', 'utc', 'fine', 'fine', 'turn',
                                'local']))
    ts = draw(gen.steps(how != 'fine'))
    fine = draw(st.sampled_from([g for g in range(2, 46) if ts % g == 0 and
                                 1440 % g == 0])) if how == 'fine' else ts
    cfg = gen.cfgs(
        time_step=st.just(ts),
        prec_type=gen.maybe(st.sampled_from(['triangle', 'mix'])),
        period_ending=gen.maybe(st.booleans()),
        utc_offset=st.booleans() if how == 'turn' else gen.maybe(
            st.just(False)),
        tmax_daylength_fraction=gen.maybe(gen.FRACTION),
        method=gen.maybe(st.just('mtclim')))
    c = draw(gen.worlds(kinds=('latlon', 'hru', 'yx', 'lonlat'), cfg=cfg,
                        days=(3, 7), max_cells=3, triangle=True))
    n = len(c['grid']['lon'])
    pool = [fine * m / 4. for m in range(-719 // fine - 1, 720 // fine + 1)
            if abs(fine * m / 4.) < 180 and good(fine * m / 4.)]
    c['fine'] = fine
    if how in ('utc', 'fine'):
        lon = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n,
                            unique=len(pool) >= n))
        if len(set(lon)) < n and c['grid']['kind'] != 'hru':
            lon = [lon[0] + 360 * k for k in range(n)]
        c['grid']['lon'] = lon
        if c['grid']['kind'] == 'yx':
            c['grid']['kind'] = 'latlon'
    c['turn'] = draw(st.lists(st.sampled_from([1, -1, 2, -2]), min_size=n,
                              max_size=n))
    c['how'] = how
    return c


def strategy(tier):
    return _cases()


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    how = case['how']
    ctx.label('relation:' + how)
    if any(lon180(x) for x in w.clon):
        ctx.label('180 degrees')
        return
    ctx.nontrivial(len(set(w.t_min[:, w.active()[0]])) > 1
                   and np.any(w.clon != 0))
    with scratch() as d:
        w, a, p = simulate(case, d, w)
    c2 = copy_case(case)
    if how in ('utc', 'fine'):
        c2['cfg']['utc_offset'] = True
        if how == 'fine':
            return finer(case, c2, w, a, p)
    elif how == 'turn':
        lon = [x + 360 * k for x, k in zip(case['grid']['lon'], case['turn'])]
        if case['grid']['kind'] == 'yx':
            lon = [x + 360 * case['turn'][0] for x in case['grid']['lon']]
        c2['grid']['lon'] = lon
    else:
        c2['grid']['lon'] = [((x + 37 * (k + 1) + 180) % 360) - 180
                             for k, x in enumerate(case['grid']['lon'])]
    with scratch() as d:
        w2, b, p2 = simulate(c2, d)
    names = sorted(p['out_vars'])
    if how != 'utc':
        same_output('longitudes turned by full circles' if how == 'turn' else
                    'local time at other longitudes', a, b, names, rtol=1e-9,
                    atol=1e-9)
        return
    if list(a.time) != list(b.time):
        fail('UTC and local runs have different time axes')
    ts = int(p['time_step'])
    n = w.nd * 1440 // ts
    k = np.arange(n)
    ends = np.array([i for i, t in enumerate(w.days)
                     if (t.month, t.day) in ((12, 31), (1, 1))], dtype=int)
    for c in w.active():
        lead = (w.clon[c] + 180.) % 360. - 180.
        s = int(round(lead * 4 / ts))
        ok = (k + s >= 0) & (k + s < n)
        for v in names:
            x, y = a.cells(v)[:, c], b.cells(v)[:, c]
            sel = ok.copy()
            if v == 'shortwave' and len(ends):
                day = k * ts // 1440
                sel &= ~np.isin(day, np.concatenate([ends - 1, ends,
                                                     ends + 1]))
            assert_close(
                '{} in UTC at longitude {} against local time {} steps later'
                .format(v, w.clon[c], s), y[k[sel]], x[k[sel] + s],
                rtol=1e-6, atol=1e-6)
        if 'prec' in names:
            assert_close('total precipitation in UTC and local time',
                         b.cells('prec')[:, c].sum(),
                         a.cells('prec')[:, c].sum(), rtol=1e-9, atol=1e-9)


MEANS = ['wind', 'tskc', 'shortwave']


def finer(case, c2, w, a, p):
    """UTC output against local-time output of a finer step

    Amounts and averages are those of the moved period; values of an instant
    are those of the end of the step.
    """
    ts, g = int(p['time_step']), case['fine']
    c2['cfg']['time_step'] = ts
    c3 = copy_case(case)
    c3['cfg']['time_step'] = g
    with scratch() as d:
        _, u, _ = simulate(c2, d)
    if g != ts:
        with scratch() as d:
            _, a, _ = simulate(c3, d)
    names = sorted(p['out_vars'])
    n, m, r = w.nd * 1440 // ts, w.nd * 1440 // g, ts // g
    ends = np.array([i for i, t in enumerate(w.days)
                     if (t.month, t.day) in ((12, 31), (1, 1))], dtype=int)
    k = np.arange(n)
    for c in w.active():
        lead = (w.clon[c] + 180.) % 360. - 180.
        s = int(round(lead * 4 / g))
        ok = (k * r + s >= 0) & ((k + 1) * r + s <= m)
        for v in names:
            x, y = a.cells(v)[:, c], u.cells(v)[:, c]
            sel = ok.copy()
            if v == 'shortwave' and len(ends):
                day = k * ts // 1440
                sel &= ~np.isin(day, np.concatenate([ends - 1, ends,
                                                     ends + 1]))
            kk = k[sel]
            if v == 'prec' or v in MEANS:
                i = kk[:, None] * r + s + np.arange(r)[None, :]
                want = x[i].sum(axis=1) / (1 if v == 'prec' else r)
            elif v == 'longwave':
                continue        # an instant's of a step's mean cloudiness
            else:
                want = x[(kk + 1) * r + s - 1]
            assert_close(
                '{} in UTC at longitude {} in steps of {} min against local '
                'time in steps of {} min'.format(v, w.clon[c], ts, g),
                y[kk], want, rtol=1e-6, atol=1e-6)
