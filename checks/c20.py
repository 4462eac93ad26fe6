"""C20 Passthrough keeps the daily values it is given"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C20'
RULE = ('passthrough runs of worlds of 1-4 cells with shortwave and any of '
        'longwave, tskc, vapor_pressure and pet in the forcing, averaged '
        'over the day or over daylight, daily and sub-daily: daily values '
        'and daily means of sub-daily values equal the given ones, the rest '
        'the estimates; and daily MT-CLIM output given to passthrough '
        'against sub-daily MT-CLIM output; non-trivial: given values that '
        'differ from MT-CLIM\'s, on a day with sun')
BUDGET = {'quick': 36, 'thorough': 600}


@st.composite
def _cases(draw):
    ts = draw(st.one_of(st.just(1440), gen.steps(True)))
    what = draw(st.sampled_from(['given', 'given', 'chain']))
    cfg = gen.cfgs(
        time_step=st.just(ts),
        prec_type=gen.maybe(st.sampled_from(['triangle', 'mix'])),
        utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        sw_averaging=gen.maybe(st.sampled_from(['daylight', '']))
        if what == 'given' else st.none(),
        **dict(gen.TUNING, **gen.LW))
    c = draw(gen.worlds(long=True, cfg=cfg, days=(1, 6), max_cells=4, triangle=True,
                        wind='maybe'))
    c['what'] = what
    c['given'] = draw(st.lists(st.sampled_from(
        ['longwave', 'tskc', 'vapor_pressure', 'pet']), unique=True))
    # the same on every day, nothing at all, all there can be
    c['flat'] = draw(st.dictionaries(
        st.sampled_from(['longwave', 'tskc', 'vapor_pressure', 'pet',
                         'shortwave']), st.sampled_from([0, 500, 1000]),
        max_size=2))
    c['vals'] = draw(st.lists(st.integers(0, 1000), min_size=5, max_size=5))
    return c


def strategy(tier):
    return _cases()


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    ctx.label('what:' + case['what'])
    if case['what'] == 'chain':
        return chain(case, w, ctx)
    w.cfg = dict(w.cfg, method='passthrough')
    ts = int(w.cfg['time_step'])
    vals = np.array(case['vals'], float)
    k = (np.arange(w.nd)[:, None] + 2 * np.arange(w.ncell)[None, :]) % 5
    v = vals[k] / 1000.
    some = v
    w.extra['shortwave'] = 400. * (
        v * 0 + case['flat']['shortwave'] / 1000.
        if 'shortwave' in case['flat'] else v)
    for name in case['given']:
        v = some
        if name in case['flat']:
            v = v * 0 + case['flat'][name] / 1000.
        w.extra[name] = {'longwave': 80 + 400 * v, 'tskc': v,
                         'vapor_pressure': 5 + 1500 * v[::-1],
                         'pet': 8 * v}[name]
        ctx.label('given:' + name)
    with scratch() as d:
        w, out, p = simulate(case, d, w)
    daylight = p.get('sw_averaging') == 'daylight'
    check_grid(w, out, sorted(p['out_vars']))
    per = 1440 // ts
    for c in w.active():
        given = {n: a[:, c] for n, a in w.extra.items()}
        day = ref_daily(w, c, given=given, cfg=dict(w.cfg))
        sun = day['share'].sum(axis=1) > 0
        mean = given['shortwave'] * (
            day['daylength'] / 86400. if daylight else 1.)
        ctx.nontrivial((given['shortwave'][sun] > 0).any())
        if ts == 1440:
            want = dict(day, shortwave=mean)
            if w.wind is not None:
                want['wind'] = w.wind[:, c]
            for n in p['out_vars']:
                assert_close('daily {} of cell {}{}'.format(
                    n, c, ' (given)' if n in given else ''),
                    out.cells(n)[:, c], want[n],
                    rtol=1e-12 if n in given and not daylight else 1e-7,
                    atol=1e-9)
            continue
        if p.get('utc_offset'):
            # shifted whole: the record's mean remains where every day has
            # the sun (geometry and energy move together)
            for n in ('tskc', 'wind'):
                if n in out.vars:
                    ref_n = day['tskc'] if n == 'tskc' else w.wind[:, c]
                    assert_close('mean {} of the record'.format(n),
                                 out.cells(n)[:, c].mean(), ref_n.mean(),
                                 rtol=1e-9, atol=1e-12)
        else:
            m = out.cells('shortwave')[:, c].reshape(w.nd, per).mean(axis=1)
            # a few half minutes are lost where the sun hardly sets
            long = day['daylength'] > 85500
            want = np.where(sun, mean, 0.)
            for sel, r in ((long, 1e-3), (~long, 1e-9)):
                assert_close('daily mean shortwave of cell {}'.format(c),
                             m[sel], want[sel], rtol=r, atol=1e-9)
            m = out.cells('tskc')[:, c].reshape(w.nd, per).mean(axis=1)
            assert_close('daily mean cloud fraction of cell {}'.format(c), m,
                         day['tskc'], rtol=1e-9, atol=1e-12)
        if 'longwave' in given:
            m = out.cells('longwave')[:, c].reshape(w.nd, per).mean(axis=1)
            assert_close('daily mean longwave of cell {}'.format(c), m,
                         given['longwave'], rtol=1e-9)


def chain(case, w, ctx):
    """MT-CLIM's daily output, passed through, gives its sub-daily output"""
    ts = int(w.cfg['time_step'])
    cfg = dict(w.cfg)
    with scratch() as d:
        w.cfg = dict(cfg, time_step=1440)
        w, daily, _ = simulate(case, d, w)
    with scratch() as d:
        w.cfg = cfg
        w, a, pa = simulate(case, d, w)
    for n in ('shortwave', 'vapor_pressure', 'tskc'):
        w.extra[n] = np.nan_to_num(daily.cells(n))
    if 'pet' in case['given']:
        w.extra['pet'] = np.nan_to_num(daily.cells('pet'))
    w.cfg = dict(cfg, method='passthrough')
    with scratch() as d:
        w, b, pb = simulate(case, d, w)
    ctx.nontrivial((w.extra['shortwave'] > 0).any())
    same_output('passthrough of the daily estimates against mtclim', a, b,
                sorted(pa['out_vars']), rtol=1e-8, atol=1e-8)
