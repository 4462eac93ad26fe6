"""C08 Day length and radiation are those of the sun's path, anywhere"""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.common import *
from vlib.world import scratch

PROP = 'C08'
RULE = ('runs of 1-2 cells at any latitude in [-90, 90] (random floats and '
        'latitudes within 1e-4 degrees of the edge of polar day or night of '
        'a day of the run), any day of the year, any elevation, daily and '
        'sub-daily; plus a relation between two latitudes; non-trivial: '
        'within 3 degrees of the edge of polar day or night, or a pair of '
        'latitudes')
BUDGET = {'quick': 70, 'thorough': 1500}

DECL = 0.4092797


@st.composite
def _cases(draw):
    start = draw(gen.starts())
    nd = draw(st.integers(1, 4))
    import datetime
    doy = datetime.date.fromisoformat(start).timetuple().tm_yday
    kind = draw(st.sampled_from(['any', 'edge', 'edge', 'float', 'pair']))
    if kind == 'any':
        lat = draw(gen.latitudes())
    elif kind == 'float':
        lat = draw(st.floats(-90, 90, allow_nan=False))
    elif kind == 'pair':
        lat = draw(st.floats(-70, 70, allow_nan=False))
    else:
        day = min(doy, 365) - 1 + draw(st.integers(0, nd - 1))
        decl = -DECL * math.cos((day + 11.25) * 0.017214)
        lat = (math.pi / 2 - abs(decl)) / 0.01745329
        if draw(st.booleans()):
            lat = -lat
        eps = draw(st.sampled_from([0., 1e-13, 1e-10, 1e-7, 1e-6, 3e-6, 1e-5,
                                    1e-4, .01, .5]))
        k = draw(st.integers(-20, 20))
        lat = min(max(lat + k * eps, -90.), 90.)
    cfg = {'time_step': draw(st.sampled_from([1440, 1440, 60, 180]))}
    lr = draw(gen.TUNING['lapse_rate'])
    if lr is not None:
        cfg['lapse_rate'] = lr
    w = {'grid': {'kind': draw(st.sampled_from(['latlon', 'hru'])),
                  'lat': [lat], 'lon': [draw(gen.longitudes())]},
         'mask': [1], 'elev': [draw(gen.ELEV)], 'start': start, 'nd': nd,
         'tmin': [[draw(gen.temps())] for _ in range(nd)],
         'dtr': [[draw(gen.DTR)] for _ in range(nd)],
         'prec': [[draw(gen.PREC)] for _ in range(nd)], 'wind': None,
         'st': {'tmin': 0, 'dtr': [100], 'prec': [20], 'ramp': 0},
         'cfg': cfg, 'what': kind,
         'other': draw(st.sampled_from(['mirror', 'poleward']))}
    return w


def strategy(tier):
    return _cases()


def analytic_daylength(lat, doy):
    """Hours of sun from the standard formula, seconds"""
    d = min(int(doy), 365) - 1
    decl = -DECL * math.cos((d + 11.25) * 0.017214)
    x = -math.tan(math.radians(min(max(lat, -89.9999999), 89.9999999))) \
        * math.tan(decl)
    return 86400. / math.pi * math.acos(min(max(x, -1.), 1.))


def run_case(case, ctx):
    w = World(case)
    ctx.label('what:' + case['what'], 'grid:' + w.kind)
    with scratch() as d:
        w, out, p = simulate(case, d, w)
    ts = int(p['time_step'])
    lat = float(w.clat[0])
    day = ref_daily(w, 0)
    dl = day['daylength']
    doy = w.days.dayofyear
    edge = np.array([abs(math.pi / 2 - abs(
        DECL * math.cos((min(int(x), 365) - 1 + 11.25) * 0.017214))
        - abs(lat) * 0.01745329) for x in doy])
    ctx.nontrivial((edge < math.radians(3)).any() or case['what'] == 'pair')
    if (dl == 0).any():
        ctx.label('polar night')
    if (dl >= 86400).any():
        ctx.label('polar day')
    if ts == 1440:
        got = out.cells('daylength')[:, 0]
        assert_between('day length', got, 0., 86400.)
        want = np.array([analytic_daylength(lat, x) for x in doy])
        # arccos is steep where the day is nearly 0 or 24 hours long
        near = np.minimum(want, 86400 - want)
        tol = 2. + 2000. * np.exp(-near / 900.)
        assert_close('day length (s) at latitude {}'.format(lat), got, want,
                     atol=tol)
        for v in ('shortwave', 'pet', 'vapor_pressure', 'tskc'):
            if not np.isfinite(out.cells(v)).all():
                fail('{} is not finite at latitude {}', v, lat)
        sw = out.cells('shortwave')[:, 0]
        assert_between('daily shortwave', sw, 0., 520.)
        # an edge may go either way by roundoff
        firm = edge > 1e-9
        ref_sw = day['shortwave'] * dl / 86400.
        assert_close('daily shortwave at latitude {}'.format(lat), sw[firm],
                     ref_sw[firm], rtol=1e-4, atol=1e-5)
    else:
        for v in ('shortwave', 'temp', 'longwave'):
            if not np.isfinite(out.cells(v)).all():
                fail('{} is not finite at latitude {}', v, lat)
        sw = out.cells('shortwave')[:, 0].reshape(w.nd, -1)
        if (sw < 0).any() or (sw > 1500).any():
            fail('shortwave {!r} is out of range at latitude {}',
                 float(np.abs(sw).max()), lat)
        dark = day['share'].sum(axis=1) == 0
        dark &= edge > 1e-9
        if (sw[dark] != 0).any():
            fail('shortwave in the polar night at latitude {}', lat)
        # local solar noon splits the day into equal halves
        half = sw.shape[1] // 2
        am, pm = sw[:, :half].sum(axis=1), sw[:, half:].sum(axis=1)
        assert_close('afternoon against morning radiation at latitude {}'
                     .format(lat), pm, am, rtol=.02, atol=3. * sw.max() * 60
                     / (ts * 60.) + 1e-6)
    if case['what'] == 'pair' and ts == 1440:
        # half a year later the mirrored latitude has the same day length
        # (circular orbit), and within a hemisphere days get longer towards
        # the summer pole
        c2 = json_copy(case)
        if case['other'] == 'mirror':
            c2['grid']['lat'] = [-lat]
        else:
            c2['grid']['lat'] = [lat + 1.5]
        with scratch() as d:
            w2, out2, _ = simulate(c2, d)
        a = out.cells('daylength')[:, 0]
        b = out2.cells('daylength')[:, 0]
        if case['other'] == 'mirror':
            ctx.label('mirror')
            assert_close('day lengths of mirrored latitudes sum to a day',
                         a + b, np.full(len(a), 86400.), atol=3.)
        else:
            ctx.label('poleward')
            decl = np.array([-math.cos((min(int(x), 365) - 1 + 11.25)
                                       * 0.017214) for x in doy])
            if ((b - a) * decl < -1e-6).any():
                fail('day length does not grow towards the summer pole: {} '
                     'at {}, {} at {}', a, lat, b, lat + 1.5)


def json_copy(x):
    import json
    return json.loads(json.dumps(x))
