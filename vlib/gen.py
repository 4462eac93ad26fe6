"""Hypothesis strategies for worlds.  Everything drawn is plain JSON."""
import datetime

from hypothesis import strategies as st

STEPS = [1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 30, 32, 36, 40,
         45, 48, 60, 72, 80, 90, 96, 120, 144, 160, 180, 240, 288, 360]
LW_TYPES = ['default', 'tva', 'anderson', 'brutsaert', 'satterlund', 'idso',
            'prata']


def steps(small=False):
    common = st.sampled_from([60, 180, 30, 120, 360, 240])
    return st.one_of(common, st.sampled_from(
        STEPS if small else [s for s in STEPS if s >= 10]))


_SPECIAL_STARTS = ['2000-02-27', '2001-02-26', '2003-12-29', '2004-12-29',
                   '2004-02-28', '2004-02-29', '2004-03-01', '2004-12-31',
                   '2005-01-01', '1999-12-30', '2001-11-29', '2010-06-19',
                   '2007-10-30', '1950-01-01', '1972-05-30']


def starts():
    def mk(y, doy):
        return (datetime.date(y, 1, 1)
                + datetime.timedelta(days=doy - 1)).isoformat()
    return st.one_of(st.sampled_from(_SPECIAL_STARTS),
                     st.builds(mk, st.integers(1902, 2099),
                               st.integers(1, 366)))


MID = [k / 16. for k in range(-60 * 16, 60 * 16 + 1, 7)]
SPECIAL_LAT = [0., 23.4375, -23.4375, 48.3125, -48.3125, 64.5, -64.5, 66.5,
               -66.5, 67.0625, -67.0625, 69.6, 72.25, -75., 80., -85.5, 89.5,
               90., -90.]


def latitudes(polar=True):
    mid = st.sampled_from(MID)
    if not polar:
        return mid
    return st.one_of(mid, mid, st.sampled_from(SPECIAL_LAT))


def longitudes(wide=True):
    # (at 180 degrees itself, either date could be meant)
    neg = st.integers(-179 * 8 - 7, 179 * 8 + 5).map(lambda k: k / 8.)
    pos = st.integers(0, 359 * 8 + 7).map(
        lambda k: k / 8. if not 1438 <= k <= 1440 else 179.625)
    return st.one_of(neg, pos, st.sampled_from(
        [0., 15., -15., -120., 90., 187.5, 345.]))


ELEV = st.one_of(st.integers(0, 3000), st.sampled_from(
    [0, -100, 4500, 5800, 150.5]))


# days, four times as many where there are few steps a day
LONG = [13, 20, 34, 64, 95, 100]


def temps(lo=-300, hi=280):
    return st.one_of(st.integers(lo, hi), st.integers(-60, 200),
                     st.sampled_from([0, -1, 1, -10, 5]))


DTR = st.one_of(st.integers(10, 180), st.integers(0, 250),
                st.sampled_from([0, 1, 100]))
PREC = st.one_of(st.just(0), st.integers(0, 120), st.sampled_from(
    [0, 1, 5, 33, 250, 900]))
WIND = st.integers(0, 150)


@st.composite
def worlds(draw, kinds=('latlon', 'latlon', 'lonlat', 'hru', 'yx'),
           max_cells=4, days=(1, 8), polar=True, masks=True, wind=True,
           triangle=False, cfg=None, one_cell=False, start=None, temp=None,
           dtr=None, max_side=3, min_cells=1, long=False):
    kind = draw(st.sampled_from(kinds))
    lats, lons = latitudes(polar), longitudes()
    if one_cell:
        nlat = nlon = 1
        if kind == 'hru':
            nlat = 1
    else:
        nlat = draw(st.integers(1, max_side))
        nlon = draw(st.integers(
            -(-min_cells // nlat),
            max(1, -(-min_cells // nlat), min(max_side, max_cells // nlat))))
    if kind == 'hru':
        n = nlat * nlon
        lat = draw(st.lists(lats, min_size=n, max_size=n))
        lon = draw(st.lists(lons, min_size=n, max_size=n))
        ncell = n
    else:
        lat = draw(st.lists(lats, min_size=nlat, max_size=nlat, unique=True))
        lon = draw(st.lists(lons, min_size=nlon, max_size=nlon, unique=True))
        order = draw(st.sampled_from(['asc', 'desc', 'any']))
        if order != 'any':
            lat = sorted(lat, reverse=order == 'desc')
            lon = sorted(lon)
        ncell = nlat * nlon
    nd = draw(st.integers(*days))
    if masks and ncell > 1:
        mask = draw(st.lists(st.sampled_from([1, 1, 1, 0]), min_size=ncell,
                             max_size=ncell))
        if not any(mask):
            mask[draw(st.integers(0, ncell - 1))] = 1
    else:
        mask = [1] * ncell
    elev = draw(st.lists(ELEV, min_size=ncell, max_size=ncell))

    def field(s):
        return draw(st.lists(
            st.lists(s, min_size=ncell, max_size=ncell),
            min_size=nd, max_size=nd))
    if temp is None:
        temp = draw(st.sampled_from([temps()] * 4 + [temps(-600, 430)]))
    case = {
        'grid': {'kind': kind, 'lat': lat, 'lon': lon,
                 'ids': kind == 'hru' and draw(st.booleans())},
        'mask': mask, 'elev': elev,
        'start': draw(start if start is not None else starts()), 'nd': nd,
        'tmin': field(temp),
        'dtr': field(dtr if dtr is not None else DTR),
        'prec': field(PREC),
        'wind': (field(WIND) if wind is True or (
            wind == 'maybe' and draw(st.booleans())) else None),
        'st': {'tmin': draw(temps(-200, 200)),
               'dtr': draw(st.lists(st.integers(0, 200), min_size=1,
                                    max_size=4)),
               'prec': draw(st.lists(PREC, min_size=1, max_size=5)),
               'ramp': draw(st.integers(0, 30))},
    }
    if triangle is True or (triangle == 'maybe' and draw(st.booleans())):
        # whole minutes or not
        a, b = draw(st.sampled_from([(1, 1), (1, 1), (4, 4), (4, 1), (1, 4)]))
        case['tpk'] = draw(st.lists(
            st.integers(0, 1380 * a).map(lambda k: k / a), min_size=12,
            max_size=12))
        case['dur'] = draw(st.lists(
            st.integers(4 * b, 1200 * b).map(lambda k: k / b),
            min_size=12, max_size=12))
    if cfg is not None:
        case['cfg'] = draw(cfg)
    else:
        case['cfg'] = {}
    if long:
        cfg = case['cfg']
        step = int(cfg.get('time_step', 60))
        n = draw(st.sampled_from([0] * 9 + (LONG if long is True else long)))
        if step >= 360 and n != 95:
            n *= 4
        # a file per day or so would take long
        if n and step >= 60 and cfg.get('out_freq', 'MS') in (
                'MS', 'M', 'ME', 'YS', 'Y', 'YE', 'AS', 'A'):
            case['long'] = n
    return case


def cfgs(**kw):
    """Configuration options: a dict of strategies, None meaning absent"""
    def clean(d):
        return {k: v for k, v in d.items() if v is not None}
    return st.fixed_dictionaries(kw).map(clean)


def maybe(s):
    return st.one_of(st.none(), s)


FRACTION = st.integers(20, 95).map(lambda k: k / 100.)
TUNING = dict(
    sw_prec_thresh=maybe(st.sampled_from([0., 0.5, 3.])),
    rain_scalar=maybe(st.sampled_from([0.75, 0.6, 1., .25])),
    tday_coef=maybe(st.sampled_from([0.45, 0.1, 0.8])),
    lapse_rate=maybe(st.sampled_from([0.0065, 0.005, 0.0098])),
    tmax_daylength_fraction=maybe(FRACTION),
)
LW = dict(lw_type=maybe(st.sampled_from(LW_TYPES)),
          lw_cloud=maybe(st.sampled_from(['default', 'cloud_deardorff'])))
