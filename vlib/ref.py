"""Reference model, written from the documentation and the papers it cites.

Nothing here is imported from the code under test; constants are those of
MT-CLIM 4.3 / Bohn et al. (2013).  One cell at a time, plain numpy.
"""
import functools

import numpy as np

KELVIN, EPS, CP = 273.15, 0.62196351, 1010.0
P_STD, T_STD, G, R, MA, R_DRY = 101325., 288.15, 9.80665, 8.3143, 28.9644e-3, 287.
SIGMA = 5.669e-8
SEC_PER_RAD, RAD_PER_DEG, RAD_PER_DAY = 13750.9871, 0.01745329, 0.017214
OPTAM = np.array([2.90, 3.05, 3.21, 3.39, 3.69, 3.82, 4.07, 4.37, 4.72, 5.12,
                  5.60, 6.18, 6.88, 7.77, 8.90, 10.39, 12.44, 15.36, 19.79,
                  26.96, 30.00])
DT = 30.


def svp(t):
    """Saturation vapour pressure (Pa) over water, and over ice below 0 C"""
    t = np.asarray(t, float)
    e = 610.78 * np.exp(17.269 * t / (237.3 + t))
    return e * np.where(t < 0, 1. + .00972 * t + .000042 * t * t, 1.)


def pressure_std(elev, lr):
    """Pressure (Pa) of the standard atmosphere"""
    return P_STD * (1. - lr * elev / T_STD) ** (G / (lr * R / MA))


@functools.lru_cache(maxsize=4096)
def solar_day(lat, day, trans0):
    """Solar geometry of one day (day counts from 0 = January 1)

    Returns daylength (s), mean potential radiation over daylight (W m-2),
    maximum clear-sky transmittance, and the share of the day's radiation in
    each of the day's 2880 half minutes (local solar time).
    """
    la = min(max(lat * RAD_PER_DEG, -np.pi / 2), np.pi / 2)
    decl = -0.4092797 * np.cos((day + 11.25) * RAD_PER_DAY)
    a, b = np.cos(la) * np.cos(decl), np.sin(la) * np.sin(decl)
    hss = np.arccos(min(max(-b / a, -1.), 1.))
    dayl = min(2 * hss * SEC_PER_RAD, 86400.)
    beam = (1368. + 45.5 * np.sin(2 * np.pi * day / 365.25 + 1.7)) * DT
    h = np.arange(-hss, hss, DT / SEC_PER_RAD)
    cza = a * np.cos(h) + b
    up = cza > 0
    flat = np.where(up, beam * cza, 0.)
    am = 1. / (np.where(up, cza, 1.) + 1e-7)
    ang = (np.arccos(np.clip(cza, -1, 1)) / RAD_PER_DEG).astype(int) - 69
    am = np.where(am > 2.9, OPTAM[np.clip(ang, 0, 20)], am)
    tot = flat.sum()
    share = np.zeros(2880)
    if tot > 0:
        idx = np.clip((43200. + h * SEC_PER_RAD) / DT, 0, 2879).astype(int)
        np.add.at(share, idx, flat / tot)
        tt = (np.power(trans0, am) * flat)[up].sum() / tot
        pot = tot / dayl
    else:
        tt, pot = 0., 0.
    return dayl, pot, tt, share


def trans_nadir(elev, lr):
    return 0.870 ** (pressure_std(elev, lr) / P_STD)


def solar(lat, elev, lr, doys):
    """Arrays over days given as day-of-year numbers (1..366)"""
    t0 = float(trans_nadir(elev, lr))
    days = [min(int(d), 365) - 1 for d in doys]
    r = [solar_day(float(lat), d, t0) for d in days]
    return (np.array([x[0] for x in r]), np.array([x[1] for x in r]),
            np.array([x[2] for x in r]), np.array([x[3] for x in r]))


def pet_mm(rad, t_day, dayl, pa):
    """Priestley-Taylor potential evapotranspiration (mm per day)"""
    lh = 2.5023e6 - 2430.54 * t_day
    gamma = CP * pa / (lh * EPS)
    s = (svp(t_day + .2) - svp(t_day - .2)) / .4
    return 1.26 * s / (s + gamma) * rad * 0.72 * dayl / lh


PARAMS = {'sw_prec_thresh': 0., 'rain_scalar': .75, 'tday_coef': .45,
          'lapse_rate': .0065, 'tmax_daylength_fraction': .67,
          'lw_cloud': 'cloud_deardorff', 'lw_type': 'prata',
          'prec_type': 'uniform', 'utc_offset': False, 'method': 'mtclim',
          'sw_averaging': '', 'time_step': 60}


def params(cfg):
    p = dict(PARAMS)
    p.update({k: v for k, v in cfg.items() if k in p})
    for k in ('sw_prec_thresh', 'rain_scalar', 'tday_coef', 'lapse_rate',
              'tmax_daylength_fraction'):
        p[k] = float(p[k])
    p['time_step'] = int(p['time_step'])
    return p


def daily(t_min, t_max, prec, s_tmin, s_tmax, s_prec, lat, elev, doys, cfg,
          given=None):
    """Daily estimates of a cell

    `given` holds daily variables that are supplied (method passthrough).
    shortwave is the mean over daylight (mtclim) as the model keeps it.
    """
    p = params(cfg)
    given = given or {}
    n = len(t_min)
    dayl, pot, tt, share = solar(lat, elev, p['lapse_rate'], doys)
    dtr = t_max - t_min
    alldtr = np.concatenate([s_tmax - s_tmin, dtr])
    allprec = np.concatenate([s_prec, prec])
    sm = np.array([alldtr[90 + i - 29:90 + i + 1].mean() for i in range(n)])
    season = 365.25 * np.array(
        [allprec[90 + i - 89:90 + i + 1].mean() for i in range(n)])
    season = np.maximum(season, 80.)
    tmean = (t_min + t_max) / 2
    t_day = tmean + p['tday_coef'] * (t_max - tmean)
    bb = 0.031 + 0.201 * np.exp(-0.185 * sm)
    tfmax = 1. - 0.9 * np.exp(-bb * dtr ** 1.5)
    tfmax = np.where(prec > p['sw_prec_thresh'], tfmax * p['rain_scalar'],
                     tfmax)
    if p['lw_cloud'].lower() == 'cloud_deardorff':
        tskc = 1. - tfmax
    else:
        tskc = np.sqrt((1. - tfmax) / 0.65)
    pa = pressure_std(elev, p['lapse_rate'])

    def sw_of(vp):
        return pot * np.maximum(tt - 6.1e-5 * vp, 0.0001) * tfmax

    def tdew_of(pet):
        r = pet / season
        return ((t_min + KELVIN) * (-0.127 + 1.121 * (
            1.003 - 1.444 * r + 12.312 * r ** 2 - 32.766 * r ** 3)
            + 0.0006 * dtr) - KELVIN)

    if p['method'] == 'mtclim':
        tdew = t_min
        for _ in range(200):
            new = tdew_of(pet_mm(sw_of(svp(tdew)), t_day, dayl, pa))
            done = np.max(np.abs(new - tdew)) < 1e-11
            tdew = new
            if done:
                break
        vp = svp(tdew)
        sw = sw_of(vp)
        pet = pet_mm(sw, t_day, dayl, pa)
    else:
        sw = given['shortwave']
        tskc = given.get('tskc', tskc)
        over = dayl if p['sw_averaging'] == 'daylight' else 86400.
        pet = given.get('pet', pet_mm(sw, t_day, over, pa))
        vp = given.get('vapor_pressure', svp(tdew_of(pet)))
    return {'t_min': t_min, 't_max': t_max, 'prec': prec, 'tskc': tskc,
            'pet': pet, 'vapor_pressure': vp, 'shortwave': sw,
            'daylength': dayl, 'share': share, 't_day': t_day,
            'season': season, 'tfmax': tfmax}


def sun_minutes(share):
    """Minutes of sunrise and sunset of one day; None without either"""
    up = share > 0
    if up.all() or not up.any():
        return None
    i = np.flatnonzero(up)
    return (i[0] - 0.5) * .5, (i[-1] + 0.5) * .5


def knots(day, cfg, lon, n, shift=(0., 0.)):
    """Times (minutes from the record's start) of daily minimum and maximum

    The minimum is at sunrise, the maximum the given share of the daylight
    later; both in period-beginning time, hence one step earlier.  Polar days
    and nights use sunrise at 04:00 and sunset at 16:00.
    """
    p = params(cfg)
    off = 0.
    if p['utc_offset']:
        lon = (lon + 180.) % 360. - 180.
        off = lon / 360. * 1440.
    tmin, tmax = [], []
    for i in range(n):
        sun = sun_minutes(day['share'][i])
        if sun is None:
            r, s = 240., 960.
            # (with an offset, which may be held in whole minutes)
            if p['utc_offset']:
                r, s = r + shift[0], s + shift[1]
        else:
            r, s = sun[0] + shift[0], sun[1] + shift[1]
        r, s = r - off + 1440. * i, s - off + 1440. * i
        tmin.append(r - p['time_step'])
        tmax.append(r + p['tmax_daylength_fraction'] * (s - r)
                    - p['time_step'])
    return np.array(tmin), np.array(tmax)


def _pchip_slopes(x, y):
    """Fritsch-Carlson (1980) slopes with the weighted harmonic mean"""
    h, d = np.diff(x), np.diff(y) / np.diff(x)
    m = np.zeros(len(x))
    for k in range(1, len(x) - 1):
        if d[k - 1] * d[k] > 0:
            w1, w2 = 2 * h[k] + h[k - 1], h[k] + 2 * h[k - 1]
            m[k] = (w1 + w2) / (w1 / d[k - 1] + w2 / d[k])
    for k, (h0, h1, d0, d1) in ((0, (h[0], h[1], d[0], d[1])),
                                (-1, (h[-1], h[-2], d[-1], d[-2]))):
        e = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1)
        if e * d0 <= 0:
            e = 0.
        elif d0 * d1 <= 0 and abs(e) > 3 * abs(d0):
            e = 3 * d0
        m[k] = e
    return m


def pchip(x, y, q):
    m = _pchip_slopes(x, y)
    k = np.clip(np.searchsorted(x, q, side='right') - 1, 0, len(x) - 2)
    h = x[k + 1] - x[k]
    t = (q - x[k]) / h
    return ((1 + 2 * t) * (1 - t) ** 2 * y[k] + t * (1 - t) ** 2 * h * m[k]
            + t * t * (3 - 2 * t) * y[k + 1] + t * t * (t - 1) * h * m[k + 1])


def temperature(t_min, t_max, kmin, kmax, ts, before):
    """Sub-daily temperature; `before` is (t_min, t_max) of the eve"""
    n = len(t_min)
    x = np.empty(2 * n)
    y = np.empty(2 * n)
    x[0::2], x[1::2], y[0::2], y[1::2] = kmin, kmax, t_min, t_max
    x = np.concatenate([x[:2] - 1440., x, x[-2:] + 1440., x[-2:] + 2880.])
    y = np.concatenate([before, y, y[-2:], y[-2:]])
    q = ts * np.arange(n * 1440 // ts, dtype=float)
    return pchip(x, y, q)


def air_pressure_kpa(temp, elev, lr):
    tk = KELVIN + temp - 0.5 * elev * lr
    return P_STD * np.exp(-elev * G / (R_DRY * tk)) / 1000.


def rel_humid(vp_kpa, temp):
    return np.minimum(100. * vp_kpa / (svp(temp) / 1000.), 100.)


def spec_humid(vp_kpa, p_kpa):
    w = EPS * vp_kpa / (p_kpa - vp_kpa)
    return w / (1. + w)


def longwave(temp, vp_kpa, tskc, lw_type, lw_cloud):
    tk = temp + KELVIN
    e = vp_kpa * 10.           # hPa
    kind = lw_type.lower()
    if kind in ('default', 'tva'):
        em = 0.74 + 0.0049 * e
    elif kind == 'anderson':
        em = 0.68 + 0.036 * np.sqrt(e)
    elif kind == 'brutsaert':
        em = 1.24 * (e / tk) ** 0.14285714
    elif kind == 'satterlund':
        em = 1.08 * (1 - np.exp(-e ** (tk / 2016.)))
    elif kind == 'idso':
        em = 0.7 + 5.95e-5 * e * np.exp(1500. / tk)
    elif kind == 'prata':
        w = 46.5 * e / tk
        em = 1 - (1 + w) * np.exp(-np.sqrt(1.2 + 3. * w))
    else:
        raise ValueError(lw_type)
    if lw_cloud.lower() == 'cloud_deardorff':
        em = tskc + (1. - tskc) * em
    else:
        em = (1. + 0.17 * tskc ** 2) * em
    return em * SIGMA * tk ** 4


def lon_minutes(lon):
    """Whole minutes (towards zero) that local time leads UTC"""
    import math
    return int(math.remainder(lon, 360.) / 360. * 1440.)


def prec_minutes(prec, t_min, months, cfg, t_pk, dur):
    """Per-minute precipitation of each day, local time"""
    kind = params(cfg)['prec_type'].lower()
    out = np.zeros((len(prec), 1440))
    for i, amount in enumerate(prec):
        if kind == 'uniform' or (kind == 'mix' and t_min[i] < 0):
            out[i] = amount / 1440.
        else:
            pk, du = t_pk[months[i] - 1], dur[months[i] - 1]
            m = np.arange(1440.)
            w = np.clip(1. - np.abs(m - pk) / (du / 2.), 0., None)
            out[i] = amount * w / w.sum()
    return out


def to_steps(minutes, ts, how):
    a = minutes.reshape(-1, ts)
    return a.sum(axis=1) if how == 'sum' else a.mean(axis=1)


def sw_steps(day, cfg, lon):
    """Sub-daily shortwave (W m-2); wraps around at the record's ends"""
    p = params(cfg)
    ts = p['time_step']
    if p['method'] == 'passthrough' and p['sw_averaging'] != 'daylight':
        energy = day['shortwave'] * 86400.
    else:
        energy = day['shortwave'] * day['daylength']
    a = (day['share'] * energy[:, None]).ravel()
    if p['utc_offset']:
        import math
        a = np.roll(a, -int(math.remainder(lon, 360.) / 360. * 2880))
    return a.reshape(-1, ts * 2).sum(axis=1) / (ts * 60.)


def constant_steps(values, cfg, lon):
    p = params(cfg)
    a = np.repeat(values, 1440)
    if p['utc_offset']:
        a = np.roll(a, -lon_minutes(lon))
    return to_steps(a, p['time_step'], 'mean')
