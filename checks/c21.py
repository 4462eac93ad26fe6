"""C21 Forcings without leap days are run on their own calendar"""
import os

import cftime
import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C21'
RULE = ('netCDF and ASCII forcings on the noleap calendar, 1-10 days anywhere '
        'or around the end of a leap year\'s February, state and run '
        'included, daily and sub-daily, period-beginning or -ending, one or '
        'several files, chunks; the time axis is that of the noleap calendar '
        '(cftime), the values those of the reference or, away from the leap '
        'day, of the same run on the standard calendar; non-trivial: the run '
        'or its state days cross a leap day')
BUDGET = {'quick': 36, 'thorough': 600}
ASSUMPTIONS = ['after February of a leap year the day of the year may be '
               'counted with or without the leap day']
NAMES = ('noleap', '365_day')


@st.composite
def _cases(draw):
    ts = draw(st.one_of(st.just(1440), st.sampled_from([60, 180, 360]),
                        gen.steps()))
    cfg = gen.cfgs(
        time_step=st.just(ts), utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        prec_type=gen.maybe(st.sampled_from(['uniform', 'triangle', 'mix'])),
        out_freq=gen.maybe(st.sampled_from(['D', 'MS', 'M', '12H'])))
    year = st.sampled_from([2000, 2004, 1996, 2020, 1956, 2004, 2001, 1900,
                            2100])
    start = st.one_of(
        st.builds('{}-02-{:02d}'.format, year, st.integers(20, 28)),
        st.builds('{}-02-{:02d}'.format, year, st.integers(20, 28)),
        st.builds('{}-02-{:02d}'.format, st.just(2004), st.integers(21, 28)),
        st.builds('{}-03-{:02d}'.format, year, st.integers(1, 4)),
        st.builds('{}-{:02d}-{:02d}'.format, year, st.integers(3, 5),
                  st.integers(1, 28)),
        st.builds('{}-{:02d}-{:02d}'.format, year, st.integers(1, 12),
                  st.integers(1, 28)),
        st.builds('{}-12-{:02d}'.format, year, st.integers(27, 31)))
    c = draw(gen.worlds(cfg=cfg, start=start, days=(1, 10), max_cells=4,
                        triangle=True, wind='maybe'))
    c['name'] = draw(st.sampled_from(NAMES))
    c['units'] = draw(st.sampled_from(['days since 1850-01-01',
                                       'hours since 1999-12-31 00:00']))
    c['how'] = draw(st.sampled_from(['explicit', 'explicit', 'forcing',
                                     'part']))
    c['chunk'] = draw(st.sampled_from([None, None, 1]))
    c['stamp'] = draw(st.sampled_from([0, 12]))
    c['fmt'] = draw(st.sampled_from(
        ['netcdf', 'netcdf', 'netcdf', 'ascii'] if c['grid']['kind']
        == 'latlon' else ['netcdf']))
    return c


def strategy(tier):
    return _cases()


def nums(day, n):
    """n noleap days from `day`, as numbers and dates"""
    t0 = cftime.date2num(cftime.DatetimeNoLeap(day.year, day.month, day.day),
                         'days since 1800-01-01', 'noleap')
    k = t0 + np.arange(n)
    return cftime.num2date(k, 'days since 1800-01-01', 'noleap')


def as_index(dates):
    return pd.DatetimeIndex([pd.Timestamp(t.year, t.month, t.day)
                             for t in dates])


def run_case(case, ctx):
    w = World(case)
    ts = int(w.cfg['time_step'])
    utc = bool(w.cfg.get('utc_offset')) and ts < 1440
    start = w.start
    t0 = cftime.DatetimeNoLeap(start.year, start.month, start.day)
    before = cftime.num2date(
        cftime.date2num(t0, 'days since 1800-01-01', 'noleap') - 90
        + np.arange(90), 'days since 1800-01-01', 'noleap')
    dates = nums(start, w.nd)
    w.days, w.sdays = as_index(dates), as_index(before)
    w.stop = w.days[-1]
    label_world(ctx, w)
    ctx.label('format:' + case['fmt'], 'dates:' + case['how'])
    real = (w.days[-1] - w.sdays[0]).days
    crosses = real != 90 + w.nd - 1
    inside = (w.days[-1] - w.days[0]).days != w.nd - 1
    ctx.nontrivial(crosses)
    ctx.label('run crosses a leap day' if inside else
              'state crosses a leap day' if crosses else 'no leap day')
    with scratch() as d:
        p = inputs(case, w, d)
        world.run_metsim(p)
        out = Out(p['out_dir'])
        files = [(q['file'], q['n']) for q in out.parts]
        if not crosses and not w.cfg.get('out_freq'):
            q = dict(w.write(d), out_dir=d + '/std')
            world.run_metsim(q)
            b = Out(q['out_dir'])
            same_output('noleap against standard calendar', b, out,
                        sorted(p['out_vars']), rtol=1e-9, atol=1e-9,
                        times=False)
            ctx.label('against standard calendar')
    # the time axis
    if out.calendar not in NAMES:
        fail('the output\'s calendar is {!r}', out.calendar)
    n = w.nd * 1440 // ts
    first = cftime.date2num(t0, 'minutes since 1800-01-01', 'noleap')
    if p.get('period_ending'):
        first += ts
    want = cftime.num2date(first + ts * np.arange(n),
                           'minutes since 1800-01-01', 'noleap')
    got = [(t.year, t.month, t.day, t.hour, t.minute, t.second)
           for t in out.time]
    exp = [(t.year, t.month, t.day, t.hour, t.minute, t.second)
           for t in want]
    if got != exp:
        k = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y),
                 min(len(got), len(exp)))
        fail('time step {} is {} instead of {} ({} steps, {} expected)', k,
             got[k] if k < len(got) else None,
             exp[k] if k < len(exp) else None, len(got), len(exp))
    freq = w.cfg.get('out_freq')
    if freq in ('D', 'MS', 'M'):
        keys = [(t.year, t.month) + ((t.day,) if freq == 'D' else ())
                for t in want]
        if len(files) != len(set(keys)):
            fail('{} files for {} periods of {}', len(files), len(set(keys)),
                 freq)
    # the values
    check_grid(w, out, sorted(p['out_vars']))
    per = 1440 // ts
    for c in w.active():
        pr = out.cells('prec')[:, c]
        if not np.isfinite(pr).all():
            fail('precipitation of cell {} is not finite', c)
        if not utc:
            assert_close('daily precipitation of cell {}'.format(c),
                         pr.reshape(w.nd, per).sum(axis=1), w.prec[:, c],
                         rtol=1e-9, atol=1e-9)
        else:
            assert_close('precipitation of cell {}'.format(c), pr.sum(),
                         w.prec[:, c].sum(), rtol=1e-9, atol=1e-9)
        doy1 = w.days.dayofyear
        leap = w.days.is_leap_year & (w.days.month > 2)
        days = [ref_daily(w, c, doys=x) for x in (doy1, doy1 - leap)]
        if ts == 1440:
            for v in ('t_min', 't_max', 'tskc', 'shortwave', 'pet',
                      'vapor_pressure', 'daylength', 'wind'):
                if v not in out.vars:
                    continue
                if v == 'wind':
                    lo = hi = w.wind[:, c]
                elif v == 'shortwave':
                    e = [x[v] * x['daylength'] / 86400. for x in days]
                    lo, hi = np.minimum(*e), np.maximum(*e)
                else:
                    lo = np.minimum(days[0][v], days[1][v])
                    hi = np.maximum(days[0][v], days[1][v])
                s = 4e-5 * np.abs(hi) + 1e-8
                assert_between('daily {} of cell {}'.format(v, c),
                               out.cells(v)[:, c], lo - s, hi + s)
        else:
            for v in p['out_vars']:
                if not np.isfinite(out.cells(v)[:, c]).all():
                    fail('{} of cell {} is not finite', v, c)
            t = out.cells('temp')[:, c]
            assert_between('temperature of cell {}'.format(c), t,
                           min(w.t_min[:, c].min(), w.s_tmin[-1, c]) - 1e-6,
                           max(w.t_max[:, c].max(), w.s_tmax[-1, c]) + 1e-6)
            if not utc:
                m = out.cells('tskc')[:, c].reshape(w.nd, per).mean(axis=1)
                assert_close('cloud fraction of cell {}'.format(c), m,
                             days[0]['tskc'], rtol=1e-9)
                m = out.cells('shortwave')[:, c].reshape(
                    w.nd, per).mean(axis=1)
                e = [np.where(x['share'].sum(axis=1) > 0, x['shortwave']
                              * x['daylength'] / 86400., 0.) for x in days]
                lo, hi = np.minimum(*e), np.maximum(*e)
                assert_between('daily mean shortwave of cell {}'.format(c),
                               m, lo * (1 - 1e-3) - 1e-4,
                               hi * (1 + 1e-3) + 1e-4)


def inputs(case, w, d):
    p = w.write(d)
    f, s = w.forcing_ds(), w.state_ds()
    if case['how'] == 'part':
        # the record is longer than the run
        f = xr.concat([f.isel(time=[0] * 3) + 1, f, f.isel(time=[0] * 3) + 1],
                      dim='time')
        t0 = cftime.date2num(
            cftime.DatetimeNoLeap(w.start.year, w.start.month, w.start.day),
            'days since 1800-01-01', 'noleap')
        fd = cftime.num2date(t0 - 3 + np.arange(w.nd + 6),
                             'days since 1800-01-01', 'noleap')
    else:
        fd = [cftime.DatetimeNoLeap(t.year, t.month, t.day) for t in w.days]
    h = case['stamp']
    f['time'] = [t.replace(hour=h) for t in fd]
    s['time'] = [cftime.DatetimeNoLeap(t.year, t.month, t.day, h)
                 for t in w.sdays]
    enc = {'time': {'units': case['units'], 'calendar': case['name'],
                    'dtype': 'f8'}}
    p['forcing'], p['state'] = d + '/noleap.nc', d + '/noleap_state.nc'
    f.to_netcdf(p['forcing'], encoding=enc)
    s.to_netcdf(p['state'], encoding=enc)
    if case['how'] == 'forcing':
        p['start'] = p['stop'] = 'forcing'
    if case['chunk']:
        p['chunks'] = {w.dims[0]: 1}
    if case['fmt'] == 'ascii':
        os.makedirs(d + '/cells')
        names = sorted(p['forcing_vars'])
        p.update(forcing=[], forcing_fmt='ascii', calendar='noleap',
                 start=w.start.strftime('%Y/%m/%d'),
                 stop=w.stop.strftime('%Y/%m/%d'),
                 forcing_vars={v: v for v in names})
        data = {'prec': w.prec, 't_min': w.t_min, 't_max': w.t_max,
                'wind': w.wind}
        for c in range(w.ncell):
            path = '{}/cells/data_{}_{}'.format(d, w.clat[c], w.clon[c])
            with open(path, 'w') as g:
                for i in range(w.nd):
                    g.write(' '.join(repr(float(data[v][i, c]))
                                     for v in names) + '\n')
            p['forcing'].append(path)
    return p
