"""Turn a JSON case into input data, run the code under test, read its output.

A case is a plain JSON value (that is what replay files contain):

  grid   {"kind": latlon|lonlat|hru|yx, "lat": [...], "lon": [...]}
  mask, elev      flat lists over the cells, in the order of the grid's dims
  start, nd       first day and number of days of the run
  tmin, dtr, prec, wind   lists [day][cell] in tenths (wind may be null)
  st     {"tmin", "dtr": [...], "prec": [...], "ramp"}: the 90 state days
  tpk, dur        12 monthly values (minutes)
  long            number of days to which the drawn ones are repeated, with
                  differences, if it is more than nd
  cfg             MetSim configuration options
"""
import contextlib
import copy
import datetime
import io as _io
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
import xarray as xr

import netCDF4

SUB_VARS = ['temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure',
            'rel_humid', 'air_pressure', 'spec_humid', 'tskc', 'wind']
DAY_VARS = ['t_min', 't_max', 'prec', 'vapor_pressure', 'shortwave', 'tskc',
            'pet', 'wind', 'daylength']


class Violation(Exception):
    """The property does not hold for this case"""


def fail(fmt, *args):
    raise Violation(fmt.format(*args) if args else fmt)


# ---------------------------------------------------------------- inputs

class World:
    """Input data of a case as arrays over (day, cell)"""

    def __init__(self, case):
        self.case = case
        g = case['grid']
        self.kind = g['kind']
        lat = np.array(g['lat'], dtype=float)
        lon = np.array(g['lon'], dtype=float)
        if self.kind == 'latlon':
            self.dims, self.shape = ('lat', 'lon'), (len(lat), len(lon))
            self.clat = np.repeat(lat, len(lon))
            self.clon = np.tile(lon, len(lat))
            self.coords = {'lat': lat, 'lon': lon}
        elif self.kind == 'lonlat':
            self.dims, self.shape = ('lon', 'lat'), (len(lon), len(lat))
            self.clat = np.tile(lat, len(lon))
            self.clon = np.repeat(lon, len(lat))
            self.coords = {'lat': lat, 'lon': lon}
        elif self.kind == 'hru':
            self.dims, self.shape = ('hru',), (len(lat),)
            self.clat, self.clon = lat, lon
            # some files number their units, most do not
            self.coords = {'hru': 1000 - 7 * np.arange(len(lat))} \
                if g.get('ids') else {}
        elif self.kind == 'yx':
            self.dims, self.shape = ('y', 'x'), (len(lat), len(lon))
            # a rotated grid: latitude and longitude vary along both axes
            jj, ii = np.meshgrid(np.arange(len(lat)), np.arange(len(lon)),
                                 indexing='ij')
            self.clat = np.clip(lat[jj] + 0.0625 * ii, -90, 90).ravel()
            self.clon = (lon[ii] + 0.0625 * jj).ravel()
            self.coords = {'y': 10. * np.arange(len(lat)),
                           'x': 100. + 5. * np.arange(len(lon))}
        else:
            raise ValueError(self.kind)
        self.ncell = int(np.prod(self.shape))
        self.nd = case['nd']
        nc = self.ncell
        self.mask = np.array(case['mask'], dtype=int).reshape(nc)
        self.elev = np.array(case['elev'], dtype=float).reshape(nc)
        a = {k: np.array(case[k], dtype=float).reshape(self.nd, nc) / 10.
             for k in ('tmin', 'dtr', 'prec')}
        self.t_min = np.round(a['tmin'], 1)
        self.t_max = np.round(a['tmin'] + a['dtr'], 1)
        self.prec = np.round(a['prec'], 1)
        self.wind = None
        if case.get('wind') is not None:
            self.wind = np.array(case['wind'], dtype=float).reshape(
                self.nd, nc) / 10.
        if case.get('long', 0) > self.nd:
            self._stretch(case['long'])
        st = case['st']
        k = np.arange(90)[:, None]
        c = np.arange(nc)[None, :]
        ramp = st.get('ramp', 0)
        sdtr = (np.array(st['dtr'])[(k + c) % len(st['dtr'])] + 3 * c +
                (k * ramp) // 30)
        self.s_tmin = np.round((st['tmin'] + c + 0 * k) / 10., 1)
        self.s_tmax = np.round((st['tmin'] + c + np.maximum(sdtr, 0)) / 10., 1)
        self.s_prec = np.round(
            (np.array(st['prec'])[(k + 2 * c) % len(st['prec'])]
             + np.where((k + 2 * c) % len(st['prec']) == 0, c, 0)
             + np.maximum((k * ramp) // 20, 0)) / 10., 1)
        m = np.arange(12)[:, None]
        if case.get('tpk') is not None:
            self.dur = np.array(case['dur'], dtype=float)[m] + 10. * (c % 4)
            self.t_pk = np.array(case['tpk'], dtype=float)[m] + 7. * (c % 4)
        else:
            self.dur = self.t_pk = None
        self.start = pd.Timestamp(case['start'])
        self.days = pd.date_range(self.start, periods=self.nd)
        self.stop = self.days[-1]
        self.sdays = pd.date_range(end=self.start - pd.Timedelta('1D'),
                                   periods=90)
        self.cfg = case.get('cfg', {})
        self.extra = {}      # further daily variables (passthrough)

    def _stretch(self, n):
        i = np.arange(n)
        rows, again = i % self.nd, (i >= self.nd)[:, None]
        self.nd = n
        cool = again * (i * i % 7)[:, None] * .5
        dtr = (self.t_max - self.t_min)[rows]
        self.t_min = self.t_min[rows]
        self.t_min = np.round(self.t_min - np.sign(self.t_min) * cool, 1)
        self.t_max = np.round(self.t_min + dtr, 1)
        self.prec = self.prec[rows]
        self.prec = np.round(self.prec + (self.prec > 0) * again
                             * (i % 5)[:, None] * .3, 1)
        if self.wind is not None:
            self.wind = self.wind[rows]

    def grid(self, a):
        """(n, cell) -> (n,) + grid shape"""
        a = np.asarray(a)
        return a.reshape(a.shape[:-1] + self.shape)

    def _ds(self, data, lead):
        """Dataset of variables over (lead dims +) grid dims"""
        coords = dict(self.coords)
        out = {}
        for name, a in data.items():
            a = self.grid(a)
            d = ((lead,) if a.ndim == len(self.dims) + 1 else ()) + self.dims
            out[name] = (d, a)
        if self.kind in ('hru', 'yx'):
            out['lat'] = (self.dims, self.grid(self.clat))
            out['lon'] = (self.dims, self.grid(self.clon))
        return xr.Dataset(out, coords=coords)

    def forcing_ds(self):
        d = {'prec': self.prec, 't_min': self.t_min, 't_max': self.t_max}
        if self.wind is not None:
            d['wind'] = self.wind
        d.update(self.extra)
        ds = self._ds(d, 'time').assign_coords(time=self.days)
        return ds.drop_vars(['lat', 'lon']) if self.kind in ('hru', 'yx') else ds

    def state_ds(self):
        ds = self._ds({'prec': self.s_prec, 't_min': self.s_tmin,
                       't_max': self.s_tmax}, 'time').assign_coords(
                           time=self.sdays)
        return ds.drop_vars(['lat', 'lon']) if self.kind in ('hru', 'yx') else ds

    def domain_ds(self):
        d = {'mask': self.mask.astype('i4'), 'elev': self.elev}
        ds = self._ds(d, None)
        if self.t_pk is not None:
            more = self._ds({'t_pk': self.t_pk, 'dur': self.dur}, 'month')
            ds = ds.merge(more[['t_pk', 'dur']])
        return ds

    def domain_vars(self):
        v = {'lat': 'lat', 'lon': 'lon', 'mask': 'mask', 'elev': 'elev'}
        if self.t_pk is not None:
            v.update(t_pk='t_pk', dur='dur')
        return v

    def forcing_vars(self):
        v = {'prec': 'prec', 't_min': 't_min', 't_max': 't_max'}
        if self.wind is not None:
            v['wind'] = 'wind'
        v.update({k: k for k in self.extra})
        return v

    def write(self, d):
        """Write netCDF inputs and return parameters for a run"""
        f, s, m = (os.path.join(d, n) for n in
                   ('in_forcing.nc', 'in_state.nc', 'in_domain.nc'))
        self.forcing_ds().to_netcdf(f)
        self.state_ds().to_netcdf(s)
        self.domain_ds().to_netcdf(m)
        return self.params(d, f, s, m)

    def params(self, d, forcing, state, domain):
        p = {'forcing': forcing, 'state': state, 'domain': domain,
             'forcing_fmt': 'netcdf',
             'start': self.start.strftime('%Y/%m/%d'),
             'stop': self.stop.strftime('%Y/%m/%d'),
             'forcing_vars': self.forcing_vars(),
             'domain_vars': self.domain_vars(),
             'state_vars': {'prec': 'prec', 't_min': 't_min',
                            't_max': 't_max'},
             'time_step': 60, 'out_precision': 'f8',
             'scheduler': 'single-threaded',
             'out_dir': os.path.join(d, 'out')}
        p.update(copy.deepcopy(self.cfg))
        if 'out_vars' not in p:
            p['out_vars'] = self.default_out(int(p['time_step']))
        return p

    def default_out(self, ts):
        names = DAY_VARS if ts == 1440 else SUB_VARS
        return {n: {'out_name': n} for n in names
                if n != 'wind' or self.has_wind()}

    def has_wind(self):
        return (self.wind is not None or 'wind' in
                (self.cfg.get('constant_vars') or {}))

    def active(self):
        return np.flatnonzero(self.mask > 0)


# ---------------------------------------------------------------- runs

_SNAP = {}


def snapshot_globals():
    """Remember the module state of the code under test"""
    import metsim.metsim as mm
    for owner, name in ((mm.MetSim, 'params'), (mm, 'attrs'),
                        (mm, 'available_outputs')):
        v = getattr(owner, name, None)
        if isinstance(v, dict):
            _SNAP[(owner, name)] = copy.deepcopy(v)


def reset_globals():
    """Cases are independent: undo what a previous case left in the process"""
    for (owner, name), v in _SNAP.items():
        cur = getattr(owner, name, None)
        if isinstance(cur, dict):
            cur.clear()
            cur.update(copy.deepcopy(v))
    with contextlib.suppress(Exception):
        # progress bars of verbose runs
        from dask.callbacks import Callback
        Callback.active.clear()
    with contextlib.suppress(Exception):
        from xarray.backends.file_manager import FILE_CACHE
        FILE_CACHE.clear()


ENV_ERRORS = (MemoryError, ImportError)


def scratch_root():
    return os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vmetsim_', dir=scratch_root())
    try:
        yield d
    finally:
        with contextlib.suppress(Exception):
            from xarray.backends.file_manager import FILE_CACHE
            FILE_CACHE.clear()
        shutil.rmtree(d, ignore_errors=True)


class CodeError(Violation):
    """The code under test raised on an input that it has to accept"""

    def __init__(self, exc):
        self.exc = exc
        super().__init__('raised {}: {}'.format(
            type(exc).__name__, ' '.join(str(exc).split())[:300]))


@contextlib.contextmanager
def quiet():
    import logging
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(_io.StringIO()):
            yield
    finally:
        logging.disable(logging.NOTSET)


def call(func, *args, **kwargs):
    """Call the code under test on a valid input"""
    try:
        with quiet():
            return func(*args, **kwargs)
    except ENV_ERRORS:
        raise
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EDQUOT):
            raise
        raise CodeError(e)
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:      # noqa: B902 - any other error is the code's
        raise CodeError(e)


def run_metsim(params):
    """Run and return the output files' directory"""
    from metsim.metsim import MetSim

    def go():
        ms = MetSim(params)
        ms.run()
    call(go)
    return params['out_dir']


class Out:
    """The output of a run: what the files contain, joined along time"""

    def __init__(self, out_dir, prefix='forcing', files=None):
        if files is None:
            files = sorted(os.path.join(out_dir, f) for f in
                           os.listdir(out_dir) if f.startswith(prefix + '_')
                           and f.endswith('.nc'))
        if not files:
            fail('no output file was written to the output directory')
        self.files = files
        parts = []
        for f in files:
            with netCDF4.Dataset(f) as nc:
                nc.set_auto_mask(False)
                tv = nc.variables['time']
                cal = getattr(tv, 'calendar', 'standard')
                raw = np.array(tv[:], dtype=float)
                parts.append({
                    'file': os.path.basename(f), 'n': len(raw),
                    'units': tv.units, 'calendar': cal, 'raw': raw,
                    'time': netCDF4.num2date(
                        raw, tv.units, cal, only_use_cftime_datetimes=True),
                    'tattrs': {k: tv.getncattr(k) for k in tv.ncattrs()},
                    'vars': {k: np.array(v[:]) for k, v in
                             nc.variables.items() if k != 'time'},
                    'dims': {k: v.dimensions for k, v in
                             nc.variables.items()},
                    'dtype': {k: v.dtype for k, v in nc.variables.items()},
                    'attrs': {k: {a: v.getncattr(a) for a in v.ncattrs()}
                              for k, v in nc.variables.items()},
                    'global': {a: nc.getncattr(a) for a in nc.ncattrs()}})
        parts.sort(key=lambda q: (q['raw'][0] if q['n'] else -1e18, q['file']))
        self.parts = parts
        first = parts[0]
        self.raw = np.concatenate([q['raw'] for q in parts])
        self.time = np.concatenate([q['time'] for q in parts])
        self.calendar = first['calendar']
        self.attrs = first['attrs']
        self.dims = first['dims']
        self.vars = {}
        for k in first['vars']:
            if 'time' in first['dims'][k]:
                self.vars[k] = np.concatenate([q['vars'][k] for q in parts])
            else:
                self.vars[k] = first['vars'][k]

    def __getitem__(self, name):
        if name not in self.vars:
            fail('output has no variable {!r} (it has {})', name,
                 sorted(self.vars))
        return self.vars[name]

    def cells(self, name):
        """(time, cell) array"""
        a = self[name]
        return a.reshape(a.shape[0], -1)

    def stamps(self):
        return pd.DatetimeIndex([pd.Timestamp(
            t.year, t.month, t.day, t.hour, t.minute, t.second)
            for t in self.time])


def run_case_world(w, d, **over):
    """Write the world's inputs into `d`, run, and return the output"""
    p = w.write(d)
    p.update(over)
    run_metsim(p)
    return Out(p['out_dir'], p.get('out_prefix', 'forcing'))


def max_abs(a):
    a = np.asarray(a)
    return float(np.max(np.abs(a))) if a.size else 0.


def assert_close(what, got, want, atol=0., rtol=0., where=None):
    """Elementwise comparison; NaN only matches NaN"""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        fail('{}: shape {} instead of {}', what, got.shape, want.shape)
    tol = atol + rtol * np.abs(want)
    bad = ~((np.abs(got - want) <= tol) | (np.isnan(got) & np.isnan(want)))
    if where is not None:
        bad &= where
    if bad.any():
        i = np.unravel_index(np.argmax(bad), bad.shape)
        fail('{}: {} of {} values differ, first at {}: got {!r}, expected '
             '{!r}', what, int(bad.sum()), bad.size, tuple(int(x) for x in i),
             float(got[i]), float(want[i]))


def assert_between(what, got, lo, hi):
    got = np.asarray(got, float)
    lo = np.broadcast_to(lo, got.shape)
    hi = np.broadcast_to(hi, got.shape)
    bad = ~((got >= lo) & (got <= hi))
    if bad.any():
        i = np.unravel_index(np.argmax(bad), bad.shape)
        fail('{}: {} of {} values out of range, first at {}: got {!r}, '
             'allowed [{!r}, {!r}]', what, int(bad.sum()), bad.size,
             tuple(int(x) for x in i), float(got[i]), float(lo[i]),
             float(hi[i]))
