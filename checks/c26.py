"""C26 Output says how it was made and can be opened as the run's result"""
import os

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C26'
RULE = ('runs of 1-4 cells with any options, in one file or several, into a '
        'directory that may hold files of other runs; the configuration '
        'recorded in every file is the one given or its default, and a run '
        'configured from the record gives the same output; open_output '
        'gives the files\' values, times and units and nothing of other '
        'runs; non-trivial: an option differs from its default and there '
        'are several days or cells')
BUDGET = {'quick': 26, 'thorough': 400}

# option: default
NUMBERS = {'sw_prec_thresh': 0., 'rain_scalar': .75, 'tday_coef': .45,
           'lapse_rate': .0065, 'tmax_daylength_fraction': .67,
           'tdew_tol': 1e-6, 'time_step': None}
TEXTS = {'method': 'mtclim', 'prec_type': 'uniform', 'lw_type': 'prata',
         'lw_cloud': 'cloud_deardorff', 'out_prefix': 'forcing',
         'forcing_fmt': 'netcdf', 'out_precision': 'f8'}
FLAGS = {'utc_offset': False, 'period_ending': False}


@st.composite
def _cases(draw):
    ts = draw(st.one_of(st.just(1440), gen.steps()))
    cfg = gen.cfgs(
        time_step=st.just(ts),
        method=gen.maybe(st.sampled_from(['mtclim', 'passthrough'])),
        utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        out_precision=gen.maybe(st.sampled_from(['f4', 'f8'])),
        out_prefix=gen.maybe(st.sampled_from(['run', 'a_b', 'x-1.5'])),
        out_freq=gen.maybe(st.sampled_from(['D', 'MS', '12H', '2D', 'YS'])),
        tdew_tol=gen.maybe(st.sampled_from([1e-3, 1e-8])),
        prec_type=gen.maybe(st.sampled_from(['uniform', 'triangle', 'mix',
                                             'MIX'])),
        **dict(gen.TUNING, **gen.LW))
    c = draw(gen.worlds(long=[13, 34], cfg=cfg, days=(1, 5), max_cells=4,
                        triangle=True, wind='maybe'))
    c['before'] = draw(st.sampled_from([None, 'D', 'MS', '2D', '12H']))
    c['beside'] = draw(st.booleans())
    c['chunk'] = draw(st.booleans())
    c['names'] = draw(st.booleans())
    c['units'] = draw(st.booleans())
    return c


def strategy(tier):
    return _cases()


def run_case(case, ctx):
    from metsim.metsim import MetSim
    w = World(case)
    label_world(ctx, w)
    cfg = w.cfg
    if cfg.get('method') == 'passthrough':
        w.extra['shortwave'] = 100. + w.t_min * 0 + 10. * np.arange(
            w.ncell)[None, :]
    if case['chunk']:
        cfg['chunks'] = {w.dims[0]: 1}
    given = {**NUMBERS, **TEXTS, **FLAGS}
    ctx.nontrivial(any(k in given and cfg[k] != given[k] for k in cfg)
                   and (w.nd > 1 or w.ncell > 1))
    with scratch() as d:
        p = w.write(d)
        for i, v in enumerate(p['out_vars'].values()):
            if case['names']:
                v['out_name'] = 'v{}_{}'.format(i, v['out_name'])
        if case['units'] and 'prec' in p['out_vars']:
            p['out_vars']['prec']['units'] = 'mm s-1'
        prefix = p.get('out_prefix', 'forcing')
        if case['before'] is not None and w.nd > 1:
            # what an earlier run of one day less left behind
            ctx.label('files of an earlier run')
            q = dict(p, out_freq=case['before'], stop=(
                w.stop - pd.Timedelta('1D')).strftime('%Y/%m/%d'))
            world.run_metsim(q)
        if case['beside']:
            world.run_metsim(dict(p, out_prefix=prefix + '_other'))
        old = {f: os.stat(os.path.join(p['out_dir'], f)).st_mtime_ns
               for f in (os.listdir(p['out_dir'])
                         if os.path.isdir(p['out_dir']) else ())}

        def go():
            ms = MetSim(p)
            ms.run()
            return ms
        ms = world.call(go)
        files = [os.path.join(p['out_dir'], f)
                 for f in sorted(os.listdir(p['out_dir']))
                 if old.get(f) != os.stat(
                     os.path.join(p['out_dir'], f)).st_mtime_ns]
        ctx.label('one file' if len(files) == 1 else 'several files')
        out = Out(p['out_dir'], files=files)
        record(out, p, ctx)
        opened(ms, out, w, p)
        # the record is enough to repeat the run
        q = repeat(out, p, d)
        world.run_metsim(q)
        again = Out(q['out_dir'], prefix)
    same_output('run repeated from its record', out, again, rtol=0, atol=0)


def record(out, p, ctx):
    for part in out.parts:
        g = part['global']
        for k, default in {**NUMBERS, **TEXTS, **FLAGS}.items():
            want = p.get(k, default)
            if k not in g:
                fail('{} does not record {}', part['file'], k)
            if k in NUMBERS:
                try:
                    ok = float(g[k]) == float(want)
                except ValueError:
                    ok = False
            elif k in FLAGS:
                ok = str(g[k]).lower() in ((
                    'true', '1') if want else ('false', '0'))
            else:
                ok = str(g[k]).lower() == str(want).lower()
            if not ok:
                fail('{} records {} = {!r} instead of {!r}', part['file'], k,
                     g[k], want)
        for k in ('start', 'stop'):
            if pd.Timestamp(str(g.get(k))) != pd.Timestamp(p[k]):
                fail('{} records {} = {!r} instead of {!r}', part['file'], k,
                     g.get(k), p[k])
        for k in ('forcing', 'domain', 'state'):
            if os.path.basename(str(g.get(k))) != os.path.basename(p[k]):
                fail('{} records {} = {!r} instead of {!r}', part['file'], k,
                     g.get(k), p[k])
        what = {}
        for n, v in p['out_vars'].items():
            a = part['attrs'][v['out_name']]
            for k in ('units', 'long_name', 'standard_name'):
                if not str(a.get(k, '')).strip():
                    fail('{} of {} has no {}', v['out_name'], part['file'], k)
            what.setdefault(a['long_name'], []).append(n)
        for k, n in what.items():
            if len(n) > 1:
                fail('{} are all called {!r}', n, k)


def opened(ms, out, w, p):
    """What open_output gives is what the files hold"""
    ds = world.call(ms.open_output)
    try:
        with world.quiet():
            ds = ds.load()
    finally:
        ds.close()
    t = pd.DatetimeIndex(ds['time'].values)
    if list(t) != list(out.stamps()):
        fail('open_output has {} time steps from {} to {}; the files have {} '
             'from {} to {}', len(t), t[0], t[-1], len(out.time),
             out.stamps()[0], out.stamps()[-1])
    for n in [v['out_name'] for v in p['out_vars'].values()] + list(w.dims):
        if n not in ds.variables:
            fail('open_output has no variable {}', n)
        a = ds[n]
        if 'time' in out.dims[n]:
            a = a.transpose('time', *w.dims)
            if a.attrs.get('units') != out.attrs[n].get('units'):
                fail('unit of {} is {!r} in open_output', n,
                     a.attrs.get('units'))
        assert_close('open_output: {}'.format(n), a.values, nan_fill(out[n]))
    extra = set(ds.data_vars) - {
        v['out_name'] for v in p['out_vars'].values()}
    if extra:
        fail('open_output has further variables: {}', sorted(extra))


def repeat(out, p, d):
    g = out.parts[0]['global']
    q = {k: p[k] for k in ('forcing', 'domain', 'state', 'forcing_vars',
                           'domain_vars', 'state_vars', 'out_vars',
                           'out_freq', 'chunks') if k in p}
    for k in {**NUMBERS, **TEXTS}:
        v = g[k]
        q[k] = v.item() if hasattr(v, 'item') else v
    for k in FLAGS:
        q[k] = str(g[k]).lower() in ('true', '1')
    for k in ('start', 'stop'):
        q[k] = str(pd.Timestamp(str(g[k])).date()).replace('-', '/')
    q['scheduler'] = 'single-threaded'
    q['out_dir'] = os.path.join(d, 'again')
    return q
