"""C24 A run is repeatable and leaves its inputs as they were"""
import copy
import hashlib
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C24'
RULE = ('worlds of 1-4 cells, input as netCDF, in-memory or ASCII, run, run '
        'again over its own output with the same configuration object, and '
        'run in the other precision; compared bit by bit (or to the rounding '
        'of single precision), with the input files, the configuration and '
        'the dataset compared before and after; non-trivial: sub-daily, or '
        'several files')
BUDGET = {'quick': 36, 'thorough': 600}


@st.composite
def _cases(draw):
    ts = draw(st.one_of(st.just(1440), gen.steps()))
    cfg = gen.cfgs(
        time_step=st.sampled_from([ts, str(ts)]),
        utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        out_freq=gen.maybe(st.sampled_from(['D', 'MS', '12H'])),
        prec_type=gen.maybe(st.sampled_from(['uniform', 'triangle', 'mix'])),
        constant_vars=gen.maybe(st.just({'wind': 3})),
        method=st.sampled_from([None, None, 'passthrough']),
        **dict(gen.TUNING, **gen.LW))
    c = draw(gen.worlds(long=[13, 34], cfg=cfg, days=(1, 6), max_cells=4, triangle=True,
                        wind='maybe'))
    c['fmt'] = draw(st.sampled_from(
        ['netcdf', 'data', 'data'] + (['ascii'] if c['grid']['kind'] in (
            'latlon', 'lonlat') else [])))
    c['units'] = draw(st.booleans())
    c['chunk'] = draw(st.booleans())
    c['dates'] = draw(st.sampled_from(['text', 'datetime', 'forcing']))
    return c


def strategy(tier):
    return _cases()


def digest(d):
    h = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as g:
                h[os.path.relpath(p, d)] = hashlib.sha1(g.read()).hexdigest()
    return h


def plain(p):
    return {k: repr(v) for k, v in p.items()
            if not isinstance(v, xr.Dataset)}


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    ctx.label('format:' + case['fmt'])
    ts = int(w.cfg['time_step'])
    ctx.nontrivial(ts < 1440 or bool(w.cfg.get('out_freq')))
    if w.cfg.get('method') == 'passthrough':
        k = np.arange(w.nd)[:, None] + np.arange(w.ncell)[None, :]
        w.extra['shortwave'] = 20. + 31. * (k % 7)
    with scratch() as root:
        d, o = root + '/in', root + '/out'
        os.makedirs(d)
        p = w.write(d)
        p['out_dir'] = o + '/8'
        if case['dates'] == 'datetime':
            for k in ('start', 'stop'):
                p[k] = pd.Timestamp(p[k]).to_pydatetime()
        elif case['dates'] == 'forcing' and case['fmt'] != 'ascii':
            p['start'] = p['stop'] = 'forcing'
        ds = None
        if case['fmt'] == 'data':
            ds = w.forcing_ds()
            p.update(forcing=ds, forcing_fmt='data')
        elif case['fmt'] == 'ascii':
            from .c19 import cells
            cells(w, w.forcing_ds(), sorted(p['forcing_vars']), 'ascii', d, p)
        if case['units']:
            for v, conf in p['out_vars'].items():
                if v == 'prec':
                    conf['units'] = 'mm s-1'
        if case['chunk']:
            p['chunks'] = {w.dims[0]: 1}
        keep = ds.copy(deep=True) if ds is not None else None
        before, conf = digest(d), plain(copy.deepcopy(
            {k: v for k, v in p.items() if k != 'forcing'}))
        world.run_metsim(p)
        a = Out(p['out_dir'])
        files = sorted(os.listdir(p['out_dir']))
        world.run_metsim(p)
        b = Out(p['out_dir'])
        if sorted(os.listdir(p['out_dir'])) != files:
            fail('a second run wrote other files: {} and {}', files,
                 sorted(os.listdir(p['out_dir'])))
        q = dict(p, out_dir=o + '/4', out_precision='f4')
        world.run_metsim(q)
        c = Out(q['out_dir'])
        if digest(d) != before:
            fail('a run changed its input files')
        after = plain({k: v for k, v in p.items() if k != 'forcing'})
        if after != conf:
            fail('a run changed its configuration: {}', sorted(
                k for k in set(after) | set(conf)
                if after.get(k) != conf.get(k)))
        if ds is not None:
            if not ds.identical(keep):
                fail('a run changed the dataset it was given')
        stray = sorted(set(os.listdir(root)) - {'in', 'out'})
        if stray or sorted(os.listdir(o)) != ['4', '8']:
            fail('a run wrote outside of its output directory')
    for v in a.vars:
        if not np.array_equal(a.vars[v], b.vars[v], equal_nan=True):
            fail('{} differs between two runs of one configuration', v)
        if a.attrs[v] and {k: str(x) for k, x in a.attrs[v].items()} != {
                k: str(x) for k, x in b.attrs[v].items()}:
            fail('attributes of {} differ between two runs', v)
    if list(a.raw) != list(b.raw) or list(a.raw) != list(c.raw):
        fail('time axes differ between runs')
    for v in p['out_vars']:
        x, y = nan_fill(a[v]), nan_fill(c[v])
        assert_close('{} in single and double precision'.format(v), y,
                     x.astype('f4').astype(float), rtol=1e-7, atol=1e-37)
