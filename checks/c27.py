"""C27 A run in memory over any part of the grid is that part of the result"""
import os
import shutil

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C27'
RULE = ('worlds of 1-6 cells run into files, and again with MetSim as a '
        'library (load_inputs, run_slice, output) for the whole grid or a '
        'drawn rectangle of it, from files that may be gone or replaced '
        'once they are loaded or from data in memory, at any verbosity, '
        'once or twice, several objects in turn; values, times, '
        'coordinates, units and number type equal those of the files; '
        'non-trivial: a part of the grid that is not all of it, or '
        'several cells')
BUDGET = {'quick': 26, 'thorough': 400}


@st.composite
def _cases(draw):
    ts = draw(st.one_of(st.just(1440), gen.steps()))
    cfg = gen.cfgs(
        time_step=st.just(ts),
        utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        out_precision=st.sampled_from(['f8', 'f8', 'f4']),
        out_freq=gen.maybe(st.sampled_from(['D', 'MS', '12H', '2D'])),
        prec_type=gen.maybe(st.sampled_from(['uniform', 'triangle', 'mix'])),
        constant_vars=gen.maybe(st.just({'wind': 2.5})),
        **dict(gen.TUNING, **gen.LW))
    c = draw(gen.worlds(long=[13, 34], cfg=cfg, days=(1, 4), max_cells=6,
                        triangle=True, wind='maybe'))
    g = c['grid']
    n = [len(g['lat'])] if g['kind'] == 'hru' else [
        len(g['lat']), len(g['lon'])]
    if g['kind'] == 'lonlat':
        n = n[::-1]
    parts = []
    for k in range(draw(st.integers(1, 3))):
        box = []
        for size in n:
            a = draw(st.integers(0, size - 1))
            # the end may lie beyond the grid, as that of the last chunk
            box.append([a, draw(st.integers(a + 1, size + 1))]
                       if draw(st.integers(0, 4)) else None)
        parts.append({
            'box': box, 'whole': draw(st.integers(0, 4)) == 0,
            'load': draw(st.sampled_from(['open', 'close', 'close'])),
            'files': draw(st.sampled_from(['stay', 'gone', 'other'])),
            'twice': draw(st.booleans()),
            'verbose': draw(st.sampled_from([0, 10, 20, 30, None]))})
    c['parts'] = parts
    c['data'] = draw(st.sampled_from(['netcdf', 'netcdf', 'data']))
    c['turns'] = draw(st.booleans())
    c['verbose'] = draw(st.sampled_from([None, 0, 10, 20]))
    c['units'] = draw(st.booleans())
    return c


def strategy(tier):
    return _cases()


def run_case(case, ctx):
    from metsim.metsim import MetSim
    w = World(case)
    label_world(ctx, w)
    ctx.label('input:' + case['data'])
    part = any(not q['whole'] and any(q['box']) for q in case['parts'])
    ctx.nontrivial(part or w.ncell > 1)
    if part:
        ctx.label('part of the grid')
    with scratch() as d:
        p = w.write(d)
        if case['units']:
            for n, u in (('prec', 'mm s-1'), ('temp', 'K'), ('t_min', 'K')):
                if n in p['out_vars']:
                    p['out_vars'][n]['units'] = u
        quiet = dict(p)
        if case['verbose'] is not None:
            quiet['verbose'] = case['verbose']
        world.run_metsim(quiet)
        a = Out(p['out_dir'], p.get('out_prefix', 'forcing'))
        if case['data'] == 'data':
            p.update(forcing=w.forcing_ds(), forcing_fmt='data')
        todo = [(q, make(MetSim, w, p, q)) for q in case['parts']] \
            if case['turns'] else [(q, None) for q in case['parts']]
        for q, ms in todo:
            one(MetSim, w, p, q, ms, a, ctx)


def boxes(w, q):
    if q['whole']:
        return {}
    return {n: slice(*b) for n, b in zip(w.dims, q['box']) if b}


def make(MetSim, w, p, q):
    args = dict(p)
    if q['verbose'] is not None:
        args['verbose'] = q['verbose']
    if q['whole']:
        return world.call(MetSim, args)
    return world.call(MetSim, args, domain_slice=boxes(w, q))


def one(MetSim, w, p, q, ms, a, ctx):
    d = os.path.dirname(p['domain'])
    ms = ms or make(MetSim, w, p, q)
    world.call(ms.load_inputs, q['load'] == 'close')
    names = [p[k] for k in ('forcing', 'state', 'domain')
             if isinstance(p[k], str)]
    ctx.label('files ' + q['files'])
    if q['files'] == 'gone':
        for f in names:
            os.rename(f, f + '.kept')
    elif q['files'] == 'other':
        # other contents in the same file
        for f in names:
            shutil.copy(f, f + '.kept')
        for f in names:
            shutil.copyfile(p['domain'] + '.kept', f)
    try:
        world.call(ms.run_slice)
        compare('run_slice', ms, w, p, q, a)
        if q['twice']:
            ctx.label('run_slice twice')
            world.call(ms.run_slice)
            compare('run_slice once more', ms, w, p, q, a)
    finally:
        if q['files'] == 'gone':
            for f in names:
                os.replace(f + '.kept', f)
        elif q['files'] == 'other':
            for f in names:
                shutil.copyfile(f + '.kept', f)


def compare(what, ms, w, p, q, a):
    o = ms.output
    box = boxes(w, q)
    if list(pd.DatetimeIndex(o['time'].values)) != list(a.stamps()):
        fail('{}: output has {} times from {}; the files have {} from {}',
             what, o.sizes['time'], o['time'].values[0], len(a.time),
             a.time[0])
    if set(o.data_vars) != set(p['out_vars']):
        fail('{}: variables {} instead of {}', what, sorted(o.data_vars),
             sorted(p['out_vars']))
    for n in p['out_vars']:
        v = o[n]
        if set(v.dims) != {'time'} | set(w.dims):
            fail('{}: {} has dimensions {}', what, n, v.dims)
        v = v.transpose('time', *w.dims)
        want = nan_fill(a[n])[tuple(
            box.get(k, slice(None)) if k != 'time' else slice(None)
            for k in ('time',) + tuple(w.dims))]
        assert_close('{}: {}'.format(what, n), v.values, want)
        if v.dtype != a.parts[0]['dtype'][n]:
            fail('{}: type of {} is {}; in the files it is {}', what, n,
                 v.dtype, a.parts[0]['dtype'][n])
        for k in ('units', 'long_name'):
            if v.attrs.get(k) != a.attrs[n].get(k):
                fail('{}: {} of {} is {!r}; in the files it is {!r}', what, k,
                     n, v.attrs.get(k), a.attrs[n].get(k))
    for k in w.dims:
        if k in w.coords:
            if k not in o.coords:
                fail('{}: output has no coordinate {}', what, k)
            assert_close('{}: coordinate {}'.format(what, k), o[k].values,
                         np.asarray(w.coords[k], float)[
                             box.get(k, slice(None))])
