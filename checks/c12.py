"""C12 The output files cover the requested period exactly once"""
import datetime
import os
import re

import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C12'
RULE = ('runs of 1-40 days inside a forcing record that is up to 5 days '
        'longer on either side, start and stop given in any accepted way, '
        'steps of 1-1440 min, period-beginning or -ending, any output '
        'frequency, prefix and output directory (possibly holding files of '
        'an earlier run); non-trivial: several files, or a record longer '
        'than the run')
BUDGET = {'quick': 36, 'thorough': 700}
ASSUMPTIONS = ['anchored frequencies (A, Q) end with the calendar year and '
               'quarter, multiples of days and hours start with the record']
FREQS = [None, '', 'D', '2D', '3D', '7D', 'MS', 'M', 'A', 'YS', '12H', '6H',
         '1D', '24H', '48H']


@st.composite
def _cases(draw):
    ts = draw(st.one_of(st.just(1440), st.sampled_from([60, 180, 360, 720 // 4,
                                                        30, 5, 1]),
                        gen.steps()))
    nd = draw(st.integers(1, 3) if ts < 10 else st.integers(1, 8) if ts < 60
              else st.one_of(st.integers(1, 8), st.integers(1, 40)))
    cfg = gen.cfgs(
        time_step=st.one_of(st.just(ts), st.just(str(ts))),
        utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        out_freq=st.sampled_from(FREQS),
        out_prefix=gen.maybe(st.sampled_from(['forcing', 'met_x', 'A-1.b'])))
    c = draw(gen.worlds(kinds=('latlon', 'hru', 'yx'), max_cells=2,
                        days=(1, 1), cfg=cfg, wind=False))
    n = len(c['mask'])
    c['nd'] = nd
    for k, m in (('tmin', 7), ('dtr', 5), ('prec', 3)):
        row = c[k][0]
        c[k] = [[v + (m * i) % 23 for v in row] for i in range(nd)]
    c['before'] = draw(st.sampled_from([0, 0, 1, 5]))
    c['after'] = draw(st.sampled_from([0, 0, 1, 5]))
    c['how'] = draw(st.sampled_from(['/', '-', 'datetime', 'date', 'forcing',
                                     'short', 'timestamp']))
    if c['how'] == 'forcing':
        c['before'] = c['after'] = 0
    c['stale'] = draw(st.booleans())
    return c


def strategy(tier):
    return _cases()


def label_of(freq, t, first):
    """Key of the output period that a time step belongs to"""
    if not freq:
        return 0
    if freq in ('M', 'MS'):
        return t.year, t.month
    if freq in ('A', 'YS'):
        return t.year
    k, unit = re.match(r'(\d*)([DH])', freq).groups()
    width = int(k or 1) * (24 if unit == 'D' else 1)
    origin = first.normalize()
    return int((t - origin) // pd.Timedelta(hours=width))


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    ts = int(w.cfg['time_step'])
    freq = w.cfg.get('out_freq')
    ctx.label('out_freq={}'.format(freq), 'dates:' + case['how'])
    with scratch() as d:
        p = w.write(d)
        # a record that reaches beyond the run
        f = w.forcing_ds()
        parts = [f]
        if case['before']:
            x = f.isel(time=[0] * case['before']) + 1.
            parts.insert(0, x.assign_coords(time=pd.date_range(
                end=w.start - pd.Timedelta('1D'), periods=case['before'])))
        if case['after']:
            x = f.isel(time=[-1] * case['after']) + 1.
            parts.append(x.assign_coords(time=pd.date_range(
                w.stop + pd.Timedelta('1D'), periods=case['after'])))
        if len(parts) > 1:
            xr.concat(parts, dim='time').to_netcdf(d + '/long.nc')
            p['forcing'] = d + '/long.nc'
            ctx.label('longer record')
        for k, t in (('start', w.start), ('stop', w.stop)):
            p[k] = {'/': t.strftime('%Y/%m/%d'), '-': t.strftime('%Y-%m-%d'),
                    'datetime': t.to_pydatetime(), 'date': t.date(),
                    'short': '{}/{}/{}'.format(t.year, t.month, t.day),
                    'timestamp': t, 'forcing': 'forcing'}[case['how']]
        p['out_vars'] = {'prec': {'out_name': 'prec'}}
        p['out_dir'] = os.path.join(d, 'a', 'b') if case['stale'] else \
            os.path.join(d, 'out')
        prefix = p.get('out_prefix', 'forcing')
        world.run_metsim(p)
        if case['stale']:
            # a second run replaces what the first one wrote
            world.run_metsim(p)
        found = sorted(os.listdir(p['out_dir']))
        out = Out(p['out_dir'], prefix)
        q = dict(p, out_freq=None, out_dir=os.path.join(d, 'whole'))
        world.run_metsim(q)
        whole = Out(q['out_dir'], prefix)
    n = w.nd * 1440 // ts
    shift = ts if p.get('period_ending') else 0
    want = w.start + pd.to_timedelta(np.arange(n) * ts + shift, unit='min')
    got = out.stamps()
    if len(got) != n:
        fail('{} time steps instead of {} ({} to {})', len(got), n,
             got.min() if len(got) else None, got.max() if len(got) else None)
    bad = np.flatnonzero(np.asarray(got != want))
    if len(bad):
        fail('time step {} of the files in order is {} instead of {}',
             int(bad[0]), got[bad[0]], want[bad[0]])
    if any(str(q['calendar']) not in ('standard', 'gregorian',
                                      'proleptic_gregorian')
           for q in out.parts):
        fail('calendar of the time axis is {}', out.parts[0]['calendar'])
    names = [q['file'] for q in out.parts]
    ctx.nontrivial(len(names) > 1 or len(parts) > 1)
    ctx.label('files:{}'.format('1' if len(names) == 1 else 'several'))
    if sorted(names) != found:
        fail('output directory holds {}, files of the run are {}', found,
             names)
    # one file per period
    keys = [label_of(freq, t, want[0]) for t in want]
    groups, at = [], 0
    for k in range(1, n + 1):
        if k == n or keys[k] != keys[at]:
            groups.append(want[at:k])
            at = k
    if [q['n'] for q in out.parts] != [len(g) for g in groups]:
        fail('out_freq {!r}: files have {} time steps instead of {}', freq,
             [q['n'] for q in out.parts], [len(g) for g in groups])
    width = 99 if not freq or 'H' not in freq else int(freq[:-1])
    if width >= 24:
        for q, g in zip(out.parts, groups):
            name = '{}_{:%Y%m%d}-{:%Y%m%d}.nc'.format(prefix, g[0], g[-1])
            if q['file'] != name:
                fail('output file is named {} instead of {}', q['file'], name)
    kind = 'UTC' if p.get('utc_offset') else 'local'
    for q in out.parts:
        if kind.lower() not in q['tattrs'].get('long_name', '').lower():
            fail('time axis is described as {!r} in {} time',
                 q['tattrs'].get('long_name'), kind)
    same_output('split output against a single file', whole, out, rtol=0,
                atol=0)
    if not np.isfinite(nan_fill(out.cells('prec')[:, w.active()])).all():
        fail('precipitation has gaps')
