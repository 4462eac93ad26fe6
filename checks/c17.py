"""C17 What cannot be run is refused, what is documented is accepted"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C17'
RULE = ('valid runs of 1-6 cells in which exactly one thing is then made '
        'invalid: an option, a file, a variable, the period, the state '
        'record, the data of any one active cell (in any chunk, under any '
        'scheduler), or in which only something documented as allowed is '
        'changed; non-trivial: the broken thing is data of one of several '
        'cells, or a value at the border of what is allowed')
BUDGET = {'quick': 42, 'thorough': 800}

GOOD_STEPS = [s for s in gen.STEPS if s > 3] + [1440]
BAD_STEPS = [s for s in range(1, 1440) if 1440 % s or s > 360]

OPTION = ['time_step', 'time_step', 'time_step0', 'no_time_step', 'out_vars',
          'out_vars_daily', 'out_vars_sub', 'out_vars_unknown',
          'out_precision', 'lw_type', 'lw_cloud', 'prec_type', 'method',
          'forcing_fmt', 'out_dir', 'no_out_dir', 'no_forcing',
          'passthrough', 'constant', 'no_forcing_vars']
FILES = ['no_forcing_file', 'no_domain_file', 'no_state_file', 'no_var',
         'no_required', 'no_state_var', 'no_elev', 'no_mask', 'no_tpk',
         'forcing_cells', 'state_cells']
PERIOD = ['early', 'late', 'backwards', 'gap', 'state_first', 'state_last',
          'state_gap', 'short_ascii', 'short_binary', 'text']
DATA = ['tmax', 'tmax', 'tmax', 'tmax', 'nan_sub', 'ascii_missing']
GOOD = ['ok_step', 'ok_step', 'ok_caps', 'ok_dir', 'ok_state', 'ok_chunks',
        'ok_equal', 'ok_edges', 'ok_masked']


@st.composite
def _cases(draw):
    kind = draw(st.sampled_from(['option', 'file', 'period', 'data', 'data',
                                 'good']))
    what = draw(st.sampled_from({'option': OPTION, 'file': FILES, 'period':
                                 PERIOD, 'data': DATA, 'good': GOOD}[kind]))
    cfg = gen.cfgs(
        time_step=st.sampled_from([1440, 60, 180, 360]),
        utc_offset=gen.maybe(st.booleans()),
        prec_type=gen.maybe(st.sampled_from(['triangle', 'mix'])),
        scheduler=st.sampled_from(['single-threaded', 'single-threaded',
                                   'threading']))
    c = draw(gen.worlds(
        kinds=('latlon',) if what in ('short_ascii', 'short_binary', 'text',
                                      'ascii_missing') else
        ('latlon', 'hru', 'yx'), cfg=cfg, days=(2, 4), max_cells=6,
        triangle=True))
    c['what'] = what
    c['pick'] = [draw(st.integers(0, 1000)) for _ in range(3)]
    c['by'] = draw(st.sampled_from([1, 1, 5, 100]))
    c['step'] = draw(st.sampled_from(BAD_STEPS + [720, 480, 1439, 7, 361]))
    c['good_step'] = draw(st.sampled_from(GOOD_STEPS))
    c['chunk'] = draw(st.sampled_from([None, 1, 2]))
    c['word'] = draw(st.sampled_from(['none', 'x', 'default2', 'pratta',
                                      'unifrom', 'f16', 'F', 'f', '8']))
    return c


def strategy(tier):
    return _cases()


def spoil(case, w, p, d, ctx):
    """Make one thing invalid"""
    what = case['what']
    a, b, c = case['pick']
    act = w.active()
    one_of = lambda seq: seq[a % len(seq)]
    ts = int(p['time_step'])
    if what == 'time_step':
        p['time_step'] = case['step']
        p['out_vars'] = {'prec': {'out_name': 'prec'}}
    elif what == 'time_step0':
        p['time_step'] = one_of([0, -60, -1440, '', 'hourly', None])
    elif what == 'no_time_step':
        del p['time_step']
    elif what == 'out_vars':
        p['out_vars'] = {}
    elif what == 'out_vars_daily':
        v = one_of(['t_min', 't_max', 'pet', 'daylength'])
        p['time_step'] = one_of([60, 180])
        p['out_vars'] = {'prec': {'out_name': 'prec'}, v: {'out_name': v}}
    elif what == 'out_vars_sub':
        v = one_of(['temp', 'longwave', 'rel_humid', 'air_pressure',
                    'spec_humid'])
        p['time_step'] = 1440
        p['out_vars'] = {'prec': {'out_name': 'prec'}, v: {'out_name': v}}
    elif what == 'out_vars_unknown':
        p['out_vars'] = {'prec': {'out_name': 'p'},
                         case['word']: {'out_name': 'q'}}
    elif what == 'out_precision':
        p['out_precision'] = one_of(['f2', 'f16', 'double', '', None, 'f'])
    elif what in ('lw_type', 'lw_cloud', 'prec_type', 'method'):
        p[what] = case['word']
    elif what == 'forcing_fmt':
        p['forcing_fmt'] = one_of(['', 'csv', None, 'netcdf4'])
    elif what == 'out_dir':
        p['out_dir'] = one_of(['', None])
    elif what == 'no_out_dir':
        del p['out_dir']
    elif what == 'no_forcing':
        p['forcing'] = one_of(['', []])
    elif what == 'no_forcing_vars':
        p['forcing_vars'] = {}
    elif what == 'passthrough':
        p['method'] = 'passthrough'       # without shortwave
    elif what == 'constant':
        p['constant_vars'] = {'wind': case['word']}
    elif what in ('no_forcing_file', 'no_domain_file', 'no_state_file'):
        p[what.split('_')[1]] = d + '/nonexistent.nc'
    elif what == 'no_var':
        p['forcing_vars'] = {('absent' if v == one_of(
            ['prec', 't_min', 't_max']) else k): v
            for k, v in p['forcing_vars'].items()}
    elif what == 'no_required':
        p['forcing_vars'] = {k: v for k, v in p['forcing_vars'].items()
                             if v != one_of(['prec', 't_min', 't_max'])}
    elif what == 'no_state_var':
        p['state_vars'] = {k: v for k, v in p['state_vars'].items()
                           if v != one_of(['prec', 't_min', 't_max'])}
    elif what in ('no_elev', 'no_mask'):
        p['domain_vars'] = {k: v for k, v in p['domain_vars'].items()
                            if v != what[3:]}
    elif what == 'no_tpk':
        p['prec_type'] = one_of(['triangle', 'mix'])
        drop = ['t_pk', 'dur'][b % 2]
        p['domain_vars'] = {k: v for k, v in p['domain_vars'].items()
                            if v != drop}
    elif what in ('forcing_cells', 'state_cells'):
        k = what.split('_')[0]
        ds = w.forcing_ds() if k == 'forcing' else w.state_ds()
        dim = w.dims[b % len(w.dims)]
        if ds.sizes[dim] == 1 or w.kind == 'hru':
            return False
        ds.isel({dim: slice(1, None)}).to_netcdf(d + '/q.nc')
        p[k] = d + '/q.nc'
    elif what == 'early':
        p['start'] = (w.start - pd.Timedelta(case['by'], 'D')).strftime(
            '%Y/%m/%d')
    elif what == 'late':
        p['stop'] = (w.stop + pd.Timedelta(case['by'], 'D')).strftime(
            '%Y/%m/%d')
    elif what == 'backwards':
        p['start'], p['stop'] = p['stop'], p['start']
    elif what == 'gap':
        if w.nd < 3:
            return False
        keep = [i for i in range(w.nd) if i != 1 + b % (w.nd - 2)]
        w.forcing_ds().isel(time=keep).to_netcdf(d + '/q.nc')
        p['forcing'] = d + '/q.nc'
    elif what.startswith('state_'):
        keep = list(range(90))
        drop = {'state_first': 0, 'state_last': 89,
                'state_gap': 1 + b % 88}[what]
        del keep[drop]
        w.state_ds().isel(time=keep).to_netcdf(d + '/q.nc')
        p['state'] = d + '/q.nc'
    elif what in ('short_ascii', 'short_binary', 'text', 'ascii_missing'):
        from .c15 import cell_files
        fmt = 'binary' if what == 'short_binary' else 'ascii'
        w.prec = np.minimum(w.prec, 1500)
        paths, fv = cell_files(dict(
            case, how=fmt, cols=[0, 1, 2, 3, 4], extra=0, flip=False,
            stray=False, masked='data', scale=20), w, d, ctx)
        k = act[b % len(act)]
        with open(paths[k], 'rb') as f:
            text = f.read()
        if what == 'short_ascii':
            text = b''.join(text.splitlines(True)[:-1])
        elif what == 'short_binary':
            text = text[:-2 * len(fv)]
        elif what == 'text':
            text = text.replace(text.split()[0], b'12x4', 1)
        with open(paths[k], 'wb') as f:
            f.write(text)
        if what == 'ascii_missing':
            if ts == 1440:
                return False
            del paths[k]
            if not paths:
                return False
        p.update(forcing_fmt=fmt, forcing=paths, forcing_vars=fv)
    elif what == 'tmax':
        k, t = act[b % len(act)], c % w.nd
        w.t_max[t, k] = w.t_min[t, k] - .1 * case['by']
        w.forcing_ds().to_netcdf(d + '/q.nc')
        p['forcing'] = d + '/q.nc'
    elif what == 'nan_sub':
        if ts == 1440:
            return False
        k, t = act[b % len(act)], c % w.nd
        (w.t_max if a % 2 else w.t_min)[t, k] = np.nan
        w.forcing_ds().to_netcdf(d + '/q.nc')
        p['forcing'] = d + '/q.nc'
    else:
        raise AssertionError(what)
    if what in ('out_vars_unknown',) and case['word'] in (
            world.DAY_VARS if ts == 1440 else world.SUB_VARS):
        return False
    return True


def allow(case, w, p, d):
    """Change only what may be changed; returns the number of steps"""
    what = case['what']
    a, b, c = case['pick']
    if what == 'ok_step':
        p['time_step'] = case['good_step']
        p['out_vars'] = w.default_out(case['good_step'])
    elif what == 'ok_caps':
        p['lw_type'] = ['PRATA', 'Tva', 'ANDERSON', 'dEfault', 'Idso'][a % 5]
        p['lw_cloud'] = ['DEFAULT', 'Cloud_Deardorff', 'CLOUD_DEARDORFF'][
            b % 3]
        p['prec_type'] = ['UNIFORM', 'Triangle', 'MIX'][c % 3]
    elif what == 'ok_dir':
        p['out_dir'] = d + '/new/and/deeper'
    elif what == 'ok_state':
        # a longer state record
        s = w.state_ds()
        t = pd.date_range(end=w.sdays[0] - pd.Timedelta('1D'), periods=20)
        u = w.forcing_ds()[['prec', 't_min', 't_max']]
        xr.concat([s.isel(time=slice(0, 20)).assign_coords(time=t), s, u],
                  dim='time').to_netcdf(d + '/q.nc')
        p['state'] = d + '/q.nc'
    elif what == 'ok_chunks':
        p['chunks'] = {k: [1, 5, 1000][a % 3] for k in w.dims}
    elif what == 'ok_equal':
        w.t_max = w.t_min.copy()
        w.forcing_ds().to_netcdf(d + '/q.nc')
        p['forcing'] = d + '/q.nc'
    elif what == 'ok_edges':
        p['start'] = p['stop']
        # the state window moves along
        s = xr.concat([w.state_ds(), w.forcing_ds()[['prec', 't_min',
                                                     't_max']]], dim='time')
        s.to_netcdf(d + '/q.nc')
        p['state'] = d + '/q.nc'
        return 1440 // int(p['time_step'])
    elif what == 'ok_masked':
        off = np.flatnonzero(w.mask == 0)
        w.t_max[:, off] = np.nan
        w.prec[:, off] = np.nan
        w.forcing_ds().to_netcdf(d + '/q.nc')
        p['forcing'] = d + '/q.nc'
    return w.nd * 1440 // int(p['time_step'])


def run_case(case, ctx):
    w = World(case)
    what = case['what']
    ctx.label('what:' + what, 'grid:' + w.kind)
    ctx.nontrivial(what in ('tmax', 'nan_sub', 'time_step', 'early', 'late',
                            'ok_step') and len(w.active()) > 1)
    with scratch() as d:
        p = w.write(d)
        if case['chunk']:
            p['chunks'] = {w.dims[0]: case['chunk']}
        if what.startswith('ok_'):
            n = allow(case, w, p, d)
            world.run_metsim(p)
            o = Out(p['out_dir'])
            if len(o.time) != n:
                fail('{}: {} time steps instead of {}', what, len(o.time), n)
            for v in p['out_vars']:
                if not np.isfinite(nan_fill(o.cells(v))[:, w.active()]).all():
                    fail('{}: {} has gaps', what, v)
            return
        if not spoil(case, w, p, d, ctx):
            ctx.label('not applicable')
            return
        try:
            world.run_metsim(p)
        except world.CodeError as e:
            ctx.label('refused with ' + type(e.exc).__name__)
            return
        fail('a run with an invalid {} ended without an error'.format(what))
