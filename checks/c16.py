"""C16 INI, YAML, command line and dictionary configure the same run"""
import os
import sys

import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch

PROP = 'C16'
RULE = ('random configurations of a world of 1-4 cells (any subset of the '
        'documented options, output variables as list, mapping or absent, '
        'constant variables, chunks, forcing as file, glob or directory of '
        'netCDF, ASCII or binary files) written as INI and as YAML with '
        'comments, blank lines and option orders drawn, run through the '
        'configuration reader or the command line, and compared with the '
        'same options given as a dictionary; non-trivial: three or more '
        'optional settings')
BUDGET = {'quick': 26, 'thorough': 500}
ASSUMPTIONS = ['output precision is always given where values are compared '
               '(documentation and code disagree on its default)']

OPTIONS = dict(
    out_prefix=gen.maybe(st.sampled_from(['forcing', 'conf_run'])),
    prec_type=gen.maybe(st.sampled_from(['uniform', 'triangle', 'mix',
                                         'TRIANGLE'])),
    utc_offset=gen.maybe(st.booleans()),
    period_ending=gen.maybe(st.booleans()),
    out_freq=gen.maybe(st.sampled_from(['D', 'MS'])),
    method=gen.maybe(st.just('mtclim')),
    tdew_tol=gen.maybe(st.sampled_from([1e-6, 1e-8])),
    **dict(gen.TUNING, **gen.LW))


@st.composite
def _cases(draw):
    ts = draw(st.sampled_from([1440, 60, 180, 30, 360]))
    cfg = gen.cfgs(time_step=st.just(ts), out_precision=st.sampled_from(
        ['f8', 'f8', 'f4']), **OPTIONS)
    c = draw(gen.worlds(long=[13, 34], kinds=('latlon', 'latlon', 'hru'), cfg=cfg,
                        days=(1, 5), max_cells=4, triangle=True))
    c['front'] = draw(st.sampled_from(['ini', 'yaml', 'ini', 'yaml',
                                       'ini-cli', 'yaml-cli']))
    fmts = ['netcdf', 'netcdf', 'glob', 'dir']
    if c['grid']['kind'] == 'latlon':
        fmts += ['ascii', 'binary', 'ascii', 'binary']
    c['fmt'] = draw(st.sampled_from(fmts))
    names = world.DAY_VARS if ts == 1440 else world.SUB_VARS
    pick = draw(st.lists(st.sampled_from(names), min_size=1, unique=True))
    modes = ['list', 'map', 'units']
    if c['front'].startswith('ini'):
        modes = ['list', 'map', 'both']
    if ts != 1440:
        modes.append('absent')
    c['outs'] = [draw(st.sampled_from(modes)), pick]
    from .c13 import UNITS
    c['units'] = [draw(st.one_of(st.none(), st.sampled_from(UNITS[v])))
                  for v in pick]
    c['const'] = draw(st.sampled_from(
        [None, None, {'wind': 2.5}, {'wind': 3, 'prec': 1.5}]))
    c['chunks'] = draw(st.sampled_from([{}, {'d0': 1}, {'d0': 10, 'd1': 1}]))
    c['order'] = draw(st.permutations(list(range(24))))
    c['noise'] = draw(st.lists(st.integers(0, 5), min_size=6, max_size=6))
    c['bool'] = draw(st.sampled_from(['True', 'true', 'TRUE']))
    c['dates'] = draw(st.sampled_from(['/', '-', 'quoted']))
    c['rename'] = draw(st.booleans())
    c['args'] = draw(st.permutations([
        [draw(st.sampled_from(['-s', '--scheduler'])), draw(st.sampled_from(
            ['single-threaded', 'single-threaded', 'threading', 'sync']))],
        draw(st.sampled_from([['-n', '1'], ['--num_workers', '2'], []])),
        draw(st.sampled_from([['-v'], ['--verbose'], [], []])),
        ['CONFIG']]))
    return c


def strategy(tier):
    return _cases()


NOISE = [[], ['# a comment'], [''], ['', '# [MetSim]', ''],
         ['    # an indented comment = with a value'], ['', '', '']]


def outname(v):
    return 'o_' + v if v < 'r' else 'Out_' + v.upper()


def build(case, w, d, ctx):
    """Returns (parameters as a dictionary, sections of a config file)"""
    p = w.write(d)
    del p['scheduler']
    fv = {v: k for k, v in p['forcing_vars'].items()}
    fmt = case['fmt']
    if fmt in ('ascii', 'binary'):
        from .c15 import cell_files
        c15 = dict(case, how=fmt, cols=[2, 0, 1, 3, 4], extra=0, flip=False,
                   stray=False, masked='data', scale=20)
        paths, fv = cell_files(c15, w, d, ctx)
        p['forcing_fmt'] = fmt
        where, p['forcing'] = d + '/cells', paths
        p['forcing_vars'] = dict(fv)
    elif fmt == 'netcdf':
        where = p['forcing']
        if case['rename']:
            f = w.forcing_ds().rename({'prec': 'Prec', 't_max': 'Tmax'})
            f.to_netcdf(d + '/r.nc')
            where = p['forcing'] = d + '/r.nc'
            fv.update(prec='Prec', t_max='Tmax')
            p['forcing_vars'] = {k: v for v, k in fv.items()}
    else:
        os.mkdir(d + '/parts')
        f = w.forcing_ds()
        h = (w.nd + 1) // 2
        for k, q in enumerate((slice(0, h), slice(h, None))):
            x = f.isel(time=q)
            if x.sizes['time']:
                x.to_netcdf('{}/parts/p{}.nc'.format(d, k))
        p['forcing'] = d + '/parts/*.nc'
        where = d + '/parts' if fmt == 'dir' else p['forcing']
    if case['rename']:
        rename(w.state_ds(), p, 'state', {'prec': 'P', 't_min': 'lowest',
                                          't_max': 'HIGH'})
        rename(w.domain_ds(), p, 'domain', {'elev': 'height', 'mask': 'Land',
                                            't_pk': 'peak', 'dur': 'D'})
    if case['const']:
        p['constant_vars'] = dict(case['const'])
    p['chunks'] = {w.dims[int(k[1])]: v for k, v in case['chunks'].items()
                   if int(k[1]) < len(w.dims)}
    mode, pick = case['outs']
    p.pop('out_vars')
    outs = {}
    if mode == 'list':
        outs = {v: {'out_name': v} for v in pick}
    elif mode in ('map', 'units'):
        outs = {v: {'out_name': outname(v)} for v in pick}
        if mode == 'units':
            for v, u in zip(pick, case['units']):
                if u:
                    outs[v]['units'] = u
    elif mode == 'both':
        h = (len(pick) + 1) // 2
        outs = {v: {'out_name': v if k < h else outname(v)}
                for k, v in enumerate(pick)}
    if outs:
        p['out_vars'] = outs
    if case['dates'] == '-':
        for k in ('start', 'stop'):
            p[k] = p[k].replace('/', '-')
    main = {k: p[k] for k in p if k not in (
        'out_vars', 'forcing_vars', 'domain_vars', 'state_vars', 'chunks',
        'constant_vars', 'forcing')}
    main['forcing'] = where
    sec = {'forcing_vars': fv,
           'domain_vars': {v: k for k, v in p['domain_vars'].items()},
           'state_vars': {v: k for k, v in p['state_vars'].items()},
           'chunks': p['chunks']}
    if case['const']:
        sec['constant_vars'] = case['const']
    return p, main, sec, outs


def rename(ds, p, what, names):
    names = {k: v for k, v in names.items() if k in ds}
    p[what] = p[what].replace('.nc', '_other.nc')
    ds.rename(names).to_netcdf(p[what])
    p[what + '_vars'] = {names.get(k, k): k
                         for k in p[what + '_vars'].values()}


def write_ini(case, path, main, sec, outs):
    lines = noise(case, 0) + ['[MetSim]']
    keys = shuffled(case, list(main))
    mode, pick = case['outs']
    named = {}
    for i, k in enumerate(keys):
        v = main[k]
        if isinstance(v, bool):
            v = case['bool'] if v else 'False'
        lines += ['{}{}= {}'.format(k, ' ' * (i % 3), v)] + noise(case, i)
        if i == 2:
            whole = [v for v in outs if outs[v]['out_name'] == v]
            named = {v: c['out_name'] for v, c in outs.items()
                     if c['out_name'] != v}
            if whole and mode != 'map':
                lines.append('out_vars = ' + (
                    repr(whole) if case['noise'][0] % 2 else
                    repr(whole).replace("'", '"')))
    for s in shuffled(case, list(sec)):
        lines += noise(case, len(s)) + ['[{}]'.format(s)]
        lines += ['{} = {}'.format(k, v) for k, v in sec[s].items()]
    if named:
        lines += ['[out_vars]']
        lines += ['{} = {}'.format(k, v) for k, v in named.items()]
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


def write_yaml(case, path, main, sec, outs):
    def val(k, v):
        if isinstance(v, bool):
            return case['bool'].replace('TRUE', 'True') if v else 'False'
        if isinstance(v, str) and not (
                k in ('start', 'stop') and case['dates'] == '-'):
            return "'{}'".format(v)
        if isinstance(v, float) and 'e' in repr(v):
            # how the documentation writes 1e-6
            return repr(v)
        return str(v)
    lines = noise(case, 0) + ['MetSim:']
    keys = shuffled(case, list(main))
    mode, pick = case['outs']
    for i, k in enumerate(keys):
        lines += ['    {}: {}'.format(k, val(k, main[k]))] + noise(case, i)
    if mode == 'list':
        lines.append('    out_vars: {}'.format(list(outs)))
    for s in shuffled(case, list(sec)):
        lines += noise(case, len(s))
        lines += ['{}:{}'.format(s, '' if sec[s] else ' {}')]
        lines += ["    {} : {}".format(k, val('', v))
                  for k, v in sec[s].items()]
    if outs and mode != 'list':
        lines += ['out_vars:']
        for v, c in outs.items():
            lines += ['    {}:'.format(v)]
            lines += ["        {}: '{}'".format(a, b) for a, b in c.items()]
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


def noise(case, i):
    return NOISE[case['noise'][i % 6]]


def shuffled(case, keys):
    keys = sorted(keys)
    order = [i for i in case['order'] if i < len(keys)]
    return [keys[i] for i in order] + [k for i, k in enumerate(keys)
                                       if i not in order]


def run_file(path, cli, args):
    """Run a configuration file the way the command line does"""
    from metsim import io
    from metsim.cli import ms as prog
    from metsim.metsim import MetSim
    argv = [path if a == 'CONFIG' else a for q in args for a in q]

    def go():
        if cli:
            old = sys.argv
            sys.argv = ['ms'] + argv
            try:
                prog.main()
            except SystemExit as e:
                raise RuntimeError('command line ended with {}'.format(e))
            finally:
                sys.argv = old
        else:
            MetSim(io.read_config(prog.parse(argv))).run()
    world.call(go)


def run_case(case, ctx):
    w = World(case)
    label_world(ctx, w)
    kind, _, cli = case['front'].partition('-')
    ctx.label('front end:' + case['front'], 'forcing:' + case['fmt'],
              'out_vars:' + case['outs'][0])
    ctx.nontrivial(len(case['cfg']) >= 5)
    if case['fmt'] == 'binary':
        w.prec = np.minimum(w.prec, 1500)
    with scratch() as d:
        p, main, sec, outs = build(case, w, d, ctx)
        world.run_metsim(dict(p, scheduler='single-threaded'))
        prefix = p.get('out_prefix', 'forcing')
        a = Out(p['out_dir'], prefix)
        main['out_dir'] = d + '/from_file'
        path = '{}/run.{}'.format(d, 'conf' if kind == 'ini' else 'yaml')
        (write_ini if kind == 'ini' else write_yaml)(case, path, main, sec,
                                                     outs)
        run_file(path, cli, case.get('args') or [
            ['CONFIG'], ['-s', 'single-threaded'], ['-n', '1']])
        b = Out(main['out_dir'], prefix)
    what = '{} configuration against dictionary'.format(kind)
    if [q['file'] for q in a.parts] != [q['file'] for q in b.parts]:
        fail('{}: files {} instead of {}', what, [q['file'] for q in b.parts],
             [q['file'] for q in a.parts])
    same_output(what, a, b, rtol=1e-12, atol=1e-12)
    for k in a.vars:
        if a.parts[0]['dtype'][k] != b.parts[0]['dtype'][k]:
            fail('{}: {} has type {} instead of {}', what, k,
                 b.parts[0]['dtype'][k], a.parts[0]['dtype'][k])
        for q in ('units', 'long_name'):
            if a.attrs[k].get(q) != b.attrs[k].get(q):
                fail('{}: {} of {} is {!r} instead of {!r}', what, q, k,
                     b.attrs[k].get(q), a.attrs[k].get(q))
    if p['out_vars'] if 'out_vars' in p else None:
        want = sorted(c['out_name'] for c in p['out_vars'].values())
        got = sorted(set(b.vars) - set(w.dims) - {'time'})
        if got != want:
            fail('{}: variables {} instead of {}', what, got, want)
    else:
        # the documented default
        want = ['longwave', 'prec', 'rel_humid', 'shortwave', 'temp',
                'vapor_pressure']
        got = sorted(set(b.vars) - set(w.dims) - {'time'})
        if got != want:
            fail('{}: default variables are {} instead of {}', what, got,
                 want)
