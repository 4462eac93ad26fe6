"""C14 Runs in one process do not influence each other"""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch
from vlib.zygote import Zygote

PROP = 'C14'
RULE = ('histories of 2-4 model instances with different configurations, '
        'worlds, units, names and time steps in one process, created and run '
        'in any interleaving, some of which fail on purpose, some of which '
        'share the same configuration objects; each result is compared with '
        'the one of a run alone in a fresh process; non-trivial: two '
        'instances that both succeed and differ in configuration')
BUDGET = {'quick': 20, 'thorough': 400}

BAD = [{'time_step': 7}, {'out_vars': {}}, {'lw_type': 'none'},
       {'out_precision': 'f2'}, {'domain': '/nonexistent.nc'},
       {'start': '1800/01/01'}]


@st.composite
def _cases(draw):
    n = draw(st.integers(2, 3))
    runs = []
    base = None
    for k in range(n):
        ts = draw(st.sampled_from([1440, 60, 180, 360]))
        cfg = gen.cfgs(
            time_step=st.just(ts),
            prec_type=gen.maybe(st.sampled_from(['triangle', 'mix'])),
            utc_offset=gen.maybe(st.booleans()),
            period_ending=gen.maybe(st.booleans()),
            out_precision=gen.maybe(st.sampled_from(['f8', 'f4'])),
            out_freq=gen.maybe(st.just('D')),
            constant_vars=gen.maybe(st.just({'wind': 4.5})),
            **dict(gen.TUNING, **gen.LW))
        c = draw(gen.worlds(long=[13, 34], cfg=cfg, days=(1, 3), max_cells=2,
                            triangle=True, wind='maybe'))
        if base is not None and draw(st.booleans()):
            # the same place with other options or elevation
            cf = c['cfg']
            c = copy_case(base)
            c['cfg'] = cf
            if draw(st.booleans()):
                c['elev'] = [e + 900 for e in c['elev']]
        base = c
        c['start'] = '200{}'.format(k) + c['start'][4:].replace('-02-29',
                                                                '-02-28')
        names = world.DAY_VARS if ts == 1440 else world.SUB_VARS
        mode = draw(st.sampled_from(['default', 'names', 'units', 'absent']))
        has_wind = c['wind'] is not None or 'constant_vars' in c['cfg']
        names = [x for x in names if has_wind or x != 'wind']
        if mode == 'names':
            pick = draw(st.lists(st.sampled_from(names), min_size=1,
                                 unique=True))
            c['cfg']['out_vars'] = {x: {'out_name': 'o_' + x} for x in pick}
        elif mode == 'units':
            from .c13 import UNITS
            c['cfg']['out_vars'] = {
                x: {'out_name': x, 'units': draw(st.sampled_from(
                    UNITS[x][::-1]))} for x in names}
        elif mode == 'absent' and ts != 1440:
            c['cfg']['out_vars'] = None
        # fails when it is run; its configuration may be looked at before
        c['bad'] = draw(st.sampled_from([None, None, None, None] + BAD))
        c['order'] = draw(st.integers(0, 5))
        runs.append(c)
    order = draw(st.permutations([('new', k) for k in range(n)]
                                 + [('run', k) for k in range(n)]))
    seen, hist = set(), []
    for op, k in order:
        hist.append(['run' if k in seen else 'new', k])
        seen.add(k)
    # now and then one after another, on input files of the same names
    place = not draw(st.integers(0, 3))
    if place:
        hist = [[op, k] for k in range(n) for op in ('new', 'run')]
    return {'runs': runs, 'hist': hist, 'place': place,
            'twice': draw(st.sampled_from([None, None, 0, 1])),
            'share': draw(st.booleans())}


def strategy(tier):
    return _cases()


def _params(c, d):
    w = World(c)
    p = w.write(d)
    if p.get('out_vars', 0) is None:
        del p['out_vars']      # the documented default
    if c['bad']:
        p.update(copy_case(c['bad']))
    # a run leaves its files where it is told to
    p['out_dir'] = os.path.join(d, 'out')
    return p


def _result(c, p):
    o = Out(p['out_dir'])
    return {'times': [str(t) for t in o.time],
            'vars': {k: np.asarray(v) for k, v in o.vars.items()},
            'dtype': {k: str(v) for k, v in o.parts[0]['dtype'].items()},
            'attrs': {k: {a: str(b) for a, b in v.items()}
                      for k, v in o.attrs.items()},
            'files': [q['file'] for q in o.parts],
            'global': {k: str(v) for k, v in o.parts[0]['global'].items()
                       if k not in ('history', 'forcing', 'state', 'domain',
                                    'out_dir')}}


def history(runs, hist, share, place=False):
    """Outcome of every run of a history: ('ok', result) or ('raised',)"""
    from metsim.metsim import MetSim
    res, ms, par = {}, {}, {}
    with scratch() as d:
        for k, c in enumerate(runs):
            os.mkdir(os.path.join(d, str(k)))
            if place:
                continue
            par[k] = _params(c, os.path.join(d, str(k)))
            if share:
                # the same configuration objects wherever they are equal
                for q in ('out_vars', 'forcing_vars', 'domain_vars',
                          'state_vars'):
                    for j in range(k):
                        if q in par[k] and par[j].get(q) == par[k][q]:
                            par[k][q] = par[j][q]
        for op, k in hist:
            if place and op == 'new':
                same = os.path.join(d, 'same')
                os.makedirs(same, exist_ok=True)
                for f in os.listdir(same):
                    os.remove(os.path.join(same, f))
                par[k] = _params(runs[k], same)
                par[k]['out_dir'] = os.path.join(d, str(k), 'out')
            try:
                with world.quiet():
                    if op == 'new':
                        ms[k] = MetSim(par[k])
                    elif op == 'run' and k in ms:
                        ms[k].run()
                        res[k] = ('ok', _result(runs[k], par[k]))
            except Exception as e:
                res[k] = ('raised', '{}: {}'.format(type(e).__name__,
                                                    str(e)[:200]))
    return res


_zygote = None


def run_case(case, ctx):
    global _zygote
    if _zygote is None or _zygote.owner != os.getpid():
        _zygote = Zygote()
    try:
        _run_case(case, ctx)
    except BaseException as e:
        if not isinstance(e, Violation):
            _zygote = None      # it may still be busy
        raise


def _run_case(case, ctx):
    runs, hist = case['runs'], case['hist']
    if case['twice'] is not None:
        k = case['twice'] % len(runs)
        # the configuration once more, after everything else
        runs = runs + [runs[k]]
        hist = hist + [['new', len(runs) - 1], ['run', len(runs) - 1]]
        ctx.label('repeated')
    place = bool(case.get('place'))
    together = value(_zygote(history, runs, hist, case['share'], place))
    ctx.label('instances:{}'.format(len(runs)),
              'interleaved' if [h[0] for h in hist[:2]] == ['new', 'new']
              else 'in turn', 'shared objects' if case['share'] else None,
              'same input files rewritten' if place else None)
    done = 0
    for k, c in enumerate(runs):
        alone = value(_zygote(history, [c], [['new', 0], ['run', 0]],
                              False))[0]
        got = together[k]
        what = 'run {} of the history {}'.format(
            k, ' '.join('{}{}'.format(*h) for h in hist))
        if c['bad']:
            ctx.label('fails')
            if alone[0] != 'raised':
                # not this property's concern
                continue
        elif alone[0] != 'ok':
            fail('run alone {}', alone[1])
        if got[0] != alone[0]:
            fail('{}: {} although alone it {}', what, 'succeeds' if
                 got[0] == 'ok' else got[1], alone[1] if alone[0] != 'ok'
                 else 'succeeds')
        if got[0] != 'ok':
            continue
        done += 1
        same(what, alone[1], got[1])
    ctx.nontrivial(done > 1)


def value(res):
    if res[0] == 'ok':
        return res[1]
    if res[0] == 'error' and res[1] in ('Violation', 'CodeError'):
        fail(res[2])
    if res[0] == 'died':
        fail('the process died with status {}', res[1])
    raise RuntimeError(res[-1])


def same(what, a, b):
    for k in ('files', 'times', 'dtype', 'attrs', 'global'):
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                for x in sorted(set(a[k]) | set(b[k])):
                    if a[k].get(x) != b[k].get(x):
                        fail('{}: {} of {} is {} instead of {}', what, k, x,
                             b[k].get(x), a[k].get(x))
            fail('{}: {} is {} instead of {}', what, k, str(b[k])[:300],
                 str(a[k])[:300])
    for v in a['vars']:
        assert_close('{}: {}'.format(what, v), nan_fill(b['vars'][v]),
                     nan_fill(a['vars'][v]), rtol=0, atol=0)
