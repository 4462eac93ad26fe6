"""C25 An interrupted or failed run is reported and can simply be repeated"""
import os
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from vlib import gen, world
from vlib.common import *
from vlib.world import scratch
from vlib.zygote import Zygote

PROP = 'C25'
RULE = ('a run of 1-4 cells, whole or in chunks, in which one line of the '
        'package is made to kill the process or to raise an error, at a '
        'drawn fraction of the lines that an undisturbed run executes; the run has to fail or else be complete, and a repetition '
        'into the same directory (in the same process, for errors) has to '
        'give what the undisturbed run gave; non-trivial: the fault struck')
BUDGET = {'quick': 26, 'thorough': 500}
ASSUMPTIONS = ['faults strike between the lines of the package, not '
               'inside the libraries it uses',
               'no error (but for the kill) strikes while a with or try '
               'statement is entered or left, or in a finally block']


class Injected(Exception):
    pass


@st.composite
def _cases(draw):
    cfg = gen.cfgs(
        time_step=st.sampled_from([60, 180, 360, 1440]),
        utc_offset=gen.maybe(st.booleans()),
        period_ending=gen.maybe(st.booleans()),
        out_freq=gen.maybe(st.sampled_from(['D', 'MS', '12H', '2D'])),
        prec_type=gen.maybe(st.sampled_from(['uniform', 'triangle', 'mix'])),
        scheduler=st.sampled_from(['single-threaded', 'single-threaded',
                                   'threading']))
    c = draw(gen.worlds(cfg=cfg, days=(1, 4), max_cells=4, triangle=True,
                        wind='maybe'))
    c['chunk'] = draw(st.sampled_from([True, True, False]))
    c['kind'] = draw(st.sampled_from(['kill', 'error', 'error', 'oserror']))
    c['at'] = draw(st.integers(0, 999))
    c['fmt'] = draw(st.sampled_from(['netcdf', 'data']))
    return c


def strategy(tier):
    return _cases()


def code_objects():
    """Every code object of the package under test"""
    import types
    import metsim
    root = os.path.realpath(os.path.dirname(metsim.__file__)) + os.sep
    seen = {}

    def add(code):
        if id(code) in seen:
            return
        seen[id(code)] = code
        for x in code.co_consts:
            if isinstance(x, types.CodeType):
                add(x)

    def visit(obj, depth):
        if isinstance(obj, (staticmethod, classmethod)):
            obj = obj.__func__
        if isinstance(obj, property):
            for f in (obj.fget, obj.fset):
                visit(f, depth)
        obj = getattr(obj, '__wrapped__', obj)
        code = getattr(obj, '__code__', None)
        if isinstance(code, types.CodeType):
            if os.path.realpath(code.co_filename).startswith(root):
                add(code)
        elif isinstance(obj, type) and depth < 3:
            if str(obj.__module__).startswith('metsim'):
                for v in vars(obj).values():
                    visit(v, depth + 1)
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] == 'metsim' and mod is not None:
            for v in list(vars(mod).values()):
                visit(v, 0)
    # what decorators hide
    import gc
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType) and \
                f.__code__.co_filename.startswith(root):
            add(f.__code__)
    return list(seen.values())


def cleanup_lines(filename):
    """Lines at which no error can arise, or only in letting go of something

    When a `with` block is left its first line is reported once more; an
    error from there would keep the context from being closed, and so would
    one between acquiring and `try`, or in `finally`.
    """
    import ast
    with open(filename, encoding='utf-8') as f:
        tree = ast.parse(f.read())
    lines = set()

    def span(a, b):
        lines.update(range(a.lineno, b.end_lineno + 1))
    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)):
            lines.update(range(node.lineno, node.body[0].lineno))
        elif isinstance(node, ast.Try):
            lines.add(node.lineno)
            if node.finalbody:
                span(node.finalbody[0], node.finalbody[-1])
        elif isinstance(node, ast.FunctionDef) and node.name in (
                '__exit__', '__del__', 'release', 'close'):
            span(node, node)
    return lines


_CODES = []
_CLEANUP = {}
TOOL = 3


class Faults:
    """Counts executed lines; the nth one strikes"""

    def __init__(self, n=None, kind=None):
        self.n, self.kind = n, kind
        self.count, self.struck = 0, False
        self.lock = threading.Lock()

    def tick(self, code, line):
        with self.lock:
            self.count += 1
            if self.struck or self.n is None or self.count < self.n:
                return
            if self.kind != 'kill' and \
                    line in _CLEANUP.get(code.co_filename, ()):
                return      # the next line then
            self.struck = True
        if self.kind == 'kill':
            os._exit(9)
        if self.kind == 'oserror':
            raise OSError('injected')
        raise Injected('injected')

    def __enter__(self):
        if not _CODES:
            _CODES.extend(code_objects())
            for f in {c.co_filename for c in _CODES}:
                _CLEANUP[f] = cleanup_lines(f)
        m = sys.monitoring
        m.use_tool_id(TOOL, 'faults')
        m.register_callback(TOOL, m.events.LINE, self.tick)
        for c in _CODES:
            m.set_local_events(TOOL, c, m.events.LINE)
        return self

    def __exit__(self, *_):
        m = sys.monitoring
        for c in _CODES:
            m.set_local_events(TOOL, c, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)


def go(p):
    from metsim.metsim import MetSim
    with world.quiet():
        MetSim(p).run()


def run_case(case, ctx):
    fresh()     # before there are any threads
    w = World(case)
    label_world(ctx, w)
    if case['chunk']:
        w.cfg['chunks'] = {w.dims[0]: 1}
    ctx.label('fault:' + case['kind'])
    with scratch() as d:
        p = w.write(d)
        if case['fmt'] == 'data':
            p.update(forcing=w.forcing_ds(), forcing_fmt='data')
        with Faults() as count:
            world.run_metsim(p)
        clean = Out(p['out_dir'])
        if count.count == 0:
            ctx.label('no calls seen')
            return
        n = 1 + case['at'] * count.count // 1000
        q = dict(p, out_dir=d + '/again')
        failed = strike(q, case, n, ctx)
        if failed is None:
            return
        if not failed:
            ctx.label('fault went unnoticed')
            b = Out(q['out_dir'])
            same_output('run that ended well in spite of a fault', clean, b,
                        rtol=0, atol=0)
            return
        world.run_metsim(q)
        b = Out(q['out_dir'])
    if [x['file'] for x in clean.parts] != [x['file'] for x in b.parts]:
        fail('the repeated run has the files {} instead of {}',
             [x['file'] for x in b.parts], [x['file'] for x in clean.parts])
    same_output('repetition of an interrupted run', clean, b, rtol=0, atol=0)


def to_kill(q, n):
    world.reset_globals()
    with Faults(n, 'kill'):
        go(q)


_ZYGOTE = {}


def fresh():
    z = _ZYGOTE.get(os.getpid())
    if z is None:
        z = _ZYGOTE[os.getpid()] = Zygote()
    return z


def strike(q, case, n, ctx):
    """Run into the fault: did the run fail?  None if nothing struck"""
    if case['kind'] == 'kill':
        r = fresh()(to_kill, q, n)
        if r[0] == 'error':
            fail('a run failed that another time did not: {} {}', *r[1:3])
        ctx.nontrivial(r[0] == 'died')
        return True if r[0] == 'died' else None
    from vlib.engine import CaseTimeout
    failed = False
    with Faults(n, case['kind']) as f:
        try:
            go(q)
        except CaseTimeout:
            raise
        except Exception:
            failed = True
    ctx.nontrivial(f.struck)
    if not f.struck:
        if failed:
            fail('a run failed that another time did not')
        return None
    return bool(failed)
