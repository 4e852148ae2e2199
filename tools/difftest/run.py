"""Differential test of the interpreter: sample programs of our own (pk/prog.py), CPython against absint."""
import os, sys, asyncio, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.path.insert(0, os.path.dirname(os.path.dirname(HERE))); sys.setrecursionlimit(20000)
from absint import core, interp, aio, models
real = importlib.import_module('pk.prog')
prog = interp.Program(HERE, package='pk', models=models.build_all())
def fresh():
    core.set_run(core.Run()); core.RUN.loop = aio.Loop()
fresh()
mod = prog.load('pk.prog')
for n in list(vars(real)):
    if n[:2] not in ('t_', 'a_'): continue
    try:
        exp = getattr(real, n)()
        if n[0] == 'a': exp = asyncio.run(exp)
    except BaseException as e:
        exp = ('REAL-EXC', repr(e))
    fresh()
    try:
        f = getattr(mod, n)
        if n[0] == 't': got = f()
        else:
            t = aio.create_task(f()); core.RUN.loop.drain()
            while core.RUN.loop.advance(): core.RUN.loop.drain()
            got = t.result()
        rg, rexp = repr(got), repr(exp)
        print('OK  ' if rg == rexp else 'DIFF', n)
        if rg != rexp: print('   exp', rexp[:600]); print('   got', rg[:600])
    except BaseException as e:
        print('FAIL', n, type(e).__name__, str(e)[:300], getattr(e,'loc',''), '(real: %s)' % repr(exp)[:100])
