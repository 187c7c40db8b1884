"""Runs scenario jobs symbolically in this process."""
import functools
import importlib
import random
import sys
import threading
import time
import traceback

from . import engine as eng
from . import instrument, models, symval, xmlmodel
from .solver import Solver
from .syms import SymS, concrete

STATE = {}


def setup(repo='/repo', verif='/verif'):
    if 'finder' in STATE:
        return
    xmlmodel.install()
    STATE['finder'] = instrument.install([repo + '/kajiki', verif + '/props'])
    if repo not in sys.path:
        sys.path.insert(0, repo)
    import kajiki
    import kajiki.i18n
    import kajiki.xml_template
    import kajiki.text
    import kajiki.lnotab
    import kajiki.entities
    STATE['kajiki'] = kajiki
    STATE['snap'] = snapshot()


def snapshot():
    """Module- and class-level containers of the code under test, so that every
    path starts from the state right after import."""
    snap = []
    seen = set()

    def take(o):
        if id(o) in seen:
            return
        if isinstance(o, (dict, list, set)) and type(o).__module__ in ('builtins', 'collections'):
            seen.add(id(o))
            snap.append((o, o.copy()))
        elif isinstance(o, threading.local):
            seen.add(id(o))
            snap.append((o, dict(o.__dict__)))
        elif hasattr(o, 'cache_clear') and callable(o.cache_clear):
            seen.add(id(o))
            snap.append((o, None))
    for name, mod in list(sys.modules.items()):
        if not (name == 'kajiki' or name.startswith('kajiki.')) or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if k in ('__builtins__',) or k.startswith('__'):
                continue
            take(v)
            if isinstance(v, type) and v.__module__ == name:
                for kk, vv in list(vars(v).items()):
                    take(vv)
    return snap


def restore():
    for o, c in STATE['snap']:
        if c is None:
            o.cache_clear()
        elif isinstance(o, threading.local):
            o.__dict__.clear()
            o.__dict__.update(c)
        elif isinstance(o, list):
            if o != c:
                o[:] = c
        elif len(o) != len(c) or o != c:
            o.clear()
            o.update(c)


def run_job(job):
    """job: dict(prop, module, func, params, budget, max_paths) -> result dict"""
    t0 = time.time()
    setup()
    mod = importlib.import_module('props.' + job['module'])
    fn = getattr(mod, job['func'])
    params = job['params']
    solver = Solver()
    e = eng.Engine(solver, deadline=t0 + job['budget'], max_paths=job.get('max_paths'))
    eng.set_cur(e)
    symval.CONC_CAP = job.get('conc_cap') or 3
    found = []
    reached = {}
    state = {}
    samples = []

    def run():
        del models.SXV[:]
        models.VFS.reset()
        models._rng.seed(0)
        models.RANDINT[0] = None
        restore()
        S = SymS(STATE['kajiki'], e)
        state['S'] = S
        try:
            fn(S, **params)
        except eng.Control:
            raise
        except SystemExit:
            raise
        except Exception as ex:
            if e.pending is not None:
                raise e.pending
            if job.get('debug'):
                traceback.print_exc()
            e._control(eng.Violation('unexpected %s: %s' % (type(ex).__name__, safe(ex, e)),
                                     dict(e.model),
                                     {'traceback': traceback.format_exc()[-2000:]}))
        else:
            n = e.stats['paths']
            if e.pending is None and (n < 4 or (n & (n - 1)) == 0 or n % 97 == 0) \
                    and len(samples) < 24:
                samples.append(dict(inputs=S.values(e.model),
                                    job=dict(prop=job['prop'], module=job['module'],
                                             func=job['func'], params=params)))
        finally:
            S.close()
            for k, v in S.reached.items():
                reached[k] = reached.get(k, 0) + v

    def on_violation(v):
        S = state['S']
        try:
            detail = concrete(v.detail, v.model) if v.detail else None
        except Exception:
            detail = None
        found.append(dict(msg=v.msg, inputs=S.values(v.model), detail=detail,
                          job=dict(prop=job['prop'], module=job['module'], func=job['func'],
                                   params=params)))
        return len(found) >= job.get('max_found', 1)

    err = None
    try:
        e.explore(run, on_violation)
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt):
            raise
        err = traceback.format_exc()[-3000:]
    solver.close()
    st = dict(e.stats)
    return dict(job=dict(module=job['module'], func=job['func'], params=params),
                stats=st, queries=solver.queries, cache_hits=solver.cache_hits,
                solver_time=solver.time, wall=time.time() - t0, found=found,
                incomplete=e.incomplete, reached=reached, error=err,
                concretised=e.concretised_sites, kept=solver.kept, samples=samples)


def safe(ex, e):
    try:
        return str(concrete(models.to_str(ex), e.model))[:500]
    except BaseException:
        return '?'
