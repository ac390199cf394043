"""Running the obligations of one property: jobs in forked children, verdicts, evidence."""
import importlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
from . import pmlctx, roles as roles_mod, evalv, canon
from .pmlctx import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = False
ROLES = {}


class Results(object):
    """what one job found"""

    def __init__(self, name):
        self.name = name
        self.rows = []          # (obligation, status, detail, where, tried)
        self.stats = {}
        self.S = None

    def add(self, ob, status, detail='', where='', tried=0):
        self.rows.append((ob, status, detail, where, tried))

    def use(self, S):
        self.S = S

    def finish(self):
        S = self.S
        if S is not None:
            it = S.it
            for why in sorted(it.gaps)[:5]:
                self.add('inputs left out', 'undecided', why)
            self.stats = {'functions': sorted('%s:%s' % k for k in fkeys(it)), 'calls': it.calls_seen,
                          'branches': it.branches, 'steps': it.steps}

    # ------------------------------------------------------------ verdicts
    def equal(self, ob, a, b, where=None, expect='', ignore=None):
        """obligation: the two graphs are the same function of the inputs"""
        if a is b or canon.same(a, b):
            self.add(ob, 'proved')
            return True
        d, tried = evalv.distinguish(a, b, seed=SEED, ignore=ignore, tries=600 if THOROUGH else 120)
        if d is None:
            self.add(ob, 'unrefuted' if tried > 0 else 'undecided', 'values not recognised as equal; %d valuations agree'
                     % max(tried, 0), '', tried)
            return False
        w = where(a, b, d) if callable(where) else (where or '')
        self.add(ob, 'violated', describe(d, expect), w, tried)
        return False

    def holds(self, ob, g, where='', detail=''):
        """obligation: guard g is true for all inputs"""
        self.equal(ob, g, TRUE, where, detail)


def fkeys(it):
    for k in it.funcs_seen:
        yield k if type(k) is tuple else ('', str(k))


def cut(s, n=400):
    s = str(s)
    return s if len(s) <= n else s[:n] + '...'


def describe(d, expect=''):
    out = 'found %s; expected %s' % (cut(repr(d.a)), cut(repr(d.b)))
    p = getattr(d, 'path', None)
    if p:
        out += '; on the path where ' + cut(' and '.join(show_step(*x) for x in p[:8]), 700)
    return out


def show_step(var, a, b):
    t = cut(show(var), 90)
    if is_num_var(var):
        return '%s is %s' % (t, a if a == b else 'in [%s, %s]' % (a, b))
    return '%s is %s' % (t, 'none of the listed values' if a is None else cut(show(a), 60))


def rel(path):
    r = os.path.realpath(pmlctx.REPO)
    p = os.path.realpath(path)
    return os.path.relpath(p, r) if p.startswith(r + os.sep) else p


def locate(it, keys):
    """repository statements that store under one of the keys"""
    out = []
    for k in keys:
        for cur in it.store_log.get(k, {}):
            p = rel(cur[0])
            if not p.startswith('..') and not os.path.isabs(p):
                out.append('%s:%d (%s)' % (p, cur[1], cur[2]))
    inner = [x for x in out if '<module>' not in x]
    return sorted(set(inner or out))


# ---------------------------------------------------------------- jobs

PRE = {}


def preload(mods=('procmon_parser', 'ref.events', 'ref.pml'), K=3):
    S = Session(K=K)
    for m in mods:
        S.mod(m)
    roles_mod.install(S, ROLES)
    PRE['S'] = S
    return S


def session(K=None):
    """the preloaded session (each child has its own copy)"""
    S = PRE['S']
    ops.CTX[0] = S.base_ctx
    S.it.gaps = {}
    if K:
        S.it.K = K
    return S


def run_job(mod, fn, kw):
    name = fn + ':' + ','.join('%s=%s' % (k, kw[k]) for k in sorted(kw))
    r = Results(name)
    t = time.time()
    try:
        getattr(importlib.import_module(mod), fn)(r, **kw)
    except (Unsupported, TooBig) as e:
        w = getattr(e, 'where', None)
        r.add('analysis', 'undecided', '%s: %s' % (type(e).__name__, cut(e, 200)), str(w[-1]) if w else '')
    except RecursionError:
        r.add('analysis', 'undecided', 'recursion limit')
    except MemoryError:
        r.add('analysis', 'undecided', 'memory limit')
    except KeyError as e:
        r.add('analysis', 'undecided', 'anchor not found: %s' % e)
    try:
        r.finish()
    except Exception:
        pass
    return {'name': name, 'rows': r.rows, 'stats': r.stats, 'wall': time.time() - t}


def run_jobs(jobs, nproc=8, timeout=100, budget=600, mem=6 << 30):
    """jobs: [(module, function, kwargs)]; results in job order"""
    out = [None] * len(jobs)
    todo = list(range(len(jobs)))[::-1]
    live = {}                 # fd -> [idx, pid, deadline, chunks]
    t_end = time.time() + budget
    sys.stdout.flush()
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop()
            if time.time() > t_end:
                out[i] = lost(jobs[i], 'time budget of the check exhausted')
                continue
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rfd)
                    for fd in live:
                        os.close(fd)
                    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                    res = pickle.dumps(run_job(*jobs[i]))
                    with os.fdopen(wfd, 'wb') as fh:
                        fh.write(res)
                    code = 0
                except BaseException as e:
                    try:
                        import traceback
                        tb = traceback.extract_tb(e.__traceback__)
                        where = '; '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in tb[-4:])
                        os.write(wfd, pickle.dumps(lost(jobs[i], 'analyser error %s: %s at %s' % (
                            type(e).__name__, cut(e, 200), where), 'error')))
                        code = 0
                    except BaseException:
                        pass
                finally:
                    os._exit(code)
            os.close(wfd)
            live[rfd] = [i, pid, min(time.time() + timeout, t_end + timeout), []]
        ready, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for fd in list(live):
            i, pid, dl, chunks = live[fd]
            if fd in ready:
                b = os.read(fd, 1 << 16)
                if b:
                    chunks.append(b)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                try:
                    out[i] = pickle.loads(b''.join(chunks))
                except Exception:
                    out[i] = lost(jobs[i], 'analysis ended early (memory)')
            elif now > dl:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                out[i] = lost(jobs[i], 'analysis took over %d s' % timeout)
    return out


def lost(job, why, kind='analysis'):
    return {'name': job[1] + ':' + ','.join('%s=%s' % (k, job[2][k]) for k in sorted(job[2])),
            'rows': [(kind, 'undecided', why, '', 0)], 'stats': {}, 'wall': 0.0}
