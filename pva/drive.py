"""Analysis sessions: load the current sources, fix a context, analyse an entry point, collect its outcome graph."""
import os
import sys
from . import interp, ops
from .interp import *
from .ops import *
from .vals import *
from . import nat_role

sys.setrecursionlimit(60000)

REPO = os.environ.get('PVA_REPO', '/repo')
REF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref')


class Outcome(object):
    """what one analysed entry point can do: a value (frozen) under each non-raising guard, an exception elsewhere"""

    def __init__(self, value, state, exits, dropped, exit_states=()):
        self.exit_states = list(exit_states)
        self.value = value        # raw value (may hold references) or None if never returns
        self.state = state
        self.exits = exits        # [(guard, class name, args)]
        self.dropped = dropped


class Session(object):
    def __init__(self, repo=None, K=3):
        ops.CTX[0] = Ctx()
        self.repo = repo or REPO
        self.it = Interp([('procmon_parser', os.path.join(self.repo, 'procmon_parser')), ('ref', REF)], K=K)
        self.base_ctx = ops.CTX[0]
        self.ref_depth = 0

    def mod(self, name):
        return self.it.load_module(name)

    def attr(self, mod, *names):
        st = self.it.init_state
        v = self.it.mod_attr(st, self.mod(mod), names[0])
        if v is None:
            raise KeyError('%s.%s' % (mod, names[0]))
        for n in names[1:]:
            v = self.it.get_attr(st, v, n)
        return v

    def state(self):
        return State(self.it.base, {}, TRUE)

    def bytesio(self, st, content):
        it = self.it
        return it.instantiate(st, it.load_module('io').native['BytesIO'], [content], {})

    def run(self, st, fn):
        """fn(state) -> value; returns an Outcome"""
        it = self.it
        it.sinks.append([])
        saved = it.dropped, it.cur
        it.dropped = FALSE
        it.steps = 0
        try:
            try:
                v = fn(st)
            except Dead:
                v, st = None, None
            exits = []
            for s, e in it.sinks[-1]:
                if type(e) is R:
                    r = s.get(e.oid)
                    exits.append((s.guard, r.cls.name, r.attrs.get('args')))
                else:
                    exits.append((s.guard, '?', None))
            return Outcome(v, st, exits, it.dropped, [s for s, _ in it.sinks[-1]])
        finally:
            it.sinks.pop()
            it.dropped, it.cur = saved

    def graph(self, out, frozen=None):
        """one value graph: frozen result, or term raised(class) under the guard of each exit"""
        v = UNDEF
        if out.value is not None:
            v = frozen if frozen is not None else self.it.freeze(out.state, out.value)
            if out.state.guard is not TRUE:
                v = ite(out.state.guard, v, UNDEF)
        for g, cls, _ in out.exits:
            v = ite(g, term('raised', (cls,), 'raised'), v)
        return v
