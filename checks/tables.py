"""P20: a lint over the enumerations and literal tables of the package.

For every class with an enumeration base: members of one value (aliases) other than the documented ones.
For every dict display and every list of pairs given to a mapping constructor: entries of equal key and different value
(the later silently replaces the earlier).  For every if/elif chain on one name: a constant tested twice with
different consequences (the later can never be reached).
Keys are compared by value: constants, members of enumerations and module-level constants are resolved.
"""
import ast
import os
from pva import pmlctx

ME = 'checks.tables'
ENUM_BASES = {'Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum'}
# two names for one code, documented as such by Windows
SHARED = {'BAD NETWORK PATH', 'BAD NETWORK NAME', 'OFFLOAD READ FILE NOT SUPPORTED', 'D'}   # several codes, one documented text
ALIASES = {('REG_DWORD', 'REG_DWORD_LITTLE_ENDIAN'), ('REG_QWORD', 'REG_QWORD_LITTLE_ENDIAN')}


def sources():
    base = os.path.join(pmlctx.REPO, 'procmon_parser')
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                with open(p, encoding='utf-8') as fh:
                    yield os.path.relpath(p, pmlctx.REPO), ast.parse(fh.read())


def last(node):
    return node.attr if isinstance(node, ast.Attribute) else node.id if isinstance(node, ast.Name) else None


class World(object):
    """names the package binds once to a constant or an enumeration"""

    def __init__(self):
        self.trees = list(sources())
        self.enums, self.consts, clash = {}, {}, set()
        for path, tree in self.trees:
            for n in ast.walk(tree):
                if isinstance(n, ast.ClassDef) and any(last(b) in ENUM_BASES for b in n.bases):
                    if n.name in self.enums:
                        clash.add(n.name)
                    self.enums[n.name] = (path, n)
            for n in tree.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    k = n.targets[0].id
                    if k in self.consts:
                        clash.add(k)
                    self.consts[k] = n.value
        for k in clash:
            self.consts.pop(k, None)
        self.clash = clash
        self.members = {k: self.member_values(v[1]) for k, v in self.enums.items() if k not in clash}

    def member_values(self, cls):
        out = {}
        for s in cls.body:
            if isinstance(s, ast.Assign):
                v = self.value(s.value, {'': out})
                for t in s.targets:
                    if isinstance(t, ast.Name) and not t.id.startswith('_'):
                        out[t.id] = v
        return out

    def value(self, node, env=None, depth=0):
        """('v', constant) | ('e', source text): a comparable key"""
        if depth > 8:
            return ('e', ast.dump(node))
        if isinstance(node, ast.Constant):
            return ('v', node.value if not isinstance(node.value, bool) else int(node.value))
        if isinstance(node, ast.Tuple):
            return ('t',) + tuple(self.value(e, env, depth + 1) for e in node.elts)
        if isinstance(node, ast.Attribute):
            cls = last(node.value)
            m = self.members.get(cls) if hasattr(self, 'members') else None
            if m and node.attr in m:
                return m[node.attr]
            if node.attr == 'value' and isinstance(node.value, ast.Attribute):
                return self.value(node.value, env, depth + 1)
        if isinstance(node, ast.Name):
            if env and node.id in env.get('', {}):
                return env[''][node.id]
            if node.id in self.consts:
                return self.value(self.consts[node.id], None, depth + 1)
        if isinstance(node, (ast.UnaryOp, ast.BinOp)):
            parts = [self.value(c, env, depth + 1) for c in ast.iter_child_nodes(node) if isinstance(c, ast.expr)]
            if all(p[0] == 'v' and isinstance(p[1], int) for p in parts):
                f = {ast.LShift: lambda a, b: a << b if 0 <= b < 256 else None, ast.BitOr: lambda a, b: a | b, ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b,
                     ast.Mult: lambda a, b: a * b, ast.USub: lambda a: -a, ast.BitAnd: lambda a, b: a & b}.get(type(node.op))
                if f:
                    v = f(*[p[1] for p in parts])
                    if v is not None:
                        return ('v', v)
        if isinstance(node, ast.Call) and len(node.args) == 1 and not node.keywords and last(node.func) in self.enums:
            return self.value(node.args[0], env, depth + 1)
        return ('e', ast.dump(node))


def functions(tree):
    """node -> name of the enclosing function or class"""
    own = {}

    def go(n, name):
        for c in ast.iter_child_nodes(n):
            nm = c.name if isinstance(c, (ast.FunctionDef, ast.ClassDef)) else name
            own[c] = nm
            go(c, nm)
    go(tree, '<module>')
    return own


def pairs(node):
    """[(key, value)] of a dict display or of a list of pairs handed to a mapping constructor"""
    if isinstance(node, ast.Dict):
        return [(k, v) for k, v in zip(node.keys, node.values) if k is not None]
    if isinstance(node, ast.Call) and last(node.func) in ('dict', 'OrderedDict') and len(node.args) >= 1 \
            and isinstance(node.args[0], (ast.List, ast.Tuple)):
        es = node.args[0].elts
        if all(isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == 2 for e in es):
            return [tuple(e.elts) for e in es]
    return None


def k_tables(r):
    W = World()
    entries = 0
    for path, tree in W.trees:
        own = functions(tree)
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef) and n.name in W.members and W.enums[n.name][1] is n:
                seen = {}
                bad = []
                for k, v in W.members[n.name].items():
                    entries += 1
                    if v[0] == "t" and len(v) == 2:        # `A = 0,` names the code 0 in an IntEnum
                        v = v[1]
                    if v[0] == 'v' and v in seen and (seen[v], k) not in ALIASES:
                        bad.append('%s and %s are both %r' % (seen[v], k, v[1]))
                    seen.setdefault(v, k)
                note(r, 'enumeration %s: one name per code' % n.name, bad, '%s:%d (%s)' % (path, n.lineno, n.name))
            ps = pairs(n)
            if ps and len(ps) > 1:
                seen, bad = {}, []
                for k, v in ps:
                    entries += 1
                    kk = W.value(k)
                    if kk[0] == 'e' and any(isinstance(x, (ast.Call, ast.Await, ast.Yield)) for x in ast.walk(k)):
                        continue
                    if kk in seen and W.value(seen[kk]) != W.value(v):
                        bad.append('%s has the values %s and %s' % (ast.unparse(k), ast.unparse(seen[kk])[:60], ast.unparse(v)[:60]))
                    seen[kk] = v
                vals = [W.value(v) for _, v in ps]
                if all(v[0] == 'v' and isinstance(v[1], str) for v in vals) and all(
                        W.value(k)[0] == 'v' and isinstance(W.value(k)[1], int) for k, _ in ps):
                    by, two = {}, []
                    for (k, _), v in zip(ps, vals):
                        if v in by and v[1] not in SHARED and W.value(by[v]) != W.value(k):
                            two.append('%s and %s are both %s' % (ast.unparse(by[v]), ast.unparse(k), v[1][:50]))
                        by[v] = k
                    note(r, 'table of %d entries in %s (%s): no name twice' % (len(ps), own.get(n, '<module>'), first(ps)), two,
                         '%s:%d (%s)' % (path, n.lineno, own.get(n, '<module>')))
                note(r, 'table of %d entries in %s (%s): no key twice' % (len(ps), own.get(n, '<module>'), first(ps)), bad,
                     '%s:%d (%s)' % (path, n.lineno, own.get(n, '<module>')))
            if isinstance(n, ast.If):
                chain(W, r, n, path, own)
    if not entries:
        r.add('tables', 'undecided', 'no enumeration or table found')
    r.stats = {'functions': sorted({'%s:%s' % (p, 'tables') for p, _ in W.trees}), 'calls': 0, 'branches': entries, 'steps': entries}


def first(ps):
    return ast.unparse(ps[0][0])[:40]


def chain(W, r, n, path, own):
    """if/elif chain comparing one name with constants"""
    if getattr(n, 'in_chain', False):
        return
    seen, bad, k, name = {}, [], 0, None
    cur = n
    while isinstance(cur, ast.If):
        t = cur.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In)) and isinstance(t.left, ast.Name)):
            break
        if name not in (None, t.left.id):
            break
        name = t.left.id
        right = t.comparators[0]
        vals = right.elts if isinstance(t.ops[0], ast.In) and isinstance(right, (ast.Tuple, ast.List, ast.Set)) else [right] if isinstance(t.ops[0], ast.Eq) else []
        body = ast.dump(ast.Module(body=cur.body, type_ignores=[]))
        for v in vals:
            kk = W.value(v)
            k += 1
            if kk[0] == 'v' and kk in seen and seen[kk] != body:
                bad.append('%s is tested again' % ast.unparse(v))
            seen.setdefault(kk, body)
        nxt = cur.orelse[0] if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If) else None
        if nxt is not None:
            nxt.in_chain = True
        cur = nxt
    if k > 1:
        note(r, 'cases of %s in %s: each code once' % (name, own.get(n, '<module>')), bad, '%s:%d (%s)' % (path, n.lineno, own.get(n, '<module>')))


def note(r, ob, bad, where):
    if bad:
        r.add(ob, 'violated', '; '.join(bad), where)
    else:
        r.add(ob, 'proved')


def j_tables(thorough):
    return [(ME, 'k_tables', {})]
