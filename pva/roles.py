"""Which functions of the repository are the UTF-16 string readers: decided by comparing every candidate with the
reference readers in the contexts of their contract."""
import ast
from .drive import *
from . import canon, evalv

LENGTHS = (0, 2, 4, 6, 8)
NAMES = {'read_utf16': 'utf16', 'read_utf16_multisz': 'multisz'}


def sources(repo=None):
    base = os.path.join(repo or REPO, 'procmon_parser')
    for dp, dn, fns in os.walk(base):
        dn[:] = [d for d in dn if d != '__pycache__']
        for f in sorted(fns):
            if f.endswith('.py'):
                yield os.path.join(dp, f), os.path.relpath(os.path.join(dp, f), os.path.dirname(base))


def parsed(repo=None):
    for p, rel in sources(repo):
        with open(p, encoding='utf-8') as fh:
            yield rel, ast.parse(fh.read())


def candidates(repo=None):
    """module level functions of one or two parameters that loop"""
    out = []
    for rel, tree in parsed(repo):
        mod = rel[:-3].replace(os.sep, '.')
        if mod.endswith('.__init__'):
            mod = mod[:-9]
        for n in tree.body:
            if isinstance(n, ast.FunctionDef) and 1 <= len(n.args.args) <= 2 and not n.args.vararg and (
                    n.name in NAMES or any(isinstance(x, (ast.While, ast.For, ast.comprehension)) for x in ast.walk(n))
                    and any(isinstance(x, ast.Attribute) and x.attr == 'read' for x in ast.walk(n))):
                opt = len(n.args.defaults) >= 1
                out.append((mod, n.name, len(n.args.args), opt, n.lineno))
    return out


def contexts(role, params, opt):
    """(content length, size argument or None)"""
    for L in LENGTHS:
        if params == 1 or opt:
            if not (role == 'multisz' and L == 0):
                yield L, None
        if params == 2:
            for n in LENGTHS:
                if n <= L:
                    yield L, n


def outcome(S, mod, name, role, L, size, lead=0):
    """the reader and the reference on a content of L bytes behind lead others: [(what, code, reference)]"""
    it = S.it
    fn = S.attr(mod, name)
    rf = S.attr('ref.strings', role)
    # two bytes follow the field so that reading past it shows
    n = L + lead + (2 if size is not None else 0)
    content = mk_slice(root('s'), ZERO, const(n)) if n else BEMPTY
    part = L if size is None else size
    field = mk_slice(root('s'), const(lead), const(part)) if part else BEMPTY
    st = S.state()
    b = S.bytesio(st, content)
    if lead:
        it.set_attr_raw(st, b.oid, 'pos', const(lead))
    o = S.run(st, lambda s: it.call(s, fn, [b] if size is None else [b, const(size)], {}))
    r = S.run(S.state(), lambda s: it.call(s, rf, [field], {}))
    if o.dropped is not FALSE:
        raise Unsupported('loop bound')
    out = [('value', S.graph(o), S.graph(r))]
    if o.value is not None and size is not None:
        out.append(('bytes consumed', o.state.get(b.oid).attrs['pos'], const(size + lead)))
    return out


def judge(S, mod, name, role, params, opt):
    """(verdict, detail, contexts): proved / unrefuted / differs / undecided"""
    best = 'proved'
    n = 0
    for L, size in contexts(role, params, opt):
        n += 1
        what = 'content of %d bytes, size %s' % (L, size)
        try:
            got = outcome(S, mod, name, role, L, size)
        except (Unsupported, TooBig, KeyError) as e:
            return 'undecided', '%s: %s' % (what, e), n
        for label, a, c in got:
            if a is None or canon.same(a, c):
                continue
            d, tried = evalv.distinguish(a, c)
            if d is not None:
                return 'differs', '%s: %s is %r, expected %r' % (what, label, d.a, d.b), n
            if tried <= 0:
                return 'undecided', what + ': no evaluation', n
            best = 'unrefuted'
    return best, '', n


def find(repo=None):
    """{(module, function): (role, verdict, detail, contexts, line)}"""
    out = {}
    cands = candidates(repo)
    S = Session(repo, K=10)
    try:
        S.mod('procmon_parser')
    except Exception:
        pass
    for mod, name, params, opt, line in cands:
        for role in ('utf16', 'multisz'):
            v, d, n = judge(S, mod, name, role, params, opt)
            if v in ('proved', 'unrefuted'):
                out[(mod, name)] = (role, v, d, n, line)
                break
            if NAMES.get(name) == role:
                out[(mod, name)] = (role, v, d, n, line)
    return out


def streamlike(st, x):
    if x is UNDEF:
        return True
    if type(x) is not R:
        return False
    at = st.get(x.oid).attrs
    return 'content' in at and 'pos' in at


def is_count(x):
    return x is NONE or x is UNDEF or type(x) is C and type(x.v) is int


def install(S, roles):
    """summarise the recognised readers in a session"""
    table = {k: v[0] for k, v in roles.items()}

    def hook(it, st, fn, args, kw):
        role = table.get((getattr(fn.module, 'name', None), fn.name))
        if role is None:
            return None
        a = list(args)
        size = a[1] if len(a) > 1 else None
        if kw:
            extra = dict(kw)
            names = [p.arg for p in fn.node.args.args]
            for i, nm in enumerate(names):
                if nm in extra:
                    if i == 0:
                        a = [extra[nm]] + a
                    else:
                        size = extra[nm]
        if not a or not all(streamlike(st, x) for x, _ in leaves(a[0])) or size is not None and not all(
                x.ty == 'int' if type(x) is X else is_count(x) for x, _ in leaves(size)):
            return None         # not the use it was recognised for
        lim = getattr(it, 'spell', 0)
        if lim and type(a[0]) is R:
            n = size
            if size is None or pconst(size) == -1:
                c, p = (st.get(a[0].oid).attrs.get(x) for x in ('content', 'pos'))
                n = None
                if c is not None and type(c) is not N and has_len(c) and type(p) is not N:
                    n = padd(blen(c), p, -1)
            if n is not None and type(n) is not N and pconst(n) is not None and 0 <= pconst(n) <= lim:
                return None
        return nat_role.string_at(it, st, role, a[0], size)
    S.it.role_hook = hook
