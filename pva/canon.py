"""Canonical views of value graphs: two graphs with the same view denote the same function of the inputs."""
from .vals import *
from .ops import *
from . import vals as _v

ABSENT = term('absent', (), 'undef')
ISDICT = term('isdict', (), 'undef')


def dict_view(v):
    """(kind graph, {key: value graph with ABSENT}, {(k1, k2): order condition}) or None"""
    kind = map_leaves(v, lambda l: ISDICT if type(l) is X and l.op == 'fdict' else l)
    vals, order = {}, {}
    seen_c = {}
    for lf, c in leaves(v):
        if not (type(lf) is X and lf.op == 'fdict'):
            continue
        items = []
        for g, k, x in lf.args:
            g = and_(c, g)
            if g is FALSE:
                continue
            if type(k) is N:
                k = constrain(k, g)
            if type(k) is N or not is_plain(k):
                return None
            items.append((g, k, x))
        for i, (g, k, x) in enumerate(items):
            old = vals.get(k)
            x = constrain(x, g)
            vals[k] = ite(g, x, ABSENT if old is None else old)
            for g2, k2, _ in items[i + 1:]:
                if k2 is k:
                    continue
                both = and_(g, g2)
                if both is not FALSE:
                    order[(k, k2)] = or_(order.get((k, k2), FALSE), both)
    return kind, vals, order


def is_plain(k):
    return type(k) is C or type(k) is E or (type(k) is T and all(is_plain(x) for x in k.items))


LIFT = term('lift', (), 'bool')


def lift(v):
    return ite(bool_of_var(LIFT), v, ABSENT) if type(v) is X and v.op == 'join' else v


def under(g, c):
    """guard g inside region c, TRUE when it holds throughout"""
    if g is TRUE:
        return TRUE
    r = and_(g, c)
    return TRUE if r is c else r


def norm(v, c, memo):
    """canonical form of v on the region c"""
    t = type(v)
    if t is C or t is E or t is R:
        return v
    k = (v, c)
    r = memo.get(k)
    if r is not None:
        return r
    if t is N:
        if has_dict(v):
            r = norm_dict(v, c, memo)
        else:
            r = ABSENT
            for lf, lc in leaves(v, c):
                lc = and_(lc, c)
                if type(lf) is X and lf.op == 'join':
                    # the region where nothing is joined is the empty string
                    some = FALSE
                    for g, _ in lf.args[1]:
                        some = or_(some, g)
                    none = and_(lc, not_(some))
                    if none is not FALSE:
                        r = ite(none, EMPTY, r)
                        lc = and_(lc, some)
                        if lc is FALSE:
                            continue
                r = ite(lc, norm(lf, lc, memo), r)
            r = collapse(r, {})
    elif t is T:
        r = tup(norm(x, c, memo) for x in v.items)
    elif v.op == 'fdict':
        r = norm_dict(v, c, memo)
    elif v.op in ('join', 'flist'):
        items = []
        for g, x in (v.args[1] if v.op == 'join' else v.args):
            g = under(g, c)
            if g is FALSE:
                continue
            x = norm(x, c if g is TRUE else g, memo)
            if g is TRUE and type(x) is N:
                x = constrain_to(x, c)
            items.append((g, x))
        r = join(v.args[0], tuple(items)) if v.op == 'join' else term('flist', tuple(items), 'list')
    elif v.op == 'scat':
        r = scat([norm(x, c, memo) for x in v.args])
    elif v.op == 'fobj':
        r = term('fobj', (v.args[0], tuple((n, norm(x, c, memo)) for n, x in v.args[1])), 'obj')
    else:
        r = v
    memo[k] = r
    return r


def subst(v, var, k):
    """v with var replaced by k, where that is plain to see"""
    t = type(v)
    if v is var:
        return k
    if t is T:
        return tup(subst(x, var, k) for x in v.items)
    if t is X:
        if v.op == 'flist':
            return term('flist', tuple((g, subst(x, var, k)) for g, x in v.args), 'list')
        if v.op == 'fobj':
            return term('fobj', (v.args[0], tuple((n, subst(x, var, k)) for n, x in v.args[1])), 'obj')
        if v.op == 'scat':
            return scat([subst(x, var, k) for x in v.args])
        if v.op == 'dictcanon':
            return term('dictcanon', tuple(subst(x, var, k) for x in v.args), 'undef')
    return v


def collapse(v, memo):
    """drop the cases of a text that say what the general case says"""
    if type(v) is not N:
        return v
    r = memo.get(v)
    if r is None:
        parts = [(s, collapse(ch[0], memo)) for s, ch in split_on(v.var, (v,))]
        if not v.num:
            d = dict(parts).get(None)
            if type(d) is not N and d is not None:
                parts = [(s, d if s is not None and ch is not d and subst(d, v.var, s) is ch else ch) for s, ch in parts]
        r = memo[v] = build(v.var, parts)
    return r


def constrain_to(x, c):
    ls = leaves(x, c)
    return ls[0][0] if len(ls) == 1 else x


def norm_dict(v, c, memo):
    d = dict_view(v)
    if d is None:
        if type(v) is N:
            return ite(c, v, ABSENT)
        return v
    kind, vals, order = d
    ks = sorted(vals, key=lambda k: k.id)
    out = [ite(c, kind, ABSENT)]
    for k in ks:
        x = ite(c, vals[k], ABSENT)
        out.append(tup((k, norm(x, TRUE, memo))))
    for (a, b), g in sorted(order.items(), key=lambda p: (p[0][0].id, p[0][1].id)):
        g = and_(g, c)
        if g is not FALSE:
            out.append(tup((a, b, g)))
    return term('dictcanon', tuple(out), 'undef')


def same(a, b, memo=None):
    """are the two graphs the same function of the inputs?  (sound, incomplete)"""
    if a is b:
        return True
    a, b = lift(a), lift(b)
    memo = {} if memo is None else memo
    try:
        return norm(a, TRUE, memo) is norm(b, TRUE, memo)
    except TooBig:
        return False


def differing_keys(a, b):
    """keys whose value graphs are not recognised as the same (for reports)"""
    x, y = dict_view(a), dict_view(b)
    if x is None or y is None:
        return None
    return [k for k in {**x[1], **y[1]} if not same(x[1].get(k, ABSENT), y[1].get(k, ABSENT))]


def has_dict(v):
    return any(type(l) is X and l.op == 'fdict' for l in leafset(v))


def leafset(v):
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if type(x) is N:
            st.extend(ch[0] for _, ch in split_on(x.var, (x,)))
        else:
            out.append(x)
    return out
