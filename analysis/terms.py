"""Interned value terms: the value-provenance domain of the dataflow analysis."""


class Term:
    __slots__ = ('op', 'a', 'id', '_skel', '_refs', '_elems', '_str', '_sub')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id


_tab = {}


def T(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.a, t.id = op, a, len(_tab)
        t._skel = {}
        t._refs = t._elems = t._str = t._sub = None
        _tab[k] = t
    return t


def is_t(x):
    return isinstance(x, Term)


UNIT = T('c', None)
TRUE = T('c', True)
FALSE = T('c', False)
UNDEF = T('undef')


def C(v):
    # bool and int constants must not be interned as the same key (True == 1).
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return T('i', v)
    return T('c', v)


def is_const(t):
    return t.op in ('c', 'i')


TRUE = _tab[('c', True)]


def agg(adt, variant, names, vals):
    return T('agg', adt, variant, tuple(names), tuple(vals))


def tup(*vals):
    return agg('tuple', None, [str(i) for i in range(len(vals))], vals)


def enum1(adt, variant, *vals):
    return agg(adt, variant, [str(i) for i in range(len(vals))], vals)


OPT, RES, POLL, CF = 'std::option::Option', 'std::result::Result', 'std::task::Poll', 'std::ops::ControlFlow'


def Some(v): return enum1(OPT, 'Some', v)
NONE = enum1(OPT, 'None')
def Ok(v): return enum1(RES, 'Ok', v)
def Err(v): return enum1(RES, 'Err', v)


def kids(t):
    """All the direct sub-terms of a term, in order."""
    st = list(t.a)
    out = []
    while st:
        x = st.pop(0)
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, (tuple, frozenset)):
            st = list(x) + st
    return out


def subterms(t):
    """The set of all the sub-terms, the term itself included."""
    if t._sub is None:
        acc, st = {t}, [t]
        while st:
            x = st.pop()
            for k in kids(x):
                if k not in acc:
                    acc.add(k)
                    st.append(k)
        t._sub = frozenset(acc) if len(acc) < 400 else acc
    return t._sub


def mentions(t, pred):
    return any(pred(s) for s in subterms(t))


def refs(t):
    if t._refs is None:
        s = set()
        for x in subterms(t):
            if x.op == 'ref':
                s.add(x.a[0])
        t._refs = frozenset(s)
    return t._refs


def elems(t):
    """Sources of the free element terms (not those bound inside bags and loop accumulators)."""
    if t._elems is None:
        s = set()
        st, seen = [t], {t}
        while st:
            x = st.pop()
            if x.op in ('elem', 'key', 'idx'):
                s.add(x.a[0])
            if x.op in ('old',):
                continue
            if x.op in ('bag', 'loop', 'exists'):
                ch = kids(x.a[0]) + [x.a[0]] if is_t(x.a[0]) else []
            else:
                ch = kids(x)
            for k in ch:
                if k not in seen:
                    seen.add(k)
                    st.append(k)
        t._elems = frozenset(s)
    return t._elems


_submemo = {}


def map_term(t, f, stop=('old', 'bag', 'loop', 'exists'), memo=None):
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = f(t)
    if r is not None:
        memo[t] = r
        return r
    if t.op in stop or not t.a:
        memo[t] = t
        return t
    memo[t] = t
    na = tuple(_map_arg(x, f, stop, memo) for x in t.a)
    r = t if na == t.a else T(t.op, *na)
    memo[t] = r
    return r


def _map_arg(x, f, stop, memo):
    if isinstance(x, Term):
        return map_term(x, f, stop, memo)
    if isinstance(x, tuple):
        return tuple(_map_arg(y, f, stop, memo) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_map_arg(y, f, stop, memo) for y in x)
    return x


def age(t, src):
    """The term with the elements of `src` of the current iteration turned into ones of an older iteration."""
    if src not in elems(t):
        return t
    k = (t, src)
    r = _submemo.get(k)
    if r is None:
        r = map_term(t, lambda x: T('old', x) if x.op in ('elem', 'key', 'idx') and x.a[0] is src else None)
        _submemo[k] = r
    return r


def short(p):
    if not isinstance(p, str):
        return str(p)
    q = p.split(' as ')
    if p.startswith('<') and len(q) > 1:
        p = q[0].lstrip('<').split('<')[0].split('::')[-1] + '.' + p.split('>::')[-1]
        return p
    s = p.split('::')
    return '::'.join(s[-2:])


def show(t, depth=12):
    if not isinstance(t, Term):
        if isinstance(t, (tuple, frozenset, list)):
            return '(' + ','.join(show(x, depth - 1) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '…'
    r = SHOWN.get((t.id, depth))
    if r is None:
        r = show_(t, depth)
        if len(r) > 3000:
            r = r[:3000] + '…'
        SHOWN[(t.id, depth)] = r
    return r


SHOWN = {}


def show_(t, depth):
    d = depth - 1
    o, a = t.op, t.a
    if o == 'c':
        return repr(a[0]) if a[0] is not None else '()'
    if o == 'i':
        return str(a[0])
    if o == 'sym':
        return str(a[0])
    if o == 'undef':
        return '?'
    if o == 'fld':
        return f'{show(a[0], d)}.{a[1]}'
    if o == 'as':
        return f'{show(a[0], d)}@{a[1]}'
    if o == 'elem':
        return f'{show(a[0], d)}[*]'
    if o == 'key':
        return f'{show(a[0], d)}[key]'
    if o == 'at':
        return f'{show(a[0], d)}[{show(a[1], d)}]'
    if o == 'agg':
        n = a[0] if a[0] in ('tuple', 'array') else short(a[0])
        n = {'tuple': '', 'array': '#'}.get(n, n.split('::')[-1])
        if a[1]:
            n += '::' + a[1]
        if all(x.isdigit() for x in a[2]):
            return n + '(' + ', '.join(show(x, d) for x in a[3]) + ')' if a[3] or n == '' else n
        return n + '{' + ', '.join(f'{k}:{show(x, d)}' for k, x in zip(a[2], a[3])) + '}'
    if o == 'ref':
        return '&' + addr_show(a[0], a[1])
    if o == 'clo':
        return f'|{a[0][-6:]}|(' + ', '.join(show(x, d) for x in a[2]) + ')'
    if o == 'call':
        return short(a[0]) + '(' + ', '.join(show(x, d) for x in a[1:]) + ')'
    if o == 'is':
        return f'{show(a[0], d)} is {a[1]}'
    if o in ('eq', 'lt'):
        return f'({show(a[0], d)} {"==" if o == "eq" else "<"} {show(a[1], d)})'
    if o == 'bin':
        return f'({show(a[1], d)} {a[0]} {show(a[2], d)})'
    if o == 'phi':
        return 'phi{' + ' | '.join(sorted(show(x, d) for x in a[0])) + '}'
    if o == 'bag':
        return f'bag[{show(a[0], d)}; ' + ' | '.join(sorted(show(x[0], d) + (' if ' + '&'.join(lit_show(l) for l in x[1]) if x[1] else '') for x in a[1])) + ']'
    if o == 'loop':
        return f'loop[{show(a[0], d)}; ' + ' | '.join(sorted(show(x, d) for x in a[1])) + ']'
    if o == 'upd':
        return show(a[0], d) + '{' + ', '.join(''.join(pshow(q) for q in p) + ':=' + show(v, d) for p, v in a[1]) + '}'
    return o + '(' + ', '.join(show(x, d) for x in a) + ')'


def pshow(q):
    if isinstance(q, tuple):
        return '[' + (show(q[1]) if len(q) > 1 else '') + ']'
    return q


def addr_show(root, path):
    r = root[1] if root[0] == 'S' else f'_{root[2]}^{root[1]}'
    return str(r) + ''.join(pshow(p) for p in path)


def lit_show(l):
    return ('' if l[1] else '!') + show(l[0])
