"""Queries on the graph of one analysed entry point."""
import re
from collections import deque
from terms import *
from engine import *


class An:
    """An analysed entry point."""

    def __init__(self, facts, fn, **kw):
        run = {k: kw.pop(k) for k in ('args', 'mem', 'know') if k in kw}
        self.E = Engine(facts, **kw)
        self.E.run(fn, **run)
        self.fn, self.F = fn, facts
        self.g = self.E.g
        self.order()

    def finals(self, name):
        """The values an argument (by reference) has at the returns."""
        r = {}
        for _, st in self.E.outs:
            v = st.mem.get(('S', name), T('sym', name))
            v = self.E.deep(st, v)
            r[v.id] = v
        return list(r.values())

    def order(self):
        out = self.g.out
        self.seen, dq = {self.E.root}, deque([self.E.root])
        self.edges = []
        while dq:
            n = dq.popleft()
            for e in out[n]:
                if e[1] is not None or e[2] is not None:
                    self.edges.append((n,) + e)
                if e[0] not in self.seen:
                    self.seen.add(e[0])
                    dq.append(e[0])
        self.evedges = [e for e in self.edges if e[3] is not None]
        self.litedges = [e for e in self.edges if e[2] is not None]

    def events(self, kind=None, pred=None):
        return [e for e in self.evedges if (kind is None or e[3].kind == kind) and (pred is None or pred(e[3]))]

    def calls(self, *suffixes):
        return [e for e in self.evedges if e[3].kind == 'call' and named(e[3].name, *suffixes)]

    def news(self, *suffixes):
        return [e for e in self.evedges if e[3].kind == 'new' and named(e[3].name, *suffixes)]

    def rets(self, pred=None):
        return [e for e in self.evedges if e[3].kind == 'ret' and (pred is None or pred(e[3].args[0]))]

    def writes(self, pred):
        return [e for e in self.evedges if e[3].kind in ('write',) and pred(e[3].args[0])]

    def lits(self):
        return {e[2] for e in self.litedges}

    def path_without(self, sink, guard, reset=None, start=None, init=False):
        """A path to the sink edge on which no guard edge lies (after the last reset), or None if all are guarded.
        guard/reset get an edge (a, b, lit, ev)."""
        out = self.g.out
        s0 = (start if start is not None else self.E.root, init)
        par = {s0: None}
        dq = deque([s0])
        target = (sink[0], sink[1], sink[3])
        while dq:
            n, sat = cur = dq.popleft()
            for (b, lit, ev) in out[n]:
                e = (n, b, lit, ev)
                if not sat and n == target[0] and b == target[1] and ev is target[2]:
                    return self.trace(par, cur, e)
                s2 = sat
                if lit is not None or ev is not None:
                    if reset is not None and reset(e):
                        s2 = False
                    if guard(e):
                        s2 = True
                nx = (b, s2)
                if nx not in par:
                    par[nx] = (cur, e)
                    dq.append(nx)
        return None

    def trace(self, par, cur, last):
        es = [last]
        while par[cur] is not None:
            cur, e = par[cur]
            es.append(e)
        es.reverse()
        return [e for e in es if e[2] is not None or e[3] is not None]

    def follow_without(self, src, guard, sinks, reset=None):
        """A path from the edge src to one of the sink edges without a guard edge, or None."""
        out = self.g.out
        tg = {(e[0], e[1], id(e[3])) for e in sinks}
        s0 = src[1]
        par = {s0: None}
        dq = deque([s0])
        while dq:
            n = dq.popleft()
            for (b, lit, ev) in out[n]:
                e = (n, b, lit, ev)
                if (n, b, id(ev)) in tg:
                    es = [e]
                    c = n
                    while par[c] is not None:
                        c, pe = par[c]
                        es.append(pe)
                    return [src] + [x for x in reversed(es) if x[2] is not None or x[3] is not None]
                if (lit is not None or ev is not None) and guard(e):
                    continue
                if b not in par:
                    par[b] = (n, e)
                    dq.append(b)
        return None

    def automaton(self, init, step, bad, start=None):
        """Runs a finite automaton over all the paths. step(state, edge) -> state (None: path not followed any further);
        bad(state before, edge) -> True: violation. Returns the path or None."""
        out = self.g.out
        s0 = (start if start is not None else self.E.root, init)
        par = {s0: None}
        dq = deque([s0])
        while dq:
            cur = dq.popleft()
            n, q = cur
            for (b, lit, ev) in out[n]:
                e = (n, b, lit, ev)
                q2 = q
                if lit is not None or ev is not None:
                    if bad(q, e):
                        return self.trace(par, cur, e)
                    q2 = step(q, e)
                    if q2 is None:
                        continue
                nx = (b, q2)
                if nx not in par:
                    par[nx] = (cur, e)
                    dq.append(nx)
        return None

    def reachable_from(self, edge):
        out = self.g.out
        seen, dq = {edge[1]}, deque([edge[1]])
        while dq:
            n = dq.popleft()
            for e in out[n]:
                if e[0] not in seen:
                    seen.add(e[0])
                    dq.append(e[0])
        return seen


def named(name, *suffixes):
    for s in suffixes:
        if name == s or name.endswith('::' + s) or (s.startswith('::') and name.endswith(s)):
            return True
    return False


def explain(path, n=14):
    out = []
    for e in path:
        if e[2] is not None:
            if e[2][0].op != 'more':
                out.append('[' + lit_show(e[2])[:160] + ']')
        elif e[3].kind in ('call', 'new', 'ret', 'panic', 'write'):
            out.append(repr(e[3])[:200])
    if len(out) > n:
        out = out[:n // 2] + ['…'] + out[-n // 2:]
    return out


# ---------------------------------------------------------------- term predicates
def is_call(t, *names):
    return t.op == 'call' and named(t.a[0], *names)


def has_call(t, *names):
    return mentions(t, lambda s: s.op == 'call' and named(s.a[0], *names))


def has_field(t, *names):
    return mentions(t, lambda s: s.op == 'fld' and s.a[1] in names)


def path_of(t):
    """self.a.b as ('self','a','b'), looking through mutations, updates and elements."""
    p = []
    while True:
        if t.op == 'fld':
            p.append(t.a[1])
            t = t.a[0]
        elif t.op in ('mut', 'upd', 'loop', 'ins', 'rem', 'bag', 'old', 'part', 'elem', 'as', 'at') and is_t(t.a[0]):
            if t.op in ('elem', 'at'):
                p.append('[]')
            t = t.a[0]
        elif t.op == 'sym':
            p.append(t.a[0])
            break
        else:
            p.append('?')
            break
    return tuple(reversed(p))


def recv(t):
    """The last field on the way to a place: `flos` for self.flos, also in widened states and under element access."""
    while True:
        if t.op == 'fld':
            return t.a[1]
        if t.op in ('mut', 'upd', 'loop', 'ins', 'rem', 'bag', 'old', 'part', 'as', 'cast') and is_t(t.a[0]):
            t = t.a[0]
        elif t.op in ('elem', 'at') and is_t(t.a[0]):
            return None
        elif t.op == 'phi':
            r = {recv(x) for x in t.a[0]}
            return r.pop() if len(r) == 1 else None
        elif t.op == 'wid':
            m = re.findall(r"'\.(\w+)'", repr(t.a[1:]))
            return m[-1] if m else None
        else:
            return None


def place(e, i=0):
    """The last field of the place an event acts on: by the address of the argument, or else by where its value comes from."""
    v = e[3]
    a = v.addrs[i] if i < len(v.addrs) else None
    r = recv(a) if is_t(a) and a.op in ('fld', 'as') else None
    return r if r is not None else recv(v.args[i])


def alts(t):
    if t.op == 'phi':
        r = set()
        for x in t.a[0]:
            r |= alts(x)
        return r
    return {t}


def strip_cast(t):
    while t.op == 'cast':
        t = t.a[0]
    return t


# ---------------------------------------------------------------- edges and values
def lit(e, pred, pol=True):
    """The edge asserts the literal (with that polarity, None for any)."""
    return e[2] is not None and (pol is None or e[2][1] == pol) and pred(e[2][0])


def is_var(e, variant, pred, pol=True):
    """The edge asserts that a value satisfying pred is (not) that variant; complement variants of Option/Result count."""
    comp = {'Some': 'None', 'None': 'Some', 'Ok': 'Err', 'Err': 'Ok'}
    if e[2] is None or e[2][0].op != 'is' or not pred(e[2][0].a[0]):
        return False
    v, q = e[2][0].a[1], e[2][1]
    if v == variant:
        return q == pol
    return comp.get(variant) == v and q != pol


def iscall(e, *names):
    return e[3] is not None and e[3].kind == 'call' and named(e[3].name, *names)


def isret(e):
    return e[3] is not None and e[3].kind == 'ret'


def fld(t, name):
    """t.name of an aggregate, an update or any other term."""
    while True:
        if t.op == 'agg' and name in t.a[2]:
            return t.a[3][t.a[2].index(name)]
        if t.op == 'upd':
            for p, v in t.a[1]:
                if p == ('.' + name,) or p == (name,):
                    return v
            if any(p[0] in ('.' + name, name) for p, v in t.a[1]):
                return T('fld', t, name)
            t = t.a[0]
            continue
        return T('fld', t, name)


def un_ok(t):
    """x of x@Ok.0 or x@Some.0, else None."""
    if t.op == 'fld' and t.a[1] == '0' and t.a[0].op == 'as' and t.a[0].a[1] in ('Ok', 'Some'):
        return t.a[0].a[0]
    return None


def ret_val(e):
    return e[3].args[0]


def vname(t):
    return t.a[1] if t.op == 'agg' else None


def inner(t, i=0):
    return t.a[3][i] if t.op == 'agg' and len(t.a[3]) > i else None


def ok_rets(A):
    """Return edges whose value can be Ok(not false) / Some / true / anything unknown."""
    r = []
    for e in A.rets():
        v = ret_val(e)
        if v is FALSE or vname(v) in ('Err', 'None') or (vname(v) == 'Ok' and inner(v) is FALSE):
            continue
        r.append(e)
    return r


NARROW = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32}
WRAP1 = ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes', 'U256::bytes', 'to_bytes', 'as_bytes', 'as_ref', 'to_vec', 'to_string', 'to_rmp_bytes',
         'copy_from_slice', 'Into::into', 'From::from', 'into', 'from', 'as_slice', 'deref', 'clone', 'to_owned', 'AsRef::as_ref', 'borrow', 'from_static')


def core(t, narrow=32):
    """The value under injective wrappers: serialisation, bytes, conversions, newtypes, widening casts."""
    while True:
        u = un_ok(t)
        if u is not None and u.op == 'call' and u.a[0].split('::')[-1] in ('to_vec', 'to_string', 'serialize'):
            t = u
            continue
        if t.op == 'call' and len(t.a) == 2 and t.a[0].split('::')[-1] in WRAP1:
            t = t.a[1]
            continue
        if t.op == 'call' and t.a[0].split('::')[-1] == 'bytes' and len(t.a) == 2:
            t = t.a[1]
            continue
        if t.op == 'cast':
            if len(t.a) > 1 and isinstance(t.a[1], str) and NARROW.get(t.a[1], 64) < narrow:
                return t
            t = t.a[0]
            continue
        if t.op == 'agg' and t.a[1] is None and t.a[0] not in ('tuple', 'array') and t.a[2] == ('0',):
            t = t.a[3][0]
            continue
        if t.op == 'fld' and t.a[1] == '0' and t.a[0].op not in ('as', 'agg'):
            t = t.a[0]
            continue
        return t


def affine(t, base, narrow=32):
    """t is a bijective function of a base term: casts not narrower than `narrow` bits, encodings, plus and minus constants."""
    t = core(t, narrow)
    if base(t):
        return True
    if t.op == 'cast':
        return NARROW.get(t.a[1], 64) >= narrow and affine(t.a[0], base, narrow)
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
        return any(affine(x, base, narrow) and is_const(y) for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])))
    return False


def hash_parts(t):
    """(domain, parts) of a value computed by hash_domain_parts, else None."""
    t = core(t)
    if t.op == 'call' and t.a[0].split('::')[-1] == 'hash_domain_parts' and len(t.a) >= 3 and t.a[2].op == 'agg':
        return t.a[1], list(t.a[2].a[3])
    return None


def subst(t, sym, val):
    """t with the symbol replaced by a value, projections simplified."""
    memo = {}

    def go(x):
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            return x
        if x in memo:
            return memo[x]
        if x.op == 'sym' and x.a[0] == sym:
            r = val
        elif x.op == 'fld':
            r = fld(go(x.a[0]), x.a[1])
        elif x.op == 'as':
            b = go(x.a[0])
            r = b if b.op == 'agg' and b.a[1] == x.a[1] else T('as', b, *[go(y) for y in x.a[1:]])
        elif not x.a:
            r = x
        else:
            r = T(x.op, *[go(y) for y in x.a])
        memo[x] = r
        return r
    return go(t)


def occ(t, pred, outer=()):
    """(subterm, conditions) for every subterm satisfying pred; the conditions are those of the collected elements around it."""
    out, seen = [], set()
    st = [(t, tuple(outer))]
    while st:
        x, o = st.pop()
        if (x, o) in seen:
            continue
        seen.add((x, o))
        if isinstance(x, Term):
            if pred(x):
                out.append((x, o))
            if x.op == 'bag':
                st.append((x.a[0], o))
                for item, cs in x.a[1]:
                    st.append((item, o + tuple(cs)))
            else:
                for y in x.a:
                    if isinstance(y, (Term, tuple, frozenset)):
                        st.append((y, o))
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                if isinstance(y, (Term, tuple, frozenset)):
                    st.append((y, o))
    return out


def variant(t, *names):
    """An aggregate that is one of these enum variants (or structs by the last part of their path)."""
    return t.op == 'agg' and (t.a[1] in names if t.a[1] is not None else t.a[0].split('::')[-1] in names)


def has_cond(cs, pred, pol=True):
    return any(l[1] == pol and pred(l[0]) for l in cs)


def order(v):
    """('asc' or 'desc', name of the field sorted by) of a list which was sorted in place or as an iterator, or None."""
    r = None
    ops = []
    v = core(v)
    while v.op in ('mut', 'part'):
        ops = (list(v.a[2]) if v.op == 'mut' else [x for x in v.a[1]]) + ops
        if v.op == 'mut' and not all(is_t(x) and x.op == 'ord' for x in v.a[2]):
            return None
        v = core(v.a[0])
    for o in ops:
        if o.op != 'ord':
            continue
        if o.a[0] == 'rev':
            r = r and ('desc' if r[0] == 'asc' else 'asc', r[1])
        else:
            k = core(o.a[1])
            r = (o.a[0], k.a[1] if k.op == 'fld' else None)
    return r
