"""Loads the facts written by the fl-facts compiler driver (typed, resolved MIR) and indexes them."""
import json, os, glob, re


def strip_generics(p):
    """std::option::Option::<T>::map -> std::option::Option::map; <impl [T]> segments too."""
    if p is None:
        return None
    if p.startswith('<'):
        return p
    out, depth, i = [], 0, 0
    while i < len(p):
        ch = p[i]
        if ch == '<':
            if depth == 0 and len(out) >= 2 and out[-1] == ':' and out[-2] == ':':
                out.pop(); out.pop()
            depth += 1
        elif ch == '>' and not (i and p[i - 1] == '-'):
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


def tyname(t):
    """Outermost type constructor's path, without references and generics."""
    t = t.strip()
    while True:
        if t.startswith('&'):
            t = t[1:]
            if t.startswith("'"):
                t = t.split(' ', 1)[1] if ' ' in t else t
            t = t.strip()
            if t.startswith('mut '):
                t = t[4:]
            continue
        m = re.match(r'^(?:std::boxed::Box|std::sync::Arc|std::rc::Rc)<(.*)>$', t)
        if m:
            t = m.group(1)
            continue
        break
    i = t.find('<')
    return t if i <= 0 else t[:i]


BOOLTY = re.compile(r'^(std::(result::Result|option::Option|task::Poll|ops::ControlFlow)<)*bool\b')


class Fn:
    __slots__ = ('key', 'path', 'npath', 'name', 'kind', 'parent', 'trait', 'impl', 'span', 'pub', 'exp', 'args',
                 'upvars', 'locals', 'blocks', 'crate', 'tys', '_live', '_rpo', 'derived', 'boolloc', 'boolret')

    def __init__(self, d, crate, tys):
        for k in ('key', 'path', 'name', 'kind', 'parent', 'trait', 'impl', 'span', 'pub', 'exp', 'args', 'upvars',
                  'locals', 'blocks'):
            setattr(self, k, d[k])
        self.crate, self.tys = crate, tys
        self.npath = strip_generics(self.path)
        self._live = self._rpo = None
        self.derived = False
        self.boolloc = {i for i, l in enumerate(self.locals) if BOOLTY.match(tys[l[0]])}
        self.boolret = bool(BOOLTY.match(tys[self.locals[0][0]])) if self.locals else False

    def lty(self, i):
        return self.tys[self.locals[i][0]]

    def lname(self, i):
        l = self.locals[i]
        return l[1] if len(l) > 1 else None

    def file(self):
        return self.span.rsplit(':', 1)[0]


class Facts:
    def __init__(self, d):
        self.fns, self.bypath, self.adts, self.impls = {}, {}, {}, []
        self.derived = set()
        self.children = {}
        self.crates = []
        for f in sorted(glob.glob(os.path.join(d, '*.json'))):
            j = json.load(open(f))
            self.crates.append(j['crate'])
            tys = j['tys']
            for a in j['adts']:
                a['tys'] = tys
                a['crate'] = j['crate']
                self.adts[a['path']] = a
            for i in j['impls']:
                i['crate'], i['selfty'] = j['crate'], tys[i['self']] if isinstance(i['self'], int) else i['self']
                self.impls.append(i)
                if i['derived']:
                    for _, k in i['items']:
                        self.derived.add(k)
            for x in j['fns']:
                fn = Fn(x, j['crate'], tys)
                self.fns[fn.key] = fn
                self.bypath.setdefault(fn.npath, []).append(fn)
                self.children.setdefault(fn.parent, []).append(fn)
        self.trait_impl = {}
        self.from_impl = {}
        for i in self.impls:
            if not i['trait']:
                continue
            t = strip_generics(i['trait'])
            for n, k in i['items']:
                self.trait_impl.setdefault((t, n), []).append((i, k))
            if t == 'std::convert::From':
                for n, k in i['items']:
                    self.from_impl[i['tref']] = k
        for k in self.derived:
            if k in self.fns:
                self.fns[k].derived = True

    def find(self, suffix, trait=None):
        """The functions whose generic-free path ends with `suffix` (at a path boundary)."""
        r = []
        for p, fs in self.bypath.items():
            if p == suffix or p.endswith('::' + suffix):
                r += fs
        if trait is not None:
            r = [f for f in r if f.trait and strip_generics(f.trait).endswith(trait)]
        return [f for f in r if not f.derived]

    def method(self, ty, name, trait=None):
        """Methods named `name` implemented for the type whose path ends with `ty`."""
        r = []
        for f in self.fns.values():
            if f.name != name or not f.impl or f.kind != 'assoc':
                continue
            im = tyname(f.impl)
            if im == ty or im.endswith('::' + ty):
                if trait is None or (f.trait and strip_generics(f.trait).endswith(trait)):
                    r.append(f)
        return r

    def top(self, fn):
        """The function a closure or async block is written in."""
        while fn.kind not in ('assoc', 'fn', 'Fn', 'AssocFn') and fn.parent in self.fns:
            fn = self.fns[fn.parent]
        return fn

    def callers(self):
        """fn key -> the keys of the functions that name it (closures count as the function they are in)."""
        if not hasattr(self, '_callers'):
            r = {}
            for f in self.fns.values():
                if f.derived:
                    continue
                t = self.top(f).key
                for k in set(re.findall(r"'(?:key|rk)': '(\(\d+, \d+\))'", repr(f.blocks))):
                    if k in self.fns and k != t:
                        r.setdefault(self.top(self.fns[k]).key, set()).add(t)
            self._callers = r
        return self._callers

    def touching(self, field, scope):
        """The functions under the path prefix `scope` that read or write a field of that name (not derived, not tests)."""
        r = {}
        for f in self.fns.values():
            if f.derived or '::test' in f.path or scope not in f.path:
                continue
            if f"'.{field}'" in repr(f.blocks):
                t = self.top(f)
                r[t.key] = t
        return list(r.values())

    def adt(self, suffix):
        r = [a for p, a in self.adts.items() if p == suffix or p.endswith('::' + suffix)]
        return r


# ------------------------------------------------------------------ CFG helpers
def places_of_op(o, acc):
    if o[0] in ('c', 'm'):
        acc.append(o[1])


def rv_places(rv, acc):
    k = rv[0]
    if k in ('use', 'rep', 'un', 'cast'):
        places_of_op(rv[2] if k in ('un', 'cast') else rv[1], acc)
    elif k in ('ref', 'disc'):
        acc.append(rv[1])
    elif k == 'bin':
        places_of_op(rv[2], acc); places_of_op(rv[3], acc)
    elif k == 'agg':
        for o in rv[2]:
            places_of_op(o, acc)


def use_locals(pl, acc):
    acc.add(pl[0])
    for p in pl[1:]:
        if isinstance(p, list) and p[0] == 'i':
            acc.add(p[1])


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'sw':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    if k == 'yield':
        return [t[1]]
    return []


def liveness(fn):
    if fn._live is not None:
        return fn._live
    nb = len(fn.blocks)
    gen, kill = [None] * nb, [None] * nb
    for i, b in enumerate(fn.blocks):
        g, k = set(), set()
        for pl, rv in b['s']:
            acc = []
            rv_places(rv, acc)
            u = set()
            for p in acc:
                use_locals(p, u)
            if len(pl) > 1:
                use_locals(pl, u)
            g |= (u - k)
            if len(pl) == 1:
                k.add(pl[0])
        t = b['t']
        u = set()
        acc = []
        if t[0] == 'sw':
            places_of_op(t[1], acc)
        elif t[0] == 'call':
            places_of_op(t[1], acc)
            for o in t[2]:
                places_of_op(o, acc)
            if len(t[3]) > 1:
                use_locals(t[3], u)
        elif t[0] == 'assert':
            places_of_op(t[1], acc)
            for o in t[4]:
                places_of_op(o, acc)
        elif t[0] == 'ret':
            u.add(0)
        for p in acc:
            use_locals(p, u)
        g |= (u - k)
        if t[0] == 'call' and len(t[3]) == 1:
            k.add(t[3][0])
        gen[i], kill[i] = g, k
    live = [set() for _ in range(nb)]
    ch = True
    order = list(reversed(rpo(fn)))
    while ch:
        ch = False
        for i in order:
            out = set()
            for s in succs(fn.blocks[i]['t']):
                out |= live[s]
            n = gen[i] | (out - kill[i])
            if n != live[i]:
                live[i] = n
                ch = True
    fn._live = live
    return live


def rpo(fn):
    if fn._rpo is not None:
        return fn._rpo
    seen, order = set(), []
    stack = [(0, iter(succs(fn.blocks[0]['t'])))]
    seen.add(0)
    while stack:
        n, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(fn.blocks[s]['t']))))
                break
        else:
            order.append(n)
            stack.pop()
    fn._rpo = list(reversed(order))
    return fn._rpo
