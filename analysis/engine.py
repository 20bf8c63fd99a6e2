"""Interprocedural, path-sensitive dataflow over the compiler's MIR (property simulation, no solver, no execution).

The abstract state maps memory roots to value-provenance terms and carries the branch literals that hold on every
path into it. States of one program point are joined when they agree on the enum variants, booleans, closures and
references that are live; everything else is joined (phi) and widened, so every fixpoint is finite. The result is a
graph whose edges carry branch literals and events (calls, constructions, writes, panics); rules are queries on it.
"""
import time
import heapq
from terms import *
from facts import *

MAXPHI = 6
MAXVISIT = 7
CAP = 40


class St:
    __slots__ = ('mem', 'know', 'node')

    def __init__(self, mem, know, node):
        self.mem, self.know, self.node = mem, know, node

    def copy(self):
        return St(dict(self.mem), self.know, self.node)


class Ev:
    __slots__ = ('kind', 'name', 'args', 'addrs', 'span', 'fn', 'exp', 'extra')

    def __init__(self, kind, name, args=(), addrs=(), span='', fn=None, exp=None, extra=None):
        self.kind, self.name, self.args, self.addrs = kind, name, tuple(args), tuple(addrs)
        self.span, self.fn, self.exp, self.extra = span, fn, exp, extra

    def __repr__(self):
        return f'{self.kind} {short(self.name)}({", ".join(show(a, 6) for a in self.args)}) @{self.span}'


DEADLINE = [0]


class Budget(Exception):
    pass


# Opaque even though the bodies are in the workspace: infrastructure, judged by its own rules.
DEFAULT_OPAQUE = (
    'flarch::broker::', 'flarch::tasks::', 'flarch::data_storage::', 'flarch::web_rtc::', 'flmodules::timer::',
    'flarch::nodeids::U256::', 'flarch::start_logging', 'flmodules::testing::',
)


class Graph:
    def __init__(self):
        self.out = {}
        self.n = 0
        self.where = {}

    def new(self, where=None):
        self.n += 1
        self.out[self.n] = []
        if where:
            self.where[self.n] = where
        return self.n


class Engine:
    def __init__(self, facts, opaque=(), transparent=(), max_steps=120000, max_depth=28, events=None, prim=None, steps=False):
        self.steps = steps  # events for the arithmetic which can overflow
        self.F = facts
        self.opaque = tuple(opaque)
        self.transparent = tuple(transparent)
        self.max_steps, self.max_depth = max_steps, max_depth
        self.prim = prim  # optional hook: prim(engine, npath, st, argvals, args, ctx) -> outcomes or None
        self.reset()

    def reset(self):
        self.g = Graph()
        self.steps = 0
        self.stack = []
        self.fns_seen = set()
        self.coarse = 0
        self.unresolved = {}

    # ------------------------------------------------------------ graph
    def edge(self, a, b, lit=None, ev=None):
        self.g.out[a].append((b, lit, ev))

    def emit(self, st, ev):
        n = self.g.new()
        self.edge(st.node, n, None, ev)
        st.node = n

    def fork(self, st, lit):
        """A copy of the state in which the literal holds, or None when that contradicts what is known."""
        lits = canon(lit)
        if lits is False:
            return None
        k = set(st.know)
        for l in lits:
            if (l[0], not l[1]) in k:
                return None
            if l[0].op == 'is' and l[1]:
                for o in st.know:
                    if o[0].op == 'is' and o[0].a[0] is l[0].a[0] and o[1] and o[0].a[1] != l[0].a[1]:
                        return None
        for l in lits:
            k.add(l)
        s = St(dict(st.mem), frozenset(k), st.node)
        n = self.g.new()
        cur = st.node
        if not lits:
            self.edge(cur, n)
        else:
            for i, l in enumerate(lits):
                nn = n if i == len(lits) - 1 else self.g.new()
                self.edge(cur, nn, l)
                cur = nn
        s.node = n
        return s

    def holds(self, st, t):
        """True / False / None for a boolean term in a state."""
        lits = canon((t, True))
        if lits is False:
            return False
        if not lits:
            return True
        if all(l in st.know for l in lits):
            return True
        if any((l[0], not l[1]) in st.know for l in lits):
            return False
        return None

    # ------------------------------------------------------------ memory
    def rd_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'S':
                v = T('sym', root[1])
            else:
                v = UNDEF
        return v

    def project(self, v, p):
        o = v.op
        if o == 'phi':
            out = []
            for x in v.a[0]:
                y = self.project(x, p)
                if y is not None:
                    out.append(y)
            return mkphi(out) if out else UNDEF
        if o == 'undef':
            return v
        if isinstance(p, str) and p[0] == '.':
            f = p[1:]
            if o == 'agg':
                if f in v.a[2]:
                    return v.a[3][v.a[2].index(f)]
                if f.isdigit() and int(f) < len(v.a[3]):
                    return v.a[3][int(f)]
                return UNDEF
            if o == 'clo':
                i = int(f) if f.isdigit() else -1
                return v.a[2][i] if 0 <= i < len(v.a[2]) else UNDEF
            if o == 'upd':
                return self.proj_upd(v, p)
            if o == 'as' and v.a[0].op == 'get' and f == '0':
                return T('at', v.a[0].a[0], v.a[0].a[1])
            return T('fld', v, f)
        if isinstance(p, str) and p[0] == '@':
            V = p[1:]
            if o == 'agg':
                return v if v.a[1] == V or v.a[1] is None else None
            if o == 'upd':
                return self.proj_upd(v, p)
            return T('as', v, V)
        if p[0] == 'at':
            if o == 'upd':
                return self.proj_upd(v, p)
            if o == 'agg' and v.a[0] == 'array' and p[1].op == 'i':
                i = p[1].a[0]
                if 0 <= i < len(v.a[3]):
                    return v.a[3][i]
            return T('at', v, p[1])
        if p[0] == 'el':
            if o == 'upd':
                return self.proj_upd(v, p)
            if o == 'agg' and v.a[0] == 'array':
                return mkphi(v.a[3]) if v.a[3] else UNDEF
            if o == 'bag':
                return mkphi([x[0] for x in v.a[1]] + ([] if empty_coll(v.a[0]) else [T('elem', v.a[0])]))
            return T('elem', v)
        return T('proj', v, str(p[0]))

    def proj_upd(self, v, p):
        base, ents = v.a
        sub, full = [], None
        for path, val in ents:
            if path[0] == p:
                if len(path) == 1:
                    full = val
                else:
                    sub.append((path[1:], val))
        if full is not None:
            return full
        b = self.project(base, p)
        if sub and b is not None:
            for path, val in sub:
                b = self.store(b, path, val)
        return b

    def read(self, st, root, path):
        v = self.rd_root(st, root)
        for p in path:
            v = self.project(v, p)
            if v is None:
                return UNDEF
        return v

    def store(self, v, path, val):
        if not path:
            return val
        p, rest = path[0], path[1:]
        if v.op == 'agg':
            if isinstance(p, str) and p[0] == '@':
                return self.store(v, rest, val)
            if isinstance(p, str) and p[0] == '.':
                f = p[1:]
                i = v.a[2].index(f) if f in v.a[2] else (int(f) if f.isdigit() else -1)
                if 0 <= i < len(v.a[3]):
                    vs = list(v.a[3])
                    vs[i] = self.store(vs[i], rest, val)
                    return T('agg', v.a[0], v.a[1], v.a[2], tuple(vs))
                if f.isdigit() and v.a[0] == 'tuple':
                    vs = list(v.a[3]) + [UNDEF] * (int(f) + 1 - len(v.a[3]))
                    vs[int(f)] = self.store(UNDEF, rest, val)
                    return tup(*vs)
        if v.op == 'clo' and isinstance(p, str) and p[1:].isdigit() and int(p[1:]) < len(v.a[2]):
            vs = list(v.a[2])
            vs[int(p[1:])] = self.store(vs[int(p[1:])], rest, val)
            return T('clo', v.a[0], v.a[1], tuple(vs))
        if v.op == 'upd':
            base, ents = v.a
        else:
            base, ents = v, ()
        d = []
        for q, w in ents:
            if q[:len(path)] == path:
                continue
            if path[:len(q)] == q:
                val = self.store(w, path[len(q):], val)
                path = q
                continue
            d.append((q, w))
        d.append((path, val))
        if len(d) > 24:
            return T('wid', 'upd')
        d.sort(key=lambda x: pkey(x[0]))
        return T('upd', base, tuple(d))

    def write(self, st, root, path, val):
        st.mem[root] = self.store(self.rd_root(st, root), path, val) if path else val

    def resolve(self, st, depth, pl):
        root, path = ('L', depth, pl[0]), ()
        self.through_opaque = False
        for p in pl[1:]:
            if p == '*':
                v = self.read(st, root, path)
                n = 0
                if v.op == 'ref':
                    root, path = v.a[0], v.a[1]
                    self.through_opaque = False
                elif root[0] == 'L':
                    self.through_opaque = True
            elif isinstance(p, list):
                if p[0] == 'i':
                    path = path + (('at', self.val(st, self.read(st, ('L', depth, p[1]), ()))),)
                elif p[0] == 'ci':
                    path = path + (('at', C(p[1]) if not p[2] else T('fromend', C(p[1]))),)
                else:
                    path = path + (('at', T('slice', C(str(p[1:])))),)
            else:
                # Field of an opaque reference stored in memory: references are transparent.
                v = self.read(st, root, path)
                k = 0
                while v.op == 'ref' and k < 8:
                    root, path = v.a[0], v.a[1]
                    v = self.read(st, root, path)
                    k += 1
                path = path + (p,)
        return root, path

    def val(self, st, v):
        """The value behind any number of references."""
        k = 0
        while v.op == 'ref' and k < 8:
            v = self.read(st, v.a[0], v.a[1])
            k += 1
        return v

    def deep(self, st, v, d=4):
        """The value with all references inside it replaced by what they point to."""
        v = self.val(st, v)
        if d <= 0:
            return v
        if v.op == 'agg' and refs(v):
            return T('agg', v.a[0], v.a[1], v.a[2], tuple(self.deep(st, x, d - 1) for x in v.a[3]))
        if v.op == 'clo' and refs(v):
            return T('clo', v.a[0], v.a[1], tuple(self.deep(st, x, d - 1) for x in v.a[2]))
        if v.op == 'iter' and refs(v):
            return T('iter', self.deep(st, v.a[0], d - 1), v.a[1], v.a[2])
        if v.op == 'phi' and refs(v):
            return mkphi([self.deep(st, x, d - 1) for x in v.a[0]])
        return v

    def addr(self, st, v):
        """The place a reference denotes as a term, e.g. self.storage.flos, or None."""
        if v.op != 'ref':
            return None
        root, path = v.a[0], v.a[1]
        if root[0] == 'L':
            # A local that holds a reference itself.
            w = self.read(st, root, ())
            if w.op == 'ref' and w is not v:
                return self.addr(st, T('ref', w.a[0], w.a[1] + path, w.a[2]))
        t = T('sym', root[1]) if root[0] == 'S' else T('loc', *root[1:])
        for p in path:
            if isinstance(p, str) and p[0] == '.':
                t = T('fld', t, p[1:])
            elif isinstance(p, str):
                t = T('as', t, p[1:])
            elif p[0] == 'at':
                t = T('at', t, p[1])
            else:
                t = T('elem', t)
        return t

    # ------------------------------------------------------------ joins
    def skel(self, st, extra_bools):
        out = []
        for r, v in st.mem.items():
            s = skel(v)
            if s is not None:
                out.append((r, s))
        for r in extra_bools:
            v = st.mem.get(r)
            if v is not None and not is_const(v) and not (v.op == 'agg' and v.a[1] in ('Err', 'None')):
                out.append((r, ('t', v.id)))
        out.sort(key=lambda x: str(x[0]))
        return tuple(out)

    def join(self, a, b, ctx, widen):
        mem = {}
        for r in a.mem:
            if r in b.mem:
                x, y = a.mem[r], b.mem[r]
                mem[r] = x if x is y else join_val(x, y, (ctx, r), widen)
            elif r[0] == 'S':
                mem[r] = join_val(a.mem[r], self.rd_root(b, r), (ctx, r), widen)
        for r in b.mem:
            if r not in a.mem and r[0] == 'S':
                mem[r] = join_val(self.rd_root(a, r), b.mem[r], (ctx, r), widen)
        return St(mem, a.know & b.know, a.node)

    # ------------------------------------------------------------ exploration of one body (MIR or combinator)
    def explore(self, name, entry, st, step, order, depth, prune, bools, boolret=False):
        """Worklist over (block, skeleton). step(block, state) returns [('go', block, st) | ('ret', value, st)].
        Returns the outcomes [(value, state)], merged by skeleton."""
        nodes = {}
        rets = {}
        heap = []
        perblock = {}
        cnt = [0]
        src = [None, None]      # the node being stepped, and the nodes it arrived at in this step
        # The states arrived at a node are kept by source, and replaced when the source is stepped again; only the heads
        # of loops accumulate (and are widened).
        inc = {}
        heads = set()

        def arrive(bb, s):
            prune(bb, s)
            if src[0] is not None and order(bb) <= order(src[0][0]):
                heads.add(bb)
            key = self.skel(s, bools(bb))
            pb = perblock.setdefault(bb, set())
            if key not in pb and len(pb) >= CAP:
                key = 'coarse'
                self.coarse += 1
            pb.add(key)
            k = (bb, key)
            rec = nodes.get(k)
            if rec is None:
                nid = self.g.new((name, bb))
                self.edge(s.node, nid)
                ns = St(s.mem, s.know, nid)
                nodes[k] = [ns, nid, 1, True]
                inc[k] = {src[0]: ns}
                src[1].add(k)
                cnt[0] += 1
                heapq.heappush(heap, (order(bb), cnt[0], k))
            else:
                self.edge(s.node, rec[1])
                i = inc[k]
                ctx = (name, bb)
                i[src[0]] = self.join(i[src[0]], s, ctx, False) if k in src[1] and src[0] in i else St(s.mem, s.know, rec[1])
                src[1].add(k)
                if bb in heads or rec[2] > 40:
                    m = self.join(rec[0], s, ctx, rec[2] > MAXVISIT)
                else:
                    m = None
                    for x in i.values():
                        m = x if m is None else self.join(m, x, ctx, False)
                    m = St(m.mem, m.know, rec[1])
                if m.know != rec[0].know or m.mem != rec[0].mem:
                    m.node = rec[1]
                    rec[0] = m
                    rec[2] += 1
                    if not rec[3]:
                        rec[3] = True
                        cnt[0] += 1
                        heapq.heappush(heap, (order(bb), cnt[0], k))

        src[1] = set()
        arrive(entry, st)
        produced = {}
        while heap:
            _, _, k = heapq.heappop(heap)
            rec = nodes[k]
            if not rec[3]:
                continue
            rec[3] = False
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget(f'{name} steps>{self.max_steps}')
            if DEADLINE[0] and time.time() > DEADLINE[0]:
                raise Budget(f'{name}: out of time')
            self.g.out[rec[1]] = []
            s = rec[0].copy()
            s.node = rec[1]
            produced[k] = []
            src[0], src[1] = k, set()
            for o in step(k[0], s):
                if o[0] == 'go':
                    arrive(o[1], o[2])
                else:
                    produced[k].append((o[1], o[2]))
        # Merge the returns.
        outs = {}
        for k in produced:
            for v, s in produced[k]:
                for r in [r for r in s.mem if r[0] == 'L' and r[1] >= depth]:
                    del s.mem[r]
                s.mem[('R',)] = v
                key = self.skel(s, [('R',)] if boolret or v.op not in ('agg', 'clo', 'iter', 'ref') else [])
                if key not in outs and len(outs) >= CAP:
                    key = next(iter(outs))
                    self.coarse += 1
                if key in outs:
                    m = self.join(outs[key], s, (name, 'ret'), False)
                    self.edge(s.node, outs[key].node)
                    m.node = outs[key].node
                    outs[key] = m
                else:
                    n = self.g.new((name, 'ret'))
                    self.edge(s.node, n)
                    outs[key] = St(s.mem, s.know, n)
        res = []
        for s in outs.values():
            v = s.mem.pop(('R',))
            res.append((v, s))
        return res

    # ------------------------------------------------------------ MIR functions
    def exec_fn(self, fn, args, st, ctx_span=None):
        depth = len(self.stack)
        if depth >= self.max_depth or sum(1 for f in self.stack if f is fn) >= 1:
            return None
        self.stack.append(fn)
        self.fns_seen.add(fn.key)
        try:
            st = st.copy()
            for i, a in enumerate(args):
                st.mem[('L', depth, i + 1)] = a
            live = liveness(fn)
            rp = {b: i for i, b in enumerate(rpo(fn))}

            def prune(bb, s):
                keep = self.trace(s, depth, live[bb])
                for r in [r for r in s.mem if r[0] == 'L' and r[1] == depth and r not in keep]:
                    del s.mem[r]

            def bools(bb):
                return [('L', depth, i) for i in fn.boolloc if i in live[bb]]

            return self.explore(fn.npath, 0, st, lambda bb, s: self.step(fn, depth, bb, s),
                                lambda bb: rp.get(bb, 10 ** 6), depth, prune, bools, fn.boolret)
        finally:
            self.stack.pop()

    def trace(self, s, depth, locs):
        keep, work = set(), [('L', depth, l) for l in locs]
        # References held in outer frames or symbolic roots.
        for r, v in s.mem.items():
            if r[0] != 'L' or r[1] < depth:
                for q in refs(v):
                    if q[0] == 'L' and q[1] == depth:
                        work.append(q)
        while work:
            r = work.pop()
            if r in keep:
                continue
            keep.add(r)
            v = s.mem.get(r)
            if v is not None:
                for q in refs(v):
                    if q not in keep:
                        work.append(q)
        return keep

    def operand(self, st, depth, o):
        if o[0] in ('c', 'm'):
            root, path = self.resolve(st, depth, o[1])
            return self.read(st, root, path)
        if o[0] == 'k':
            return self.const(o[1])
        return T('fn', o[1]['rk'] or o[1]['key'], strip_generics(o[1]['fn']), strip_generics(o[1]['res'] or o[1]['fn']))

    def const(self, k):
        if 'v' in k:
            v = k['v']
            if isinstance(v, dict):
                return T('c', 'bytes:' + v.get('bytes', ''))
            if v == '<zst>':
                return T('c', 'zst') if not k.get('def') else T('const', k['def'])
            return C(v)
        if k.get('def'):
            if k.get('dkey') and '{constant' not in k['def']:
                return T('const', strip_generics(k['def']))
            return T('const', strip_generics(k['def']))
        return T('const', '?')

    def step(self, fn, depth, bb, st):
        b = fn.blocks[bb]
        for pl, rv in b['s']:
            v = self.rvalue(fn, depth, st, rv)
            root, path = self.resolve(st, depth, pl)
            if root[0] == 'S':
                self.emit(st, Ev('write', '', (self.addr(st, T('ref', root, path, True)), self.deep(st, v)), (),
                                 b.get('sp', ''), fn))
            elif path and root[0] == 'L':
                ad = self.addr(st, T('ref', root, path, True))
                self.emit(st, Ev('lwrite', '', (ad, self.deep(st, v)), (), '', fn))
            self.write(st, root, path, v)
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [('go', t[1], st)]
        if k == 'drop':
            return [('go', t[2], st)]
        if k == 'ret':
            return [('ret', self.rd_root(st, ('L', depth, 0)), st)]
        if k in ('resume', 'unr'):
            return []
        if k == 'yield':
            return [('go', t[1], st)]
        if k == 'assert':
            c = self.operand(st, depth, t[1])
            if t[3].startswith(('bounds', 'div0', 'rem0')) or t[3].startswith('overflow'):
                ops = [self.deep(st, self.operand(st, depth, o)) for o in t[4]]
                s2 = st.copy()
                n = self.g.new()
                self.edge(st.node, n, None, Ev('panic', t[3], ops, (), t[6], fn))
                if self.steps and t[3].startswith('overflow'):
                    self.emit(st, Ev('step', t[3][9:], ops, (), t[6], fn))
            return [('go', t[5], st)]
        if k == 'sw':
            return self.switch(fn, depth, st, t)
        if k == 'call':
            return self.call_term(fn, depth, bb, st, t)
        return []

    def switch(self, fn, depth, st, t):
        v = self.val(st, self.operand(st, depth, t[1]))
        outs = []
        if v.op == 'disc':
            x, vs = v.a
            vs = dict(vs)
            alts = x.a[0] if x.op == 'phi' else [x]
            tg = {str(vs.get(int(val), val)): bb for val, bb in t[2]}
            rest = [n for n in vs.values() if n not in tg]
            for x in alts:
                if x.op == 'agg' and x.a[1] is not None:
                    bb = tg.get(x.a[1], t[3])
                    if bb is not None:
                        outs.append(('go', bb, st.copy()))
                    continue
                for n, bb in tg.items():
                    s = self.fork(st, (T('is', x, n), True))
                    if s:
                        outs.append(('go', bb, s))
                if t[3] is not None and rest and fn.blocks[t[3]]['t'][0] != 'unr':
                    if len(rest) == 1:
                        s = self.fork(st, (T('is', x, rest[0]), True))
                    else:
                        s = st
                        for n in tg:
                            if s is not None:
                                s = self.fork(s, (T('is', x, n), False))
                    if s:
                        outs.append(('go', t[3], s))
            return outs
        isb = fn.tys[t[4]] == 'bool'
        if isb:
            fb = tb = None
            for val, bb in t[2]:
                if int(val) == 0:
                    fb = bb
                else:
                    tb = bb
            if fb is None:
                fb = t[3]
            if tb is None:
                tb = t[3]
            for pol, s in self.split_bool(st, v):
                outs.append(('go', tb if pol else fb, s))
            return outs
        if v.op == 'i':
            for val, bb in t[2]:
                if int(val) == v.a[0]:
                    return [('go', bb, st)]
            return [('go', t[3], st)]
        s = st
        for val, bb in t[2]:
            q = self.fork(st, (mkeq(v, C(int(val))), True))
            if q:
                outs.append(('go', bb, q))
            if s is not None:
                s = self.fork(s, (mkeq(v, C(int(val))), False))
        if t[3] is not None and s is not None:
            outs.append(('go', t[3], s))
        return outs

    def split_bool(self, st, v):
        v = self.val(st, v)
        if v is TRUE:
            return [(True, st)]
        if v is FALSE:
            return [(False, st)]
        if v.op == 'phi':
            out = []
            for x in sorted(v.a[0], key=lambda x: x.id):
                out += self.split_bool(st, x)
            return out
        if v.op == 'un' and v.a[0] == 'Not':
            return [(not p, s) for p, s in self.split_bool(st, v.a[1])]
        h = self.holds(st, v)
        if h is not None:
            return [(h, st)]
        out = []
        for pol in (True, False):
            s = self.fork(st, (v, pol))
            if s:
                out.append((pol, s))
        return out

    def split(self, st, v, variants):
        """[(variant, payload or None, state)] for an enum value."""
        v0 = v
        v = self.val(st, v)
        if v.op == 'upd':
            pass
        if v.op == 'phi':
            out = []
            for x in sorted(v.a[0], key=lambda x: x.id):
                out += self.split(st, x, variants)
            return out
        if v.op == 'agg' and v.a[1] is not None:
            return [(v.a[1], v.a[3][0] if v.a[3] else None, st)]
        out = []
        for n in variants:
            s = self.fork(st, (T('is', v, n), True))
            if s:
                out.append((n, self.project(self.project(v, '@' + n), '.0'), s))
        return out

    def rvalue(self, fn, depth, st, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(st, depth, rv[1])
        if k == 'ref':
            root, path = self.resolve(st, depth, rv[1])
            if self.through_opaque and not rv[2]:
                # Behind a reference whose target is not a tracked place: shared references are their value.
                return self.read(st, root, path)
            return T('ref', root, path, bool(rv[2]))
        if k == 'agg':
            ops = [self.operand(st, depth, o) for o in rv[2]]
            if rv[1] == 'adt':
                v = agg(rv[3], rv[4] if rv[6] else None, rv[5], ops)
                if not rv[3].startswith(('std::', 'core::', 'alloc::')):
                    self.emit(st, Ev('new', rv[3] + ('::' + rv[4] if rv[6] else ''), (self.deep(st, v),), (), '', fn))
                return v
            if rv[1] in ('closure', 'coroutine'):
                return T('clo', rv[4], rv[1], tuple(ops))
            if rv[1] == 'tuple':
                return tup(*ops) if ops else UNIT
            return agg('array', None, [str(i) for i in range(len(ops))], ops)
        if k == 'disc':
            root, path = self.resolve(st, depth, rv[1])
            v = self.val(st, self.read(st, root, path))
            return T('disc', v, tuple((a, b) for a, b in rv[2]))
        if k == 'bin':
            a, b = self.val(st, self.operand(st, depth, rv[2])), self.val(st, self.operand(st, depth, rv[3]))
            return mkbin(rv[1], a, b)
        if k == 'un':
            v = self.operand(st, depth, rv[2])
            if rv[1] == 'Not':
                return mknot(self.val(st, v))
            if rv[1] == 'PtrMetadata':
                return T('call', 'len', self.val(st, v))
            return T('un', rv[1], self.val(st, v))
        if k == 'cast':
            v = self.operand(st, depth, rv[2])
            if rv[1] in ('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat'):
                v = self.val(st, v)
                if v.op == 'i' and rv[1] == 'IntToInt':
                    return v
                if v.op == 'disc':
                    return T('call', 'discriminant', v.a[0])
                return T('cast', v, fn.tys[rv[4]])
            return v
        if k == 'rep':
            return T('rep', self.operand(st, depth, rv[1]), C(rv[2]) if rv[2] is not None else UNDEF)
        if k == 'setd':
            return agg('?', rv[1], (), ())
        return T('c', 'tls')

    # ------------------------------------------------------------ calls
    def call_term(self, fn, depth, bb, st, t):
        _, fo, ops, dest, target, span, unw, exp = t
        args = [self.operand(st, depth, o) for o in ops]
        if exp and (exp.startswith('log::') or exp.startswith('tracing')):
            if target is None:
                return []
            root, path = self.resolve(st, depth, dest)
            self.write(st, root, path, T('c', 'log'))
            return [('go', target, st)]
        cx = Cx(fn, bb, span, exp, [fn.tys[x] for x in fo[1]['ga']] if fo[0] == 'f' else [], fn, depth,
                self.dest_ty(fn, dest))
        if fo[0] == 'f':
            # Keep only what the continuation and the arguments need.
            outs = self.call(st, fo[1], args, cx)
        else:
            f = self.operand(st, depth, fo)
            outs = self.call_value(st, f, args, cx)
        res = []
        for v, s in outs:
            if target is None:
                continue
            root, path = self.resolve(s, depth, dest)
            if root[0] == 'S':
                self.emit(s, Ev('write', '', (self.addr(s, T('ref', root, path, True)), self.deep(s, v)), (), span, fn))
            elif path:
                self.emit(s, Ev('lwrite', '', (self.addr(s, T('ref', root, path, True)), self.deep(s, v)), (), span, fn))
            self.write(s, root, path, v)
            res.append(('go', target, s))
        return res

    def dest_ty(self, fn, pl):
        return fn.lty(pl[0]) if len(pl) == 1 else '?'

    def is_opaque(self, f):
        p = f.npath
        if p in self.opaque:
            return True
        for x in self.transparent:
            if p == x or p.endswith('::' + x) or (x.endswith('::') and p.startswith(x)):
                return False
        for x in self.opaque:
            if p == x or p.endswith('::' + x) or (x.endswith('::') and p.startswith(x)):
                return True
        return p.startswith(DEFAULT_OPAQUE) or '::_::' in p

    def call(self, st, f, args, cx):
        name = strip_generics(f['fn'])
        res = strip_generics(f['res']) if f['res'] else name
        rk = f['rk'] or f['key']
        target = self.F.fns.get(rk)
        cx.res, cx.rk, cx.tr = res, rk, f['tr']
        if self.prim:
            r = self.prim(self, name, st, args, cx)
            if r is not None:
                return r
        h = None
        if target is None or target.derived or name.startswith('std::'):
            import intrinsics
            h = intrinsics.TABLE.get(name) or intrinsics.TABLE.get(res)
            if h is not None and not (target is not None and not target.derived and intrinsics.overridable(name)):
                r = h(self, st, args, cx)
                if r is not None:
                    return r
        if target is not None and not target.derived:
            return self.call_fn(st, target, args, cx, name)
        return self.opaque_call(st, name, args, cx)

    def call_fn(self, st, target, args, cx, name=None):
        """A call of a workspace function: recorded, and inlined unless opaque or recursive."""
        self.ev_call(st, target.npath, args, cx, ws=True)
        if self.is_opaque(target) or not target.blocks:
            return self.opaque_call(st, target.npath, args, cx, noev=True)
        r = self.exec_fn(target, args, st)
        if r is None:
            return self.opaque_call(st, target.npath, args, cx, noev=True)
        return r

    def ev_call(self, st, name, args, cx, ws=False):
        vals = [self.deep(st, a) for a in args]
        addrs = [self.addr(st, a) for a in args]
        self.emit(st, Ev('call', name, vals, addrs, cx.span, cx.fn, cx.exp, extra=cx.res))

    def opaque_call(self, st, name, args, cx, noev=False, retname=None):
        vals = [self.deep(st, a) for a in args]
        if not noev:
            self.ev_call(st, name, args, cx)
        mut = False
        for i, a in enumerate(args):
            if a.op == 'ref' and a.a[2]:
                old = vals[i]
                others = tuple(v for j, v in enumerate(vals) if j != i)
                self.write(st, a.a[0], a.a[1], mkmut(old, name, others))
                mut = True
        if mut or not args:
            r = T('call', retname or name, *vals, T('uid', cx.fn.npath, cx.bb))
        else:
            r = T('call', retname or name, *vals)
        return [(r, st)]

    def call_value(self, st, f, args, cx):
        """A call of a closure or function value with already separated arguments."""
        f = self.val(st, f)
        if f.op == 'clo':
            fn = self.F.fns.get(f.a[0])
            if fn is not None:
                r = self.exec_fn(fn, [f] + list(args), st)
                if r is not None:
                    return r
            return self.opaque_call(st, '<closure>', [f] + list(args), cx)
        if f.op == 'fn':
            d = {'fn': f.a[1], 'res': f.a[2], 'rk': f.a[0], 'key': f.a[0], 'ga': [], 'tr': None}
            # Constructors used as functions.
            fn = self.F.fns.get(f.a[0])
            if fn is None:
                c = self.ctor(f.a[1], args)
                if c is not None:
                    if not f.a[1].startswith(('std::', 'core::')):
                        self.emit(st, Ev('new', f.a[1], (self.deep(st, c),), (), cx.span, cx.fn))
                    return [(c, st)]
            return self.call(st, d, list(args), cx)
        if f.op == 'phi':
            out = []
            for x in sorted(f.a[0], key=lambda x: x.id):
                out += self.call_value(st.copy(), x, args, cx)
            return out
        return self.opaque_call(st, '<dyn>', [f] + list(args), cx)

    def ctor(self, path, args):
        p = path.split('::')
        std = {'Some': OPT, 'Ok': RES, 'Err': RES}
        if path.startswith(('std::', 'core::')) and p[-1] in std:
            return enum1(std[p[-1]], p[-1], *args)
        a = self.F.adts.get('::'.join(p[:-1]))
        if a and a['kind'] == 'enum':
            for v in a['variants']:
                if v['name'] == p[-1]:
                    return agg('::'.join(p[:-1]), p[-1], [str(i) for i in range(len(args))], args)
        a = self.F.adts.get(path)
        if a and a['kind'] == 'struct':
            return agg(path, None, [x['name'] for x in a['variants'][0]['fields']][:len(args)], args)
        return None

    def poll(self, st, v, cx):
        """Runs a future to completion."""
        if v.op == 'ref':
            # The guard of a lock stays a reference to what is locked.
            w = self.read(st, v.a[0], v.a[1])
            if w.op == 'ref' and w.a[0][0] == 'S' and self.val(st, w).op not in ('clo', 'phi'):
                return [(w, st)]
        v = self.val(st, v)
        if v.op == 'clo':
            fn = self.F.fns.get(v.a[0])
            if fn is not None:
                r = self.exec_fn(fn, [v, T('c', 'cx')], st)
                if r is not None:
                    return r
            return self.opaque_call(st, '<future>', [v], cx)
        if v.op == 'phi':
            out = []
            for x in sorted(v.a[0], key=lambda x: x.id):
                out += self.poll(st.copy(), x, cx)
            return out
        return [(v, st)]

    # ------------------------------------------------------------ helper for combinators
    def loop(self, name, st, body, depth=None):
        """Fixpoint of a combinator. body(state) yields ('back', st) or ('exit', value, st)."""
        h = st.copy()
        nid = self.g.new((name, 'head'))
        self.edge(st.node, nid)
        exits = []
        for it in range(8):
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget(name)
            self.g.out[nid] = []
            exits, backs = [], []
            s = h.copy()
            s.node = nid
            for o in body(s):
                if o[0] == 'back':
                    backs.append(o[1])
                else:
                    exits.append((o[1], o[2]))
            m = h
            for b in backs:
                for r in [r for r in b.mem if r not in h.mem and r[0] != 'S']:
                    del b.mem[r]
                m = self.join(m, b, (name,), it > 4)
                self.edge(b.node, nid)
            if m.mem == h.mem and m.know == h.know:
                break
            h = m
        return exits

    def merge(self, outs):
        return outs

    # ------------------------------------------------------------ entry points
    def run(self, fn, args=None, mem=None, know=()):
        """Analyses a function (async ones to completion). Unknown arguments are symbols named after the parameters."""
        self.reset()
        root = self.g.new(('root', 0))
        st = St(dict(mem or {}), frozenset(know), root)
        a = []
        for i in range(1, fn.args + 1):
            nm = fn.lname(i) or f'arg{i}'
            if args and (i - 1) in args:
                a.append(args[i - 1])
            elif args and nm in args:
                a.append(args[nm])
            else:
                t = fn.lty(i)
                if fn.kind in ('closure', 'coroutine') and i == 1:
                    a.append(T('clo', fn.key, fn.kind, tuple(self.upvar(n, j) for j, n in enumerate(fn.upvars))))
                elif t.startswith('&'):
                    a.append(T('ref', ('S', nm), (), t.startswith('&mut') or "mut " in t.split('<')[0][:12]))
                else:
                    a.append(T('sym', nm))
        outs = self.exec_fn(fn, a, st)
        res = []
        for v, s in outs or []:
            if self.val(s, v).op == 'clo' and self.F.fns.get(self.val(s, v).a[0]) is not None \
                    and self.F.fns[self.val(s, v).a[0]].kind == 'coroutine':
                res += self.poll(s, v, None)
            else:
                res.append((v, s))
        ret = self.F.fns[fn.key].lty(0)
        final = []
        for v, s in res:
            for v2, s2 in self.split_ret(s, v, ret):
                self.emit(s2, Ev('ret', '', (self.deep(s2, v2),), (), fn.span, fn))
                final.append((v2, s2))
        self.root, self.outs, self.fn = root, final, fn
        return self

    def upvar(self, n, j):
        n = n if isinstance(n, str) else (n[0] if n else f'up{j}')
        return T('ref', ('S', n), (), True)

    def split_ret(self, s, v, ty):
        w = self.val(s, v)
        if w.op == 'phi':
            out = []
            for x in sorted(w.a[0], key=lambda x: x.id):
                out += self.split_ret(s.copy(), x, ty)
            return out
        if ty == 'bool' and not is_const(w):
            return [(TRUE if p else FALSE, x) for p, x in self.split_bool(s, w)]
        if w.op == 'agg' and ty.startswith(RES + '<bool') and w.a[1] == 'Ok' and not is_const(self.val(s, w.a[3][0])):
            return [(Ok(C(p)), x) for p, x in self.split_bool(s, w.a[3][0])]
        if w.op != 'agg':
            if ty.startswith(RES + '<bool'):
                return [y for n, p, x in self.split(s, w, ('Ok', 'Err')) for y in self.split_ret(x, enum1(RES, n, p), ty)]
            if ty.startswith(RES):
                return [(enum1(RES, n, p), x) for n, p, x in self.split(s, w, ('Ok', 'Err'))]
            if ty.startswith(OPT):
                return [(enum1(OPT, n, p) if n == 'Some' else NONE, x) for n, p, x in self.split(s, w, ('Some', 'None'))]
        return [(v, s)]


class Cx:
    __slots__ = ('fn', 'bb', 'span', 'exp', 'ga', 'caller', 'depth', 'dty', 'res', 'rk', 'tr')

    def __init__(self, fn, bb, span, exp, ga, caller, depth, dty):
        self.fn, self.bb, self.span, self.exp, self.ga, self.caller, self.depth, self.dty = \
            fn, bb, span, exp, ga, caller, depth, dty
        self.res = self.rk = self.tr = None


# ---------------------------------------------------------------- normalisation
def mkphi(vals):
    s = set()
    for v in vals:
        if v.op == 'phi':
            s |= v.a[0]
        else:
            s.add(v)
    if len(s) == 1:
        return next(iter(s))
    return T('phi', frozenset(s))


def mknot(v):
    if v is TRUE:
        return FALSE
    if v is FALSE:
        return TRUE
    if v.op == 'un' and v.a[0] == 'Not':
        return v.a[1]
    return T('un', 'Not', v)


def mkeq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return FALSE
    if b.op == 'agg' and b.a[1] is not None and not b.a[3] and a.op != 'agg':
        return T('is', a, b.a[1])
    if a.op == 'agg' and a.a[1] is not None and not a.a[3] and b.op != 'agg':
        return T('is', b, a.a[1])
    if a.op == 'agg' and b.op == 'agg' and a.a[1] is not None and b.a[1] is not None and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a[3]) == len(b.a[3]) == 1:
            return mkeq(a.a[3][0], b.a[3][0])
    if a in (TRUE, FALSE):
        a, b = b, a
    if b is TRUE:
        return a
    if b is FALSE:
        return mknot(a)
    if a.id > b.id:
        a, b = b, a
    return T('eq', a, b)


def mklt(a, b):
    if a is b:
        return FALSE
    if a.op == 'i' and b.op == 'i':
        return C(a.a[0] < b.a[0])
    # a < b + 1  <=>  not (b < a) on integers; a + 1 < b + 1 etc.
    (sa, ca), (sb, cb) = lin(a), lin(b)
    if ca and cb:
        m = min(ca, cb)
        return mklt(unlin(sa, ca - m), unlin(sb, cb - m))
    if cb == 1 and sa is not None and not ca:
        return mknot(mklt(unlin(sb, 0), a))
    return T('lt', a, b)


def lin(t):
    if t.op == 'bin' and t.a[0] == 'Add':
        if t.a[2].op == 'i':
            return t.a[1], t.a[2].a[0]
        if t.a[1].op == 'i':
            return t.a[2], t.a[1].a[0]
    return t, 0


def unlin(t, c):
    return t if c == 0 else mkbin('Add', t, C(c))


def mkbin(op, a, b):
    op0 = op
    if op.endswith('WithOverflow'):
        return tup(mkbin(op[:-len('WithOverflow')], a, b), FALSE)
    if op == 'Eq':
        return mkeq(a, b)
    if op == 'Ne':
        return mknot(mkeq(a, b))
    if op == 'Lt':
        return mklt(a, b)
    if op == 'Gt':
        return mklt(b, a)
    if op == 'Le':
        return mknot(mklt(b, a))
    if op == 'Ge':
        return mknot(mklt(a, b))
    if a.op == 'i' and b.op == 'i':
        x, y = a.a[0], b.a[0]
        try:
            r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y, 'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}.get(op)
            if r is None and op == 'Div' and y:
                r = x // y
            if r is None and op == 'Rem' and y:
                r = x % y
            if r is None and op == 'Shl' and y < 64:
                r = x << y
            if r is not None:
                return C(r)
        except Exception:
            pass
    if op in ('BitAnd', 'BitOr'):
        for x, y in ((a, b), (b, a)):
            if x is TRUE:
                return y if op == 'BitAnd' else TRUE
            if x is FALSE:
                return FALSE if op == 'BitAnd' else y
    if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor'):
        if op == 'Add' and a.op == 'i' and a.a[0] == 0:
            return b
        if op == 'Add' and b.op == 'i' and b.a[0] == 0:
            return a
        if b.op != 'i' and (a.op == 'i' or a.id > b.id):
            a, b = b, a
    if op == 'Sub' and b.op == 'i' and b.a[0] == 0:
        return a
    return T('bin', op, a, b)


BOOLOPS = ('eq', 'lt', 'is')


def canon(lit):
    """A literal as a list of basic literals that it implies; [] when trivially true, False when contradictory."""
    t, pol = lit
    while t.op == 'un' and t.a[0] == 'Not':
        t, pol = t.a[1], not pol
    if t is TRUE:
        return [] if pol else False
    if t is FALSE:
        return False if pol else []
    if t.op == 'bin' and t.a[0] == 'BitAnd' and pol:
        r = []
        for x in (t.a[1], t.a[2]):
            c = canon((x, True))
            if c is False:
                return False
            r += c
        return r + [(t, True)]
    if t.op == 'bin' and t.a[0] == 'BitOr' and not pol:
        r = []
        for x in (t.a[1], t.a[2]):
            c = canon((x, False))
            if c is False:
                return False
            r += c
        return r + [(t, False)]
    if t.op == 'is':
        v = t.a[0]
        if v.op == 'agg' and v.a[1] is not None:
            ok = (v.a[1] == t.a[1]) == pol
            return [] if ok else False
        # Binary enums: a negative literal is the other variant.
        other = {'Some': 'None', 'None': 'Some', 'Ok': 'Err', 'Err': 'Ok'}.get(t.a[1])
        if other and not pol:
            return [(T('is', v, other), True), (t, False)]
        if other:
            return [(t, True), (T('is', v, other), False)]
    return [(t, pol)]


def empty_coll(t):
    return t.op == 'coll0' or (t.op == 'agg' and t.a[0] == 'array' and not t.a[3])


def mkmut(old, name, others):
    n = T('mut', old, name, others)
    return n


def spine(t):
    """(base, operation) of a term that updates its first operand, or None."""
    if t.op == 'mut':
        return t.a[0], T('op', t.a[1], t.a[2])
    if t.op == 'bin':
        if t.a[1].op in ('loop', 'bin', 'phi') or t.a[2].op == 'i' or True:
            return t.a[1], T('op', t.a[0], (t.a[2],))
    if t.op in ('ins', 'rem'):
        return t.a[0], T('op', t.op, t.a[1:])
    return None


def join_val(x, y, ctx, widen, d=0):
    if x is y:
        return x
    if x.op == 'undef' or y.op == 'undef':
        return UNDEF
    if x.op == 'agg' and y.op == 'agg' and x.a[:3] == y.a[:3] and len(x.a[3]) == len(y.a[3]) and d < 6:
        return T('agg', x.a[0], x.a[1], x.a[2],
                 tuple(join_val(p, q, (ctx, i), widen, d + 1) for i, (p, q) in enumerate(zip(x.a[3], y.a[3]))))
    if x.op == 'clo' and y.op == 'clo' and x.a[0] == y.a[0] and len(x.a[2]) == len(y.a[2]):
        return T('clo', x.a[0], x.a[1],
                 tuple(join_val(p, q, (ctx, i), widen, d + 1) for i, (p, q) in enumerate(zip(x.a[2], y.a[2]))))
    if x.op == 'ref' and y.op == 'ref':
        return mkphi([x, y])
    # Collections that grow.
    bx, sx = (x.a[0], x.a[1]) if x.op == 'bag' else (x, frozenset())
    by, sy = (y.a[0], y.a[1]) if y.op == 'bag' else (y, frozenset())
    if (x.op == 'bag' or y.op == 'bag') and bx is by:
        s = sx | sy
        if len(s) > 12:
            return T('wid', 'bag', wctx(ctx))
        return T('bag', bx, s)
    if x.op == 'upd' or y.op == 'upd':
        bx, ex = (x.a[0], dict(x.a[1])) if x.op == 'upd' else (x, {})
        by, ey = (y.a[0], dict(y.a[1])) if y.op == 'upd' else (y, {})
        if bx is by:
            E = _E
            out = {}
            for p in set(ex) | set(ey):
                vx = ex.get(p)
                vy = ey.get(p)
                if vx is None:
                    vx = E.rdpath(x, p)
                if vy is None:
                    vy = E.rdpath(y, p)
                out[p] = join_val(vx, vy, (ctx, pkey(p)), widen, d + 1)
            # Drop entries below others.
            ks = sorted(out, key=len)
            for p in ks:
                for q in ks:
                    if len(q) < len(p) and p[:len(q)] == q and q in out:
                        out.pop(p, None)
            return T('upd', bx, tuple(sorted(out.items(), key=lambda z: pkey(z[0]))))
    # Accumulators: y = op(...op(x)) .
    for a, b in ((x, y), (y, x)):
        base, acc = (a.a[0], a.a[1]) if a.op == 'loop' else (a, frozenset())
        ops, c, n = set(), b, 0
        while c is not a and n < 8:
            s = spine(c)
            if s is None:
                if c.op == 'loop' and c.a[0] is base:
                    ops |= c.a[1]
                    c = a
                break
            ops.add(s[1])
            c = s[0]
            n += 1
        if c is a:
            s = acc | ops
            if len(s) > 10:
                return T('wid', 'loop', wctx(ctx))
            return T('loop', base, frozenset(s))
    if x.op == 'loop' and y.op == 'loop' and x.a[0] is y.a[0]:
        s = x.a[1] | y.a[1]
        return T('loop', x.a[0], s) if len(s) <= 10 else T('wid', 'loop', wctx(ctx))
    if widen:
        return T('wid', 'phi', wctx(ctx))
    p = mkphi([x, y])
    if p.op == 'phi' and (len(p.a[0]) > MAXPHI):
        return T('wid', 'phi', wctx(ctx))
    return p


def wctx(c):
    if isinstance(c, Term):
        return c.id
    if isinstance(c, tuple):
        return tuple(wctx(x) for x in c)
    return c


def pkey(path):
    return tuple((p, -1) if isinstance(p, str) else (p[0], p[1].id if len(p) > 1 and is_t(p[1]) else -2) for p in path)


class _Proj(Engine):
    def __init__(self):
        pass

    def rdpath(self, v, path):
        for p in path:
            v = self.project(v, p)
            if v is None:
                return UNDEF
        return v


_E = _Proj()


def skel(t, d=0):
    """What distinguishes states that must not be joined: variants, booleans, closures, references."""
    k = t._skel.get(d, 0)
    if k != 0:
        return k
    r = None
    if t is TRUE or t is FALSE:
        r = t.a[0]
    elif t.op == 'agg':
        ch = tuple(skel(x, d + 1) for x in t.a[3][:8]) if d < 3 else ()
        if t.a[1] is not None and d <= 3:
            r = (t.a[1], ch if any(c is not None for c in ch) else ())
        elif any(c is not None for c in ch):
            r = ch
    elif t.op == 'clo':
        ch = tuple(skel(x, d + 1) for x in t.a[2][:12]) if d < 3 else ()
        r = ('clo', t.a[0], ch)
    elif t.op == 'fn':
        r = ('fn', t.a[2])
    elif t.op == 'ref':
        r = ('ref', t.a[0], tuple(p if isinstance(p, str) else (p[0],) + tuple(x.id for x in p[1:]) for p in t.a[1]))
    elif t.op == 'iter':
        r = ('iter', t.a[1], tuple((s[0],) + tuple(skel(x, d + 1) for x in s[1:] if is_t(x)) for s in t.a[2]))
    elif t.op == 'upd' and d < 3:
        ch = tuple((pkey(p), skel(v, d + 1)) for p, v in t.a[1])
        if any(c[1] is not None for c in ch):
            r = ch
    elif t.op == 'disc':
        r = ('disc', t.a[0].id)
    t._skel[d] = r
    return r
