"""Routing in the DHT: buckets, next hops, origins; the router between the network and the modules."""
import re
from check import *
from terms import *
from query import *

INT = 'dht_router::intern'
KAD = 'dht_router::kademlia'
WRAP = ('NetworkWrapper::wrap_yaml', 'NetworkWrapper::unwrap_yaml')
KOPQ = ('flmodules::dht_router::kademlia::Kademlia::',) + WRAP
BOPQ = ('get_depth', 'rebalance_wanting', 'rebalance_overflow', 'KBucket::status', 'has_node_id')


def ev(e, *last):
    return e[3] is not None and e[3].kind == 'call' and e[3].name.split('::')[-1] in last


def methods(c, ty, *args, ret=None):
    """Methods of a type by the types of their further arguments."""
    r = []
    for f in c.F.fns.values():
        if f.kind == 'assoc' and not f.derived and '::test' not in f.path and f.args == 1 + len(args) and f.impl and f.impl.split('::')[-1] == ty and \
                all(re.search(a, f.lty(i + 2)) for i, a in enumerate(args)) and (ret is None or re.search(ret, f.lty(0))):
            r.append(f)
    return r


def leaves(t):
    """What a picked value can be: the collections or values it is picked from."""
    r, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            st += list(x.a[0])
        elif x.op == 'fld' and x.a[1] == '0' and x.a[0].op == 'as' and x.a[0].a[1] == 'Some':
            st.append(x.a[0].a[0])
        elif x.op == 'call' and x.a[0].split('::')[-1] in ('first', 'last', 'choose', 'next', 'pop', 'get', 'nth', 'remove', 'swap_remove', 'copied', 'cloned') and len(x.a) > 1:
            st.append(x.a[1])
        elif x.op in ('first', 'last', 'elem', 'at', 'next', 'iter') and is_t(x.a[0]):
            st.append(x.a[0])
        elif x.op == 'agg' and x.a[0] == 'array':
            st += list(x.a[3])
        elif x.op == 'bag':
            st += [i for i, _ in x.a[1]] + ([] if x.a[0].op == 'coll0' else [x.a[0]])
        else:
            r.add(x)
    return r


def finals(A):
    """The states of `self` after the function: (value, what is known)."""
    out = []
    for v, s in A.E.outs:
        t = s.mem.get(('S', 'self'))
        for x in (alts(t) if t is not None else ()):
            out.append((x, s.know))
    return out


@rule('R01', 'A disconnected or silent node is no longer routed to')
def R01(c):
    """The handling of a disconnection calls a removal of that very node on every path; the removal clears it from the active
    and the waiting nodes of the bucket it belongs to, the root bucket included; nodes which time out are removed."""
    rem = [f for f in methods(c, 'Kademlia', r'&.*U256$') if re.match(r"&('\S+ )?mut ", f.lty(1)) and 'bool' not in f.lty(0)]
    for f in c.taking('RouterOut', INT):
        A = c.an(f, opaque=KOPQ)
        arg = T('sym', [f.lname(i + 1) for i in range(f.args) if 'RouterOut' in f.lty(i + 1)][0])
        gone = T('fld', T('as', arg, 'Disconnected'), '0')
        src = [e for e in A.litedges if is_var(e, 'Disconnected', lambda t: t is arg)]
        names = {x.name for x in rem}
        c.followed('removed', A, src, lambda e: ev(e, *names) and core(e[3].args[1]) is gone, A.rets(), 'a node which disconnected is removed from the routing')
        used = {e[3].name.split('::')[-1] for e in A.evedges if ev(e, *names) and core(e[3].args[1]) is gone}
        con = [e for e in A.litedges if is_var(e, 'NodeIDsConnected', lambda t: t is arg)]
        lst = lambda v: mentions(v, lambda s: s.op == 'as' and s.a[0] is arg and s.a[1] == 'NodeIDsConnected') and not mentions(v, lambda s: s.op == 'fld' and s.a[1] == 'connected')
        c.followed('connected', A, con, lambda e: e[3] is not None and e[3].kind == 'write' and place(e) == 'connected' and lst(e[3].args[1]), A.rets(), 'the nodes connected directly are replaced by the new list')
        for e in A.evedges:
            if e[3].kind == 'call' and e[3].args and place(e) == 'connected' and ev(e, 'push', 'insert', 'extend', 'append'):
                c.ob('connected-only', is_cleared(A, e), f'the nodes connected directly are not accumulated: {show(e[3].args[0], 3)}')
    c.floor('removals', len(used), 1, 'methods removing a node')
    for f in rem:
        if f.name not in used:
            continue
        A = c.an(f, opaque=BOPQ)
        idp = T('sym', f.lname(2))
        depth = lambda t: mentions(t, lambda s: is_call(s, 'get_depth') and any(core(x) is idp for x in s.a[1:]) and any(path_of(core(x))[-1:] == ('root',) for x in s.a[1:]))
        inb = lambda e: is_var(e, 'Some', lambda t: t.op == 'get' and recv(t.a[0]) == 'buckets' and depth(t.a[1]))
        notb = lambda e: is_var(e, 'None', lambda t: t.op == 'get' and recv(t.a[0]) == 'buckets' and depth(t.a[1]))
        for lst in ('active', 'cache'):
            clears = lambda e, l=lst: ev(e, 'retain', 'remove', 'swap_remove', 'retain_mut') and place(e) == l or \
                e[3] is not None and e[3].kind == 'write' and place(e) == l
            root = lambda e, l=lst: clears(e) and has_field(e[3].args[0], 'root_bucket')
            bkt = lambda e, l=lst: clears(e) and has_field(e[3].args[0], 'buckets')
            none = lambda e, l=lst: lit(e, lambda t: t.op in ('exists', 'contains') and has_field(t, l), False) or is_var(e, 'None', lambda t: has_field(t, l) and t.op not in ('get',))
            c.guarded(f'root:{lst}', A, A.rets(), lambda e: root(e) or inb(e) or none(e) and has_field(e[2][0], 'root_bucket'), f'a node of the root bucket is removed from its {lst} nodes')
            c.guarded(f'bucket:{lst}', A, A.rets(), lambda e: bkt(e) or notb(e) or lit(e, lambda t: t.op == 'more' and has_field(t, 'buckets'), False) or none(e) and has_field(e[2][0], 'buckets'),
                      f'a node of another bucket is removed from its {lst} nodes')
        # What is kept are the other nodes.
        k = 0
        for x, know in finals(A):
            for s in subterms(x):
                if s.op == 'bag':
                    for i, cs in s.a[1]:
                        if i.op == 'elem' and recv(i.a[0]) in ('active', 'cache'):
                            k += 1
                            c.ob('others-kept', bool(cs) and all(l[0].op == 'eq' and l[1] is False and mentions(l[0], lambda q: q is idp) and mentions(l[0], lambda q: q.op == 'fld' and q.a[1] == 'id') for l in cs),
                                 f'all nodes but the one removed are kept: {show(i, 4)} if {[lit_show(l)[:80] for l in cs]}')
        c.floor('others-kept', k, 1, 'lists filtered by the removal')
    # Time out.
    kt = [f for f in c.F.fns.values() if f.kind == 'assoc' and f.impl and f.impl.endswith('::KNode') and not f.derived and any('TickIDs' in f.lty(i + 1) for i in range(f.args))]
    c.floor('node-tick', len(kt), 1, 'the clock of a node')
    for f in kt:
        A = c.an(f)
        dels = [e for e in A.evedges if ev(e, 'push') and place(e) == 'deleted']
        late = lambda t: t.op == 'lt' and mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'ping_timeout') and mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'ticks_last')
        c.guarded('timeout', A, A.rets(), lambda e: e in dels or lit(e, late) and path_of_side(e[2][0], 0) == 'ticks_last' or lit(e, late, False) and path_of_side(e[2][0], 0) == 'ping_timeout',
                  'a node silent for the timeout is listed for removal')
        c.guarded('counted', A, A.rets(), lambda e: e[3] is not None and e[3].kind == 'write' and place(e) == 'ticks_last' and e[3].args[1].op == 'bin' and e[3].args[1].a[0].startswith('Add'), 'every tick counts')
        for e in dels:
            c.ob('timeout-id', path_of(core(e[3].args[1]))[-1:] == ('id',), f'the node listed is the silent one: {show(e[3].args[1], 3)}')
    # Every bucket and every active node has its time counted.
    k = 0
    for ty, inner, lists in (('Kademlia', 'KBucket', ('buckets',)), ('KBucket', 'KNode', ('active',))):
        for f in [f for f in methods(c, ty) if 'TickIDs' in f.lty(0)]:
            sub = tuple(g.npath for g in c.F.fns.values() if g.kind == 'assoc' and g.impl and g.impl.endswith('::' + inner) and not g.derived and any('TickIDs' in g.lty(i) for i in range(g.args + 1)))
            A = c.an(f, opaque=sub)
            call = lambda e: e[3] is not None and e[3].kind == 'call' and e[3].name in sub
            for l in lists:
                over = lambda t: t.op == 'more' and any(recv(x) == l for x in alts(t.a[0]))
                on = [e for e in A.litedges if lit(e, over) and A.path_without(e, lambda x: ev(x, 'retain', 'retain_mut', 'sort_by', 'position', 'find', 'any'))]
                if not on:
                    continue
                k += 1
                c.followed(f'ticks:{l}', A, on, call, A.rets() + [e for e in A.litedges if e[2][0].op == 'more'], f'time passes for all of {l}')
                c.ob(f'ticks-all:{l}', not any(over(x[0]) and mentions(x[0], lambda s: s.op == 'part') for x in A.lits()), f'time passes for all of {l}, none is left out')
                if ty == 'Kademlia':
                    c.guarded('ticks:root', A, A.rets(), lambda e: call(e) and has_field(e[3].args[0], 'root_bucket'), 'time passes for the root bucket')
                    c.guarded('ticks-loop', A, A.rets(), lambda e: lit(e, over, False), 'time passes for all of the buckets')
    c.floor('ticks', k, 2, 'loops over buckets and nodes')
    for f in [f for f in methods(c, 'KBucket') if 'TickIDs' in f.lty(0)]:
        A = c.an(f)
        of = lambda e, l: ev(e, 'retain', 'remove', 'swap_remove') and (place(e) == l or has_field(e[3].args[0], l) and not has_field(e[3].args[0], 'cache' if l == 'active' else 'active'))
        if not any(of(e, 'active') for e in A.evedges) and c.F.callers().get(f.key):
            continue
        for l in ('active', 'cache'):
            c.guarded(f'tick-removes:{l}', A, A.rets(), lambda e: of(e, l) or lit(e, lambda t: t.op == 'more' and not over_nodes(t), False), f'nodes timed out are removed from the {l} nodes')
    c.floor('tick-removes', len([1 for k, *_ in c.obs if k.startswith('tick-removes')]), 2, 'the clock of a bucket')


def over_nodes(t):
    """A loop over the nodes of the bucket themselves."""
    return any(recv(x) in ('active', 'cache') for x in alts(t.a[0]))


def is_cleared(A, e):
    return A.path_without(e, lambda x: ev(x, 'clear', 'drain', 'retain') and place(x) == 'connected') is None


def path_of_side(t, i):
    return path_of(strip_cast(t.a[i]))[-1] if strip_cast(t.a[i]).op == 'fld' else next((s.a[1] for s in subterms(t.a[i]) if s.op == 'fld' and s.a[1] in ('ticks_last', 'ping_timeout')), None)


@rule('R02', 'Buckets hold other nodes only, once, by their distance')
def R02(c):
    """Every construction of an entry: not the node itself, not there yet (in no bucket); placed in the bucket of its distance,
    or in the root bucket if there is none; the bounds of buckets on every addition."""
    fns = [f for f in c.F.touching('root_bucket', KAD) if 'KNode' in repr([x['t'] for x in f.blocks]) or f.args > 1]
    news = lambda e: e[3].kind == 'new' and e[3].name.split('::')[-1] == 'KNode'
    me = lambda e: lit(e, lambda t: t.op == 'eq' and any(path_of(core(x))[-2:] == ('config', 'root') for x in t.a[:2]), False)
    dup = lambda e: lit(e, lambda t: is_call(t, 'Kademlia::has_node_id'), False)
    kfns = [f for f in c.F.touching('root_bucket', KAD)]
    c.everywhere('not-self', kfns, news, me, 'a node never becomes an entry of its own buckets', opaque=BOPQ)
    c.everywhere('not-twice', kfns, news, dup, 'a node becomes an entry only if it is in no bucket', opaque=BOPQ)
    k = 0
    for f in kfns:
        A = c.an(f, opaque=BOPQ)
        for e in A.evedges:
            if news(e):
                k += 1
                v = e[3].args[0]
                d, i = fld(v, 'depth'), fld(v, 'id')
                c.ob('depth', is_call(d, 'get_depth') and any(core(x) is core(i) for x in d.a[1:]) and any(path_of(core(x))[-2:] == ('config', 'root') for x in d.a[1:]), f'the depth of an entry is its distance to the node: {show(d, 5)}')
            if ev(e, 'push', 'insert') and place(e) in ('active', 'cache') and any(is_t(x) and mentions(x, lambda s: s.op == 'agg' and s.a[0].endswith('KNode')) for x in e[3].args[1:]):
                k += 1
                p = e[3].args[0]
                ats = [s for s in subterms(p) if s.op == 'at' and recv(s.a[0]) == 'buckets']
                x = [s for s in subterms(e[3].args[1]) if s.op == 'agg' and s.a[0].endswith('KNode')][0]
                if ats:
                    c.ob('own-bucket', all(core(s.a[1]) is core(fld(x, 'depth')) for s in ats), f'an entry is placed in the bucket of its depth: {show(ats[0].a[1], 4)}')
                else:
                    q = A.path_without(e, lambda y: is_var(y, 'None', lambda t: t.op == 'get' and recv(t.a[0]) == 'buckets' and core(t.a[1]) is core(fld(x, 'depth'))))
                    c.ob('root-bucket', has_field(p, 'root_bucket') and q is None, f'an entry is placed in the root bucket only if there is none of its depth: {show(p, 3)}', q)
    c.floor('entries', k, 3, 'entries made and placed')
    # has_node_id says no only if the id is nowhere.
    hs = [f for f in methods(c, 'Kademlia', r'U256$', ret='^bool$') if f.name == 'has_node_id']
    c.floor('has', len(hs), 1, 'the test for known nodes')
    for f in hs:
        A = c.an(f)
        idp = T('sym', f.lname(2))
        no = [e for e in A.rets() if ret_val(e) is not TRUE]
        for b, l in (('root_bucket', 'active'), ('root_bucket', 'cache'), ('buckets', 'active'), ('buckets', 'cache')):
            def saw(e, b=b, l=l):
                t = e[2][0] if e[2] is not None else None
                if t is None:
                    return False
                return e[2][1] is False and (t.op == 'more' and has_field(t, b) or t.op in ('exists', 'eq', 'contains') and has_field(t, b) and has_field(t, l))
            vals = [e for e in no if not mentions(ret_val(e), lambda s: s.op == 'exists' and has_field(s, b) and has_field(s, l))]
            c.guarded(f'has:{b}.{l}', A, vals, saw, f'an id is only reported as unknown if it is not among the {l} nodes of {b}', least=0)
    moves(c)
    # Bounds.
    bfn = [f for f in c.F.touching('active', KAD) + c.F.touching('cache', KAD)]
    bfn = [f for f in dict.fromkeys(bfn) if f.impl and f.impl.endswith('KBucket')]

    def bounded(l):
        return lambda e: lit(e, lambda t: t.op == 'fld' and t.a[1] == 'is_root') or \
            lit(e, lambda t: t.op == 'lt' and is_call(t.a[0], 'len') and recv(t.a[0].a[1]) == l and mentions(t.a[1], lambda s: s.op == 'fld' and s.a[1] == 'k')) or \
            l == 'cache' and ev(e, 'remove', 'swap_remove') and place(e) == 'cache'
    for l in ('active', 'cache'):
        c.everywhere(f'bound:{l}', bfn, lambda e: ev(e, 'push', 'insert', 'extend', 'append') and place(e) == l and root_self(e[3].args[0]), bounded(l),
                     f'the {l} nodes of a bucket other than the root bucket are bounded by k', opaque=BOPQ)


KB = 'flmodules::dht_router::kademlia::KBucket::'


def moves(c):
    """Nodes moved from a bucket to another are not lost: both lists of a bucket taken away, and both lists taken out of a bucket,
    are handed to another bucket, which keeps each of them unless it is full."""
    bk = lambda e: e[3] is not None and e[3].kind == 'call' and str(e[3].name).startswith(KB)
    n = m = 0
    for f in c.F.touching('buckets', KAD):
        if f.derived:
            continue
        A = c.an(f, opaque=(KB,))
        ends = A.rets() + [e for e in A.edges if ev(e, 'pop', 'remove', 'swap_remove', 'truncate', 'clear', 'drain', 'split_off') and place(e) == 'buckets']
        taken = lambda t: t.op == 'call' and t.a[0].split('::')[-1] in ('pop', 'remove', 'swap_remove') and recv(t.a[1]) == 'buckets'
        for e in A.evedges:
            if ev(e, 'truncate', 'clear', 'drain', 'split_off', 'retain') and place(e) == 'buckets':
                c.ob('merged', False, f'buckets are dropped with their nodes: {e[3]!r:.90}')
        src = [e for e in A.litedges if is_var(e, 'Some', lambda t: mentions(t, taken))]
        src += [e for e in A.evedges if ev(e, 'remove', 'swap_remove') and place(e) == 'buckets']
        for l in ('active', 'cache') if src else ():
            n += 1
            got = lambda t: recv(t) == l and mentions(t, taken)
            to = lambda e: bk(e) and any(is_t(x) and got(x) for x in e[3].args[1:]) or lit(e, lambda t: t.op == 'more' and got(t.a[0]), False) or \
                ev(e, 'extend', 'append') and any(is_t(x) and got(x) for x in e[3].args[1:])
            c.followed(f'merged:{l}', A, src, to, [x for x in ends], f'the {l} nodes of a bucket taken away are added to another bucket')
        for e in A.evedges:
            if bk(e) and (fn := c.F.fns.get(e[3].name) or next((x for x in c.F.find(e[3].name.split('::')[-1]) if x.npath == e[3].name), None)) and re.search(r'^\(.*Vec<.*KNode>, .*Vec<.*KNode>\)', fn.lty(0)):
                m += 1
                for i in ('0', '1'):
                    got = lambda t, i=i: t.op == 'fld' and t.a[1] == i and is_call(t.a[0], e[3].name.split('::')[-1])
                    to = lambda x: x is not e and bk(x) and any(is_t(y) and (got(y) or y.op == 'wid') for y in x[3].args[1:]) or lit(x, lambda t: t.op == 'more' and got(t.a[0]), False)
                    c.followed(f'split:{i}', A, [e], to, ends, 'the nodes taken out of a bucket are added to another one')
                c.followed('split:kept', A, [e], lambda x: ev(x, 'push', 'insert') and place(x) == 'buckets', ends, 'the bucket they are added to is kept')
    c.floor('merges', n, 2, 'lists of buckets taken away')
    c.floor('splits', m, 0, 'lists taken out of a bucket')
    k = 0
    for f in methods(c, 'KBucket', r'Vec<.*KNode>'):
        A = c.an(f)
        p = [T('sym', f.lname(i + 1)) for i in range(f.args) if 'Vec<' in f.lty(i + 1)]
        mo = [e for e in A.litedges if lit(e, lambda t: t.op == 'more' and any(mentions(t, lambda s: s is x) for x in p))]
        k += bool(mo)
        for e in mo:
            c.ob('kept-all', not mentions(e[2][0], lambda t: t.op == 'part'), f'all nodes handed in are added: {show(e[2][0], 4)}')
        kept = lambda e: ev(e, 'push', 'insert') and place(e) in ('active', 'cache') or lit(e, lambda t: t.op in ('contains', 'exists')) or \
            lit(e, lambda t: t.op == 'lt' and is_call(t.a[0], 'len'), False)
        c.followed('kept', A, mo, kept, A.rets() + [e for e in A.litedges if e[2][0].op == 'more'], 'every node added to a bucket is kept, unless it is there or the bucket is full', least=0)
        for e in A.evedges:
            if ev(e, 'push', 'insert') and place(e) in ('active', 'cache'):
                c.ob('kept-each', not mentions(e[3].args[1], lambda s: s.op == 'part'), f'the nodes added are those handed in: {show(e[3].args[1], 3)}')
    c.floor('adders', k, 1, 'methods adding nodes to a bucket')
    for f in methods(c, 'KBucket', r'.', ret=r'^\(.*Vec<.*KNode>, .*Vec<.*KNode>\)'):
        A = c.an(f)
        rm = [e for e in A.evedges if ev(e, 'remove', 'swap_remove') and place(e) in ('active', 'cache')]
        c.followed('out', A, rm, lambda e: ev(e, 'push'), A.rets() + rm, 'a node taken out of a bucket is handed out', least=0)


def root_self(t):
    return mentions(t, lambda s: s.op == 'sym') or t.op == 'wid'


@rule('R03', 'Routed messages keep origin, key and content, and get closer')
def R03(c):
    """Provenance of every field of every message forwarded, answered or delivered; guards of delivery; the next hop comes
    from the routing towards the key, with the last hop handed in; the routing only looks at active nodes."""
    routes = {f.name for f in methods(c, 'Kademlia', r'U256$', r'Option<') + methods(c, 'Kademlia', r'U256$') if re.search(r'Vec<', f.lty(0))}
    c.floor('routes', len(routes), 1, 'methods choosing the next hop')
    isroute = lambda t: t.op == 'call' and 'Kademlia::' in t.a[0] and t.a[0].split('::')[-1] in routes
    root = lambda t: path_of(core(t))[-2:] == ('config', 'root') and path_of(core(t))[0] == 'self'
    n = {}

    def seen(k):
        n[k] = n.get(k, 0) + 1
    POS = {'Closest': (0, 1, 2), 'Direct': (0, 1, 2)}
    for f in c.taking('RouterOut', INT):
        A = c.an(f, opaque=KOPQ)
        arg = T('sym', [f.lname(i + 1) for i in range(f.args) if 'RouterOut' in f.lty(i + 1)][0])
        frm = T('fld', T('as', arg, 'NetworkWrapperFromNetwork'), '0')
        body = T('fld', T('as', arg, 'NetworkWrapperFromNetwork'), '1')

        def inc(t, i, *vs):
            """t is field i of the message received."""
            return all(x.op == 'fld' and x.a[1] == str(i) and x.a[0].op == 'as' and x.a[0].a[1] in vs and un_ok(x.a[0].a[0]) is not None and is_call(un_ok(x.a[0].a[0]), 'unwrap_yaml') and un_ok(x.a[0].a[0]).a[1] is body
                       for x in map(strip, alts(t)))

        def key_of(e):
            return None
        for e in A.evedges:
            if e[3].kind != 'new':
                continue
            for m, cs in occ(e[3].args[0], lambda t: variant(t, 'NetworkWrapperToNetwork', 'MessageDest', 'MessageClosest', 'MessageRouting', 'MessageNeighbour') and ('RouterIn' in t.a[0] or 'RouterOut' in t.a[0])):
                v = m.a[3]
                seen(m.a[1])
                if m.a[1] == 'NetworkWrapperToNetwork':
                    ws = [q for q in subterms(v[1]) if q.op == 'agg' and 'ModuleMessage' in q.a[0]]
                    ds = leaves(v[0])
                    oks = set()
                    for q in ws:
                        seen(q.a[1])
                        if q.a[1] in POS:
                            c.ob(f'forward:{q.a[1]}', all(inc(q.a[3][i], i, q.a[1]) for i in range(3)), f'a forwarded message keeps its origin, destination and content: {show(q, 5)}')
                            for d in ds:
                                if isroute(d) and inc(d.a[2], 1, q.a[1]) and len(d.a) > 3 and variant(d.a[3], 'Some') and core(d.a[3].a[3][0]) is frm or inc(d, 1, q.a[1]):
                                    oks.add(d)
                        elif q.a[1] in ('Pong', 'ConnectedIDsReply'):
                            oks |= {d for d in ds if core(d) is frm}
                            if q.a[1] == 'ConnectedIDsReply':
                                c.ob('reply-active', has_call(q.a[3][0], 'Kademlia::active_nodes') or has_field(q.a[3][0], 'active'), 'only active nodes are handed to others')
                    c.ob('next-hop', bool(ws) and ds == oks, f'a message is sent to the next hop towards its destination, answers to the sender: {[show(d, 5) for d in ds - oks]} for {[q.a[1] for q in ws]}')
                elif m.a[1] == 'MessageNeighbour':
                    c.ob('neighbour', core(v[0]) is frm and inc(v[1], 0, 'Neighbour'), f'a message of a neighbour is delivered as coming from that neighbour: {show(m, 5)}')
                else:
                    vs = ('Closest', 'Direct') if m.a[1] == 'MessageDest' else ('Closest',)
                    c.ob(f'deliver:{m.a[1]}', inc(v[0], 0, *vs) and core(v[1]) is frm and inc(v[-1], 2, *vs), f'a delivered message has the origin, sender and content received: {show(m, 5)}')
                    if m.a[1] in ('MessageClosest', 'MessageRouting'):
                        c.ob(f'deliver-key:{m.a[1]}', inc(v[-2], 1, *vs), f'a delivered message has the key received: {show(m, 5)}')
                    atme = lambda t: t.op == 'eq' and any(root(x) for x in t.a[:2]) and any(inc(x, 1, 'Closest', 'Direct') for x in t.a[:2])
                    if m.a[1] == 'MessageDest':
                        c.guarded('dest-here', A, [e], lambda x: lit(x, atme), 'a message is delivered as final only at its destination')
                    if m.a[1] == 'MessageClosest':
                        nohop = lambda x: is_var(x, 'None', lambda t: has_route(t, isroute)) or lit(x, lambda t: t.op == 'eq' and has_route(t, isroute) and has_call(t, 'len')) or is_var(x, 'Some', lambda t: has_route(t, isroute), False)
                        c.guarded('closest-here', A, [e], nohop, 'a message is delivered as closest only if there is no closer node')
                    if m.a[1] == 'MessageRouting':
                        c.ob('routing-hop', any(isroute(d) or inc(d, 1, 'Closest') for d in leaves(v[2])), f'the next hop reported is the one routed to: {show(v[2], 4)}')
        # With a next hop the message is forwarded.
        hop = lambda e: is_var(e, 'Some', lambda t: has_route(t, isroute) and mentions(t, lambda s: s.op == 'as' and s.a[1] == 'Closest'))
        c.followed('forwarded', A, [e for e in A.litedges if hop(e)], lambda e: e[3] is not None and e[3].kind == 'new' and mentions(e[3].args[0], lambda t: variant(t, 'Closest')), A.rets(), 'a message with a next hop is forwarded')
        # Directly to the destination only if it is connected.
        for e in A.evedges:
            if e[3].kind == 'new' and variant(e[3].args[0], 'NetworkWrapperToNetwork') and any(q.op == 'agg' and q.a[1] in POS and 'ModuleMessage' in q.a[0] for q in subterms(e[3].args[0])):
                c.guarded('connected-or-routed', A, [e], lambda x: x[3] is not None and x[3].kind == 'call' and 'Kademlia::' in x[3].name and x[3].name.split('::')[-1] in routes or
                          lit(x, lambda t: t.op == 'contains' and recv(t.a[0]) == 'connected' and inc(t.a[1], 1, 'Closest', 'Direct')), 'a message goes directly to its destination only if that is connected')
        # New active nodes are announced.
        c.followed('announced', A, [e for e in A.litedges if lit(e, lambda t: t.op == 'call' and 'Kademlia::' in t.a[0] and len(t.a) > 2 and core(t.a[2]) is frm)],
                   lambda e: e[3] is not None and e[3].kind == 'new' and mentions(e[3].args[0], lambda t: variant(t, 'NodeList') and has_call(t, 'Kademlia::active_nodes')), A.rets(), 'a node which becomes active is announced in the list of nodes')
    for f in c.taking('DHTRouterIn', INT):
        A = c.an(f, opaque=KOPQ)
        arg = T('sym', [f.lname(i + 1) for i in range(f.args) if 'DHTRouterIn' in f.lty(i + 1)][0])
        of = lambda t, i, v: all(x.op == 'fld' and x.a[1] == str(i) and x.a[0] is T('as', arg, v) for x in map(strip, alts(t)))
        for e in A.evedges:
            if e[3].kind != 'new':
                continue
            for m, cs in occ(e[3].args[0], lambda t: variant(t, 'NetworkWrapperToNetwork') and 'RouterIn' in t.a[0]):
                ws = [q for q in subterms(m.a[3][1]) if q.op == 'agg' and 'ModuleMessage' in q.a[0]]
                ds, oks = leaves(m.a[3][0]), set()
                for q in ws:
                    seen('new:' + q.a[1])
                    if q.a[1] in POS:
                        src = 'MessageClosest' if q.a[1] == 'Closest' else 'MessageDirect'
                        c.ob(f'new:{q.a[1]}', root(q.a[3][0]) and of(q.a[3][1], 0, src) and of(q.a[3][2], 1, src), f'a new message has this node as origin, and the destination and content asked for: {show(q, 5)}')
                        oks |= {d for d in ds if isroute(d) and of(d.a[2], 0, src) or of(d, 0, src)}
                    elif q.a[1] == 'Neighbour':
                        b = of(q.a[3][0], 0, 'MessageBroadcast')
                        c.ob('new:Neighbour', b or of(q.a[3][0], 1, 'MessageNeighbour'), f'a neighbour gets the content asked for: {show(q, 5)}')
                        oks |= {d for d in ds if of(d, 0, 'MessageNeighbour') or b and is_call(d, 'Kademlia::active_nodes')}
                c.ob('new-hop', bool(ws) and ds == oks, f'a new message is sent to the next hop towards its destination: {[show(d, 5) for d in ds - oks]} for {[q.a[1] for q in ws]}')
    for k, l in (('Closest', 1), ('Direct', 1), ('MessageDest', 2), ('MessageClosest', 1), ('MessageRouting', 1), ('MessageNeighbour', 1), ('new:Closest', 1), ('new:Direct', 1), ('new:Neighbour', 2), ('Pong', 1)):
        c.floor(k, n.get(k, 0), l, f'{k} in the routing')
    # The routing itself.
    for f in [x for x in methods(c, 'Kademlia', r'U256$', r'Option<') + methods(c, 'Kademlia', r'U256$') + methods(c, 'Kademlia', 'usize') if re.search(r'Vec<', x.lty(0))]:
        A = c.an(f, opaque=('get_depth',))
        for e in A.rets():
            for s in subterms(ret_val(e)):
                if s.op == 'elem' and recv(s.a[0]) in ('active', 'cache', 'buckets'):
                    c.ob('active-only', recv(s.a[0]) != 'cache', f'only active nodes are next hops: {show(s, 4)}')
        c.ob('active-src', any(mentions(ret_val(e), lambda s: s.op == 'fld' and s.a[1] == 'active') for e in A.rets()), f'next hops are active nodes [{f.name}]')
    for f in methods(c, 'Kademlia', r'U256$', r'Option<'):
        A = c.an(f, opaque=('get_depth', 'get_nodes_depth'))
        dst, last = T('sym', f.lname(2)), T('sym', f.lname(3))
        dep = lambda x, y: is_call(x, 'get_depth') and any(mentions(q, lambda s: s is y) for q in x.a[1:])
        some = [e for e in A.litedges if is_var(e, 'Some', lambda t: t is last)]
        c.floor('last', len(some), 1, 'routing looks at the last hop')
        k = 0
        for e in A.evedges:
            if ev(e, 'get_nodes_depth'):
                for d in depths(e[3].args[1]):
                    k += 1
                    if dep(d, dst):
                        continue
                    strict = d.op == 'bin' and d.a[0].startswith('Add') and is_const(d.a[2]) and show(d.a[2]) != '0' and mentions(d.a[1], lambda s: dep(s, dst)) and mentions(d.a[1], lambda s: dep(s, last)) or \
                        any(b.op == 'bin' and b.a[0].startswith('Add') and mentions(b, lambda s: dep(s, last)) for b in subterms(d))
                    c.ob('closer', strict, f'other than in the bucket of the destination, a next hop is strictly closer than this node and the last hop: {show(d, 6)}')
        c.floor('closer', k, 2, 'depths looked at')


def strip(x):
    while x.op == 'call' and x.a[0].split('::')[-1] in WRAP1 and len(x.a) == 2:
        x = x.a[1]
    return x


def has_route(t, isroute):
    return mentions(t, isroute)


def depths(t):
    """The lower ends of what a depth runs over."""
    r = set()
    for x in leaves(t):
        if x.op == 'agg' and x.a[0].endswith('Range') or x.op == 'agg' and 'start' in x.a[2]:
            r.add(strip_cast(fld(x, 'start')))
        else:
            r.add(strip_cast(x))
    return r


@rule('N02', 'The router tells the modules exactly who is connected')
def N02(c):
    """Guards of every notification and every change of the list of connected nodes; a message of an unknown node makes it
    connected first; contents of the lists sent; order of the notifications."""
    fs = c.taking('NetworkOut', 'flmodules::router::broker')
    c.floor('handler', len(fs), 1, 'the handler of messages of the network')
    fs = [f for f in fs if f.args == 2 and 'U256' not in f.lty(0)]
    for f in fs:
        A = c.an(f, opaque=('NodeInfo::get_id',))
        if not [e for e in A.evedges if e[3].kind == 'new']:
            continue
        arg = T('sym', [f.lname(i + 1) for i in range(f.args) if 'NetworkOut' in f.lty(i + 1)][0])
        of = lambda t, i, *vs: all(x.op == 'fld' and x.a[1] == str(i) and x.a[0].op == 'as' and x.a[0].a[0] is arg and x.a[0].a[1] in vs for x in map(strip, alts(t)))
        known = lambda pol: (lambda e: lit(e, lambda t: t.op in ('contains', 'exists') and recv(t.a[0]) == 'nodes_connected' or t.op == 'exists' and has_field(t, 'nodes_connected'), pol))
        ups = [e for e in A.evedges if ev(e, 'push', 'insert') and place(e) == 'nodes_connected']
        c.guarded('added-once', A, ups, known(False), 'a node is added to the connected ones only if it is not there')
        for e in ups:
            c.ob('added', of(e[3].args[1], 0, 'Connected', 'MessageFromNode'), f'what is added is the node that connected: {show(e[3].args[1], 4)}')
        mk = lambda v: [e for e in A.evedges if e[3].kind == 'new' and variant(e[3].args[0], v) and 'RouterOut' in e[3].args[0].a[0]]
        for v, src in (('Connected', ('Connected', 'MessageFromNode')), ('Disconnected', ('Disconnected',)), ('NetworkWrapperFromNetwork', ('MessageFromNode',))):
            es = mk(v)
            c.floor(v, len(es), 1, f'notifications {v}')
            for e in es:
                c.ob(f'id:{v}', of(e[3].args[0].a[3][0], 0, *src), f'{v} names the node it is about: {show(e[3].args[0], 4)}')
        c.guarded('connected-new', A, mk('Connected'), known(False), 'a connection is only announced for a node that was not connected')
        c.guarded('disconnected-known', A, mk('Disconnected'), known(True), 'a disconnection is only announced for a node that was connected')
        for e in mk('NetworkWrapperFromNetwork'):
            c.ob('content', of(e[3].args[0].a[3][1], 1, 'MessageFromNode'), f'the message delivered is the one received: {show(e[3].args[0], 4)}')
        isarg = lambda v: (lambda e: is_var(e, v, lambda t: t is arg))
        c.guarded('message-known', A, mk('NetworkWrapperFromNetwork'), lambda e: known(True)(e) or e in ups, 'a message is only delivered from a node announced as connected')
        msg = [e for e in A.litedges if isarg('MessageFromNode')(e)]
        c.followed('delivered', A, msg, lambda e: e in mk('NetworkWrapperFromNetwork'), A.rets(), 'every message of a node is delivered')
        con = [e for e in A.litedges if isarg('Connected')(e)]
        c.followed('announced', A, con, lambda e: known(True)(e) or e in mk('Connected'), A.rets(), 'every new connection is announced')
        c.followed('announced-added', A, ups, lambda e: e in mk('Connected'), A.rets(), 'every node which becomes connected is announced')
        dis = [e for e in A.litedges if isarg('Disconnected')(e)]
        c.followed('announced-gone', A, dis, lambda e: known(False)(e) or e in mk('Disconnected'), A.rets(), 'every lost connection is announced')
        gone = lambda e: ev(e, 'retain', 'remove', 'swap_remove') and place(e) == 'nodes_connected'
        c.followed('taken-out', A, dis, lambda e: known(False)(e) or gone(e), A.rets(), 'a node that disconnected is no longer among the connected ones')
        # Lists follow every change.
        lists = mk('NodeIDsConnected')
        c.floor('lists', len(lists), 1, 'lists of the connected nodes')
        chg = ups + [e for e in A.evedges if gone(e)]
        c.followed('list-follows', A, chg, lambda e: e in lists, A.rets(), 'every change is followed by the new list of connected nodes')
        for e in lists:
            v = e[3].args[0].a[3][0]
            c.ob('list', mentions(v, lambda s: s.op == 'fld' and s.a[1] == 'nodes_connected') and not mentions(v, lambda s: s.op == 'fld' and s.a[1] == 'nodes_available'), f'the list sent is the one of the connected nodes: {show(v, 4)}')
        for e in mk('NodeInfosConnected'):
            v = e[3].args[0].a[3][0]
            its = [(i, cs) for s in subterms(v) if s.op == 'bag' for i, cs in s.a[1] if mentions(i, lambda q: q.op == 'fld' and q.a[1] == 'nodes_available' or q.op == 'as' and q.a[1] == 'NodeListFromWS')]
            c.ob('infos', bool(its) and all(has_cond(cs, lambda t: t.op in ('contains', 'exists') and has_field(t, 'nodes_connected') or t.op in ('contains',) and mentions(t, lambda q: q.op in ('wid', 'bag')), True) for i, cs in its),
                 f'only the infos of connected nodes are sent as such: {show(v, 5)}')
        av = [e for e in A.litedges if isarg('NodeListFromWS')(e)]
        c.followed('available', A, av, lambda e: e in mk('NodeInfoAvailable'), A.rets(), 'a new list of nodes is passed on')
        for x, know in finals(A):
            for s in subterms(x):
                if s.op == 'bag':
                    for i, cs in s.a[1]:
                        if i.op == 'elem' and recv(i.a[0]) == 'nodes_connected':
                            c.ob('others-kept', bool(cs) and all(l[0].op == 'eq' and l[1] is False and mentions(l[0], lambda q: q.op == 'as' and q.a[1] == 'Disconnected') for l in cs), f'only the node that disconnected is taken out: {show(s, 5)}')
    for f in c.taking('RouterIn', 'flmodules::router::broker'):
        A = c.an(f)
        for e in A.evedges:
            for m, cs in occ(e[3].args[0], lambda t: variant(t, 'MessageToNode')) if e[3].kind == 'new' else ():
                arg = [f.lname(i + 1) for i in range(f.args) if 'RouterIn' in f.lty(i + 1)][0]
                c.ob('to-node', [path_of(core(x))[0] for x in m.a[3]] == [arg, arg] and m.a[3][0].op == 'fld' and m.a[3][0].a[1] == '0' and m.a[3][1].a[1] == '1', f'a message goes to the node asked for, unchanged: {show(m, 4)}')
