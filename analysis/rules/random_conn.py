"""The random connections: which nodes this node is connected to."""
import re
from check import *
from terms import *
from query import *
from query import An

MOD = 'flmodules::random_connections'
CORE, NODES, INT = MOD + '::core', MOD + '::nodes', MOD + '::intern'


def last(n):
    return n.split('::')[-1]


def ev(e, *names):
    return e[3] is not None and e[3].kind == 'call' and last(e[3].name) in names


def made(e, *names):
    return e[3] is not None and e[3].kind == 'new' and variant(e[3].args[0], *names)


def arg(f, ty):
    r = [f.lname(i + 1) for i in range(f.args) if re.search(r'(^|[:&<( ])' + ty + r'$', strip_generics(f.lty(i + 1)))]
    return T('sym', r[0]) if r else None


def lists(c):
    """The methods of a list of nodes which add and remove given nodes, with what they do checked."""
    add, rem = {}, {}
    for f in c.F.fns.values():
        if f.kind != 'assoc' or f.derived or not f.path.startswith(NODES) or f.args != 2 or 'mut ' not in f.lty(1) or not re.search(r'(NodeIDs|Vec<.*(U256|NodeID)>)$', f.lty(2)):
            continue
        A = c.an(f)
        q = T('sym', f.lname(2))
        isarg = lambda t: path_root(t) is q
        for v in A.finals(f.lname(1)):
            for x, _ in occ(v, lambda t: t.op == 'bag'):
                kept = [(i, cs) for i, cs in x.a[1] if own_elem(i)]
                new = [(i, cs) for i, cs in x.a[1] if variant(i, 'NodeTime')]
                if new:
                    add[f.name] = add.get(f.name, True) and all(
                        isarg(core(fld(i, 'id'))) and show(fld(i, 'ticks')) == '0' and cs and all(not l[1] and l[0].op == 'contains' and of_self(l[0].a[0]) and core(l[0].a[1]) is core(fld(i, 'id')) for l in cs)
                        for i, cs in new) and x.a[0].op == 'fld'
                elif kept and any(l[0].op == 'contains' and isarg(core(l[0].a[0])) for i, cs in kept for l in cs):
                    rem[f.name] = rem.get(f.name, True) and all(
                        cs and all(not l[1] and l[0].op == 'contains' and isarg(l[0].a[0]) and core(l[0].a[1]) is core(T('fld', i, 'id')) for l in cs) for i, cs in kept) and empty_base(x.a[0])
    return add, rem


def path_root(t):
    t = core(t)
    while t.op in ('fld', 'elem', 'as', 'mut', 'old') and is_t(t.a[0]):
        t = core(t.a[0])
    return t


def own_elem(i):
    return i.op == 'elem' and path_root(i).op == 'sym' and path_root(i).a[0] == 'self'


def of_self(t):
    return mentions(t, lambda s: s.op == 'sym' and s.a[0] == 'self')


def empty_base(t):
    return t.op == 'coll0' or t.op == 'agg' and not t.a[3]


def holds_only(t, x):
    """The list t has x as its only element."""
    t = core(t)
    while t.op == 'agg' and t.a[0].endswith('NodeIDs') and len(t.a[3]) == 1:
        t = core(t.a[3][0])
    return t.op == 'agg' and t.a[0] == 'array' and len(t.a[3]) == 1 and core(t.a[3][0]) is core(x)


OPQ = (NODES + '::Nodes::', 'NodeIDs::remove_existing', 'NodeIDs::remove_missing', 'NodeIDs::merge', 'NodeInfo::get_id', 'NetworkWrapper::wrap_yaml', 'NetworkWrapper::unwrap_yaml')


@rule('K01', 'A node is listed as connected or connecting, never as both')
def K01(c):
    """The methods adding to and removing from the lists; every event about a connection is followed by the changes it demands."""
    add, rem = lists(c)
    c.ob('adding', add and all(add.values()), f'adding nodes adds those given, once: {add}')
    c.ob('removing', rem and all(rem.values()), f'removing nodes removes exactly those given: {rem}')
    A_, R_ = tuple(k for k, v in add.items() if v), tuple(k for k, v in rem.items() if v)
    put = lambda l, x: (lambda e: ev(e, *A_) and place(e) == l and (x is None or holds_only(e[3].args[1], x)))
    out = lambda l, x: (lambda e: ev(e, *R_) and place(e) == l and (x is None or holds_only(e[3].args[1], x)))
    n = 0
    for ty in ('NetworkOut', 'RandomIn', 'ModuleMessage'):
        for f in c.taking(ty, INT):
            if f.args < 2 or 'mut ' not in f.lty(1):
                continue
            A = c.an(f, opaque=OPQ)
            m = arg(f, ty)
            is_ = lambda v: [e for e in A.edges if is_var(e, v, lambda t: t is m)]
            at = lambda v, i=0: T('fld', T('as', m, v), str(i))
            # Connections.
            if ty == 'NetworkOut':
                up, down = [('Connected', at('Connected'))], [('Disconnected', at('Disconnected'))]
            elif ty == 'RandomIn':
                up, down = [], [('NodeFailure', at('NodeFailure'))]
            else:
                node = arg(f, '(U256|NodeID)')
                if node is None:
                    continue
                up, down = [('Module', node)], [('DropConnection', node)]
            for v, x in up:
                n += 1
                c.followed(f'connected:{v}', A, is_(v), put('connected', x), A.rets(), f'{v}: the node is listed as connected')
                c.followed(f'connected-only:{v}', A, is_(v), out('connecting', x), A.rets(), f'{v}: the node is no longer listed as connecting')
                taken_out(c, A, f'stays:{v}', is_(v), x, R_)
            for v, x in down:
                n += 1
                for l in ('connected', 'connecting'):
                    c.followed(f'gone:{v}:{l}', A, is_(v), out(l, x), A.rets(), f'{v}: the node is no longer listed as {l}')
            if ty == 'RandomIn':
                x = at('NetworkWrapperToNetwork')
                un = [e for e in A.edges if lit(e, lambda t: is_connected(t, x), False)]
                c.followed('gone:unconnected', A, un, out('connected', x), A.rets(), 'a node found to be not connected is not listed')
    c.floor('events', n, 4, 'events about connections')
    # Connecting: listed as such, and only nodes which are known and neither connected nor connecting.
    for f in c.F.fns.values():
        if f.derived or f.kind != 'assoc' or not f.path.startswith(CORE) or '::test' in f.path:
            continue
        A = c.an(f, opaque=OPQ)
        es = [e for e in A.evedges if put('connecting', None)(e)]
        for e in es:
            same = lambda k: out('connected', None)(k) and same_list(k[3].args[1], e[3].args[1])
            p1, p2 = A.path_without(e, same), A.follow_without(e, same, A.rets())
            c.ob('connecting-only', p1 is None or p2 is None, f'a node listed as connecting is not listed as connected [{f.path}]', p1 and p2)
    k = 0
    for f in c.F.fns.values():
        if f.derived or f.kind != 'assoc' or not f.path.startswith(CORE) or '::test' in f.path or not re.search(r'NodeIDs$', f.lty(0)):
            continue
        A = c.an(f, opaque=OPQ)
        ch = [e for e in A.evedges if ev(e, 'choose_multiple', 'choose', 'sample', 'partial_shuffle', 'shuffle')]
        for e in ch:
            k += 1
            src = e[3].args[0]
            c.ob('choose-known', mentions(src, lambda t: t.op == 'fld' and t.a[1] == 'known'), f'new connections are to known nodes: {show(src, 4)}')
            for l in ('connected', 'connecting'):
                less = all(without(x, l) for x in alts(src))
                c.ob(f'choose-not:{l}', less, f'new connections are not to nodes that are {l}: {show(src, 5)}')
            c.followed('choose-listed', A, [e], put('connecting', None), A.rets(), 'the nodes chosen are listed as connecting')
    c.floor('choices', k, 1, 'choices of nodes to connect to')
    # Never to itself.
    for f in c.taking('NetworkOut', INT):
        A = c.an(f, opaque=OPQ)
        m = arg(f, 'NetworkOut')
        n = 0
        es = [e for e in A.evedges if ev(e, 'merge') and mentions(e[3].args[1], lambda t: t.op == 'as' and t.a[0] is m and t.a[1] == 'NodeListFromWS')]
        c.floor('known', len(es), 1, 'the list of nodes from the signalling server is used')
        for e in es:
            for b, _ in occ(e[3].args[1], lambda t: t.op == 'bag'):
                for i, cs in b.a[1]:
                    if not is_t(path_root(core(i.a[1]) if i.op == 'call' and len(i.a) > 1 else i)) or path_root(core(i.a[1]) if i.op == 'call' else i) is not m:
                        continue
                    n += 1
                    c.ob('not-itself', any(not l[1] and l[0].op == 'eq' and any(own_id(core(x)) for x in l[0].a) for l in cs), f'this node is not among the nodes known: {show(i, 4)} if {[lit_show(l) for l in cs]}')
                    c.ob('all-others', all(not l[1] and l[0].op == 'eq' and any(own_id(core(x)) for x in l[0].a) for l in cs), 'all other nodes of the list are known')
        c.floor('listed', n, 1, 'nodes of the list')


def without(t, l):
    """The nodes of the list l were removed, or filtered out, on all ways to this value."""
    while is_t(t):
        if t.op == 'phi':
            return all(without(x, l) for x in t.a[0])
        if t.op == 'mut' and last(str(t.a[1])) == 'remove_existing' and any(list_of(x, l) for x in t.a[2]):
            return True
        if t.op == 'bag':
            return t.a[0].op == 'coll0' and all(any(not q[1] and q[0].op == 'contains' and has_field(q[0], l) for q in cs) or without(i, l) for i, cs in t.a[1]) or bool(t.a[1]) is False and without(t.a[0], l)
        if t.op in ('mut', 'fld', 'elem', 'old', 'as', 'part', 'upd', 'loop'):
            t = t.a[0]
        elif t.op == 'call' and len(t.a) > 1:
            t = t.a[1]
        elif t.op == 'agg' and len(t.a[3]) == 1:
            t = t.a[3][0]
        else:
            return False
    return False


def own_id(o):
    return o.op == 'fld' and o.a[1] == 'id' and o.a[0].op == 'sym'


def is_connected(t, x):
    return (t.op == 'contains' and recv(t.a[0]) == 'connected' and core(t.a[1]) is core(x) or t.op == 'call' and last(t.a[0]).startswith('contains') and recv(t.a[1]) == 'connected' and core(t.a[2]) is core(x)
            or t.op == 'exists' and has_field(t, 'connected') and mentions(t, lambda s: s is core(x)))


def same_list(a, b):
    f = lambda t: path_of_list(core(t))
    return f(a) is f(b)


def path_of_list(t):
    while True:
        if t.op == 'agg' and t.a[0].endswith('NodeIDs') and len(t.a[3]) == 1:
            t = core(t.a[3][0])
        elif t.op == 'fld' and t.a[1] == '0':
            t = core(t.a[0])
        else:
            return t


def taken_out(c, A, key, srcs, x, R_):
    """After it is listed as connected it is not taken out again."""
    bad = A.automaton('', lambda s, e: 'on' if e in srcs else 'out' if s and ev(e, *R_) and place(e) == 'connected' and mentions(e[3].args[1], lambda t: t is core(x)) else s, lambda s, e: s == 'out' and isret(e))
    c.ob(key, bad is None, 'a connected node stays listed', bad)


def wrapped(m):
    for t in subterms(m):
        if t.op == 'call' and last(t.a[0]) == 'wrap_yaml':
            return t.a[1], t.a[2]
    return None, None


@rule('K02', 'Messages pass between the modules of connected nodes only')
def K02(c):
    """Guards and provenance of every message sent and received; announcements of the connected nodes after every change; what is
    asked of the network."""
    add, rem = lists(c)
    A_, R_ = tuple(k for k, v in add.items() if v), tuple(k for k, v in rem.items() if v)
    change = lambda e: ev(e, *(A_ + R_)) and place(e) == 'connected'
    mods = set()
    chosen = lambda t: mentions(t, lambda s: s.op == 'call' and last(s.a[0]) in ('choose_multiple', 'choose', 'sample'))
    cnt = {}
    for ty in ('NetworkOut', 'RandomIn', 'ModuleMessage'):
        for f in c.taking(ty, INT):
            if f.args < 2 or 'mut ' not in f.lty(1):
                continue
            A = c.an(f, opaque=OPQ)
            m = arg(f, ty)
            at = lambda v, i=0: T('fld', T('as', m, v), str(i))
            node = arg(f, '(U256|NodeID)') if ty == 'ModuleMessage' else None
            is_ = lambda v: [e for e in A.edges if is_var(e, v, lambda t: t is m)]
            mk = lambda *v: [e for e in A.evedges if made(e, *v)]
            mods |= {show(e[3].args[0]) for e in A.evedges if ev(e, 'wrap_yaml')} | {show(e[3].args[1]) for e in A.evedges if ev(e, 'unwrap_yaml')}
            if ty == 'RandomIn':
                dst, msg = core(at('NetworkWrapperToNetwork')), core(at('NetworkWrapperToNetwork', 1))
                sends = mk('MessageToNode')
                for e in sends:
                    con = wrapped(e[3].args[0].a[3][1])[1]
                    c.ob('sent', core(e[3].args[0].a[3][0]) is dst and con is not None and variant(con, 'Module') and core(con.a[3][0]) is msg, f'a message goes to its destination, unchanged: {show(e[3].args[0], 5)}')
                c.guarded('sent-connected', A, sends, lambda e: lit(e, lambda t: is_connected(t, dst), True), 'messages are sent to connected nodes only')
                yes = [e for e in A.edges if lit(e, lambda t: is_connected(t, dst), True)]
                c.followed('sent-always', A, yes, lambda e: e in sends or lit(e, lambda t: t.op == 'is' and t.a[1] == 'Err' and has_call(t.a[0], 'wrap_yaml'), True), A.rets(), 'every message to a connected node is sent')
                c.followed('drop', A, is_('NodeFailure'), lambda e: made(e, 'Disconnect') and core(e[3].args[0].a[3][0]) is core(at('NodeFailure')), A.rets(), 'the connection to a failed node is closed')
            if ty == 'ModuleMessage' and node is not None:
                out = mk('NetworkWrapperFromNetwork')
                for e in out:
                    v = e[3].args[0].a[3]
                    c.ob('received', core(v[0]) is node and core(v[1]) is core(at('Module')), f'a message is handed on with the node it is from: {show(e[3].args[0], 5)}')
                c.followed('received-always', A, is_('Module'), lambda e: e in out, A.rets(), 'every message for the modules is handed on')
                c.followed('drop-asked', A, is_('DropConnection'), lambda e: made(e, 'Disconnect') and core(e[3].args[0].a[3][0]) is node, A.rets(), 'a connection is closed if the other node asks for it')
            if ty == 'NetworkOut':
                hs = [e for e in A.evedges if e[3].kind == 'new' and variant(e[3].args[0], 'NetworkWrapperFromNetwork')]
                c.floor('received', len(hs), 1, 'messages handed on')
                for e in hs:
                    v = e[3].args[0].a[3]
                    c.ob('from', core(v[0]) is core(at('MessageFromNode')) and mentions(v[1], lambda t: t.op == 'call' and last(t.a[0]) == 'unwrap_yaml' and mentions(t.a[1], lambda s: s is m)), f'messages come from the node which sent them: {show(v[0], 4)}')
                for v in ('Connected', 'Disconnected'):
                    c.followed(f'announced:{v}', A, is_(v), lambda e: made(e, 'NodeIDsConnected'), A.rets(), f'{v}: the connected nodes are announced')
                    c.followed(f'announced-infos:{v}', A, is_(v), lambda e: made(e, 'NodeInfosConnected'), A.rets(), f'{v}: the infos of the connected nodes are announced')
            for e in mk('NodeIDsConnected'):
                cnt['ids'] = cnt.get('ids', 0) + 1
                x = e[3].args[0].a[3][0]
                c.ob('announced-connected', list_of(x, 'connected'), f'the nodes announced are those connected: {show(x, 4)}')
                # Not an old list.
                bad = A.follow_without(e, lambda k: made(k, 'NodeIDsConnected'), [k for k in A.evedges if change(k) and not (ev(k, *R_) and chosen(k[3].args[1]))])
                c.ob('announced-last', bad is None, 'the list announced is the last one', bad)
            for e in mk('NodeInfosConnected'):
                for b, _ in occ(e[3].args[0].a[3][0], lambda t: t.op == 'bag'):
                    for i, cs in b.a[1]:
                        if not has_field(i, 'infos'):
                            continue
                        cnt['infos'] = cnt.get('infos', 0) + 1
                        c.ob('infos-connected', any(l[1] and mentions(l[0], lambda t: t.op == 'fld' and t.a[1] == 'connected') and mentions(l[0], lambda t: t.op == 'call' and last(t.a[0]) == 'get_id') for l in cs), 'the infos announced are those of connected nodes')
            # Connections asked for: those chosen, all of them.
            for r in {ret_val(r).id: r for r in A.rets()}.values():
                for t, cs in occ(ret_val(r), lambda t: variant(t, 'Connect') and 'NetworkIn' in t.a[0]):
                    cnt['connect'] = cnt.get('connect', 0) + 1
                    x = core(t.a[3][0])
                    c.ob('connect', x.op == 'elem' and chosen(x) and not cs, f'connections are made to all the nodes chosen: {show(x, 4)}')
            ch = [e for e in A.evedges if ev(e, 'choose_multiple', 'choose', 'sample')]
            if ch:
                c.followed('connect-asked', A, ch, lambda e: made(e, 'Connect') or lit(e, lambda t: t.op == 'more' and chosen(t), False), A.rets(), 'a node listed as connecting is asked to be connected')
    for k in ('ids', 'infos', 'connect'):
        c.floor(k, cnt.get(k, 0), 1, 'announcements and connections')
    c.ob('module', len(mods) == 1, f'messages are sent and received under the same name: {sorted(mods)}')


def counts(t, l):
    return mentions(t, lambda s: s.op == 'call' and last(s.a[0]) == 'len' and list_of(s.a[1], l))


def list_of(x, l):
    """x are the nodes of the list l."""
    x = core(x)
    while True:
        if x.op == 'agg' and x.a[0].endswith('NodeIDs') and len(x.a[3]) == 1:
            x = core(x.a[3][0])
        elif x.op == 'call' and last(x.a[0]).startswith('get_') and len(x.a) == 2:
            x = core(x.a[1])
        elif x.op == 'mut' or x.op == 'old':
            x = core(x.a[0])
        elif x.op == 'fld' and x.a[1] in ('connected', 'connecting', 'known'):
            return x.a[1] == l
        elif x.op == 'bag':
            return all(list_of(i, l) for i, cs in x.a[1]) and not any(cs for i, cs in x.a[1]) and (empty_base(x.a[0]) or list_of(x.a[0], l))
        elif x.op in ('fld', 'elem'):
            x = core(x.a[0])
        else:
            return False


def counted(t, *names):
    return any(mentions(t, lambda s, n=n: s.op == 'fld' and s.a[1] == n) for n in names)


@rule('K03', 'Connections which do not succeed are given up and replaced')
def K03(c):
    """Every tick ages all the entries and removes those waiting too long; the number of nodes to connect to is what is missing."""
    n = 0
    add, rem = lists(c)
    for f in c.F.fns.values():
        if f.derived or f.kind != 'assoc' or not f.path.startswith(INT) or not re.search(r'Vec<.*InternOut>$', f.lty(0)) or 'mut ' not in f.lty(1) or f.args != 1:
            continue
        A = c.an(f, opaque=OPQ)
        age = [e for e in A.evedges if ev(e, 'tick') and place(e) in ('connecting', 'connected')]
        if not age:
            continue
        n += 1
        for l in ('connecting', 'connected'):
            c.guarded(f'aged:{l}', A, A.rets(), lambda e: e in age and place(e) == l, f'the time of nodes {l} is counted')
        old = lambda e: e[3] is not None and e[3].kind == 'call' and last(e[3].name) not in add and e[3].args and place(e) == 'connecting' and mentions(T('x', *e[3].args[1:]), lambda t: t.op == 'fld' and t.a[1] == 'connecting_timeout')
        c.guarded('given-up', A, A.rets(), old, 'nodes which are connecting for too long are given up')
        for e in [e for e in A.evedges if old(e)]:
            x = [t for t in subterms(T('x', *e[3].args[1:])) if t.op == 'call' and last(t.a[0]) in ticks_fns(c)] or last(e[3].name) in ticks_fns(c)
            c.ob('too-long', x, f'those given up are the ones connecting for the time configured or longer: {e[3].name}')
        tries = [e for e in A.evedges if ev(e, 'choose_multiple', 'choose', 'sample')]
        c.floor('tries', len(tries), 1, 'new connections')
    c.floor('ticks', n, 1, 'the handling of time')
    for f in c.F.fns.values():
        if f.kind == 'assoc' and f.path.startswith(NODES) and f.name == 'tick':
            A = c.an(f)
            w = [e for e in A.evedges if e[3].kind == 'write' and fld_is(e[3].args[0], 'ticks')]
            c.floor('age', len(w), 1, 'changes of the age')
            c.ob('age', by_one(c, f, 'ticks'), 'every node gets older by one')
            nx = [e for e in A.litedges if lit(e, lambda t: t.op == 'more', True)]
            c.ob('age-each', not any(mentions(e[2][0], lambda t: t.op == 'part') for e in nx), 'no node is left out')
            c.followed('age-all', A, nx, lambda e: e in w, nx + A.rets(), 'all the nodes get older')
    # How many.
    k = 0
    for f in c.F.fns.values():
        if f.derived or f.kind != 'assoc' or not f.path.startswith(CORE) or '::test' in f.path or not re.search(r'NodeIDs$', f.lty(0)) or f.args != 1:
            continue
        A = c.an(f, opaque=OPQ)
        for e in A.evedges:
            if not ev(e, 'choose_multiple'):
                continue
            k += 1
            x = e[3].args[2]
            less = [y for y in subterms(x) if y.op == 'call' and last(y.a[0]) == 'max' or y.op == 'call' and 'saturating_sub' in y.a[0]]
            c.ob('missing', less and all(counted(y, 'known') and counts(y, 'connected') and counts(y, 'connecting') for y in less) and mentions(x, lambda t: t.op == 'call' and last(t.a[0]) == 'min') and mentions(x, lambda t: t.op == 'call' and last(t.a[0]) == 'max'),
                 f'the number of new connections is what is needed less what there is, at least none, at most the nodes left: {show(x, 8)}')
    c.floor('filled', k, 1, 'filling up of connections')


def by_one(c, f, field):
    """The field is only ever increased by one."""
    good = n = 0
    for g in [f] + list(c.F.children.get(f.key, [])):
        g = c.F.fns.get(g, g) if isinstance(g, str) else g
        for b in g.blocks:
            for s in b['s']:
                r = s[1]
                if r[0] == 'bin' and re.match(r'Add|Sub|Mul|Div|Sh', r[1]):
                    n += 1
                    ops = [r[2], r[3]]
                    good += r[1].startswith('Add') and any(o[0] in 'cm' and o[1][-1] == '.' + field for o in ops) and any(o[0] == 'k' and o[1].get('v') == 1 for o in ops)
            if b['t'][0] == 'call' and re.search(r'::(saturating|wrapping)_add$', str(b['t'][1][1].get('fn') if isinstance(b['t'][1][1], dict) else '')):
                n += 1
                ops = b['t'][2]
                good += any(o[0] == 'k' and o[1].get('v') == 1 for o in ops)
    return n == 1 and good == 1


def ticks_fns(c):
    """The methods of a list of nodes which select those which are there for at least that many ticks."""
    r = {}
    for f in c.F.fns.values():
        if f.kind != 'assoc' or f.derived or not f.path.startswith(NODES) or f.args != 2 or f.lty(2) != 'u32' or not re.search(r'NodeIDs$', f.lty(0)):
            continue
        A = c.an(f)
        n = T('sym', f.lname(2))
        old = lambda l: (l[0].op == 'lt' and not l[1] and fld_is(l[0].a[0], 'ticks') and l[0].a[1] is n) or (l[0].op == 'le' and l[1] and l[0].a[0] is n and fld_is(l[0].a[1], 'ticks'))
        good = True
        for l in A.lits():
            for q, _ in occ(l[0], lambda t: t.op == 'part'):
                good &= cut_ok(q)
        for v in [ret_val(x) for x in A.rets()]:
            its = [(i, cs) for b, _ in occ(v, lambda t: t.op == 'bag') for i, cs in b.a[1]]
            good &= bool(its) and all(fld_is(i, 'id') and any(old(l) for l in cs) and all(old(l) for l in cs) for i, cs in its if fld_is(i, 'id'))
        if 'mut ' in f.lty(1):
            for v in A.finals(f.lname(1)):
                for b, _ in occ(v, lambda t: t.op == 'bag' and any(own_elem(i) for i, cs in t.a[1])):
                    for i, cs in b.a[1]:
                        if own_elem(i):
                            good &= bool(cs) and all(not l[1] and l[0].op == 'contains' and mentions(l[0].a[0], lambda t: t.op == 'bag') and fld_is(l[0].a[1], 'id') or not l[1] and old((l[0], False)) for l in cs)
                if not any(s.op == 'bag' for s in subterms(v)):
                    good = False
        r[f.name] = good
    return {k for k, v in r.items() if v}


def cut_ok(q):
    """Stopping at the first one which is too young misses none, if the oldest come first."""
    cs = [x for x in q.a[1] if x.op == 'cut']
    return all(x.a[0] == 'take_while' for x in cs) and order(T('part', q.a[0], tuple(x for x in q.a[1] if x.op == 'ord'))) == ('desc', 'ticks') or all(
        x.a[0] == 'skip_while' for x in cs) and order(T('part', q.a[0], tuple(x for x in q.a[1] if x.op == 'ord'))) == ('asc', 'ticks')


def fld_is(t, n):
    t = core(t)
    return t.op == 'fld' and t.a[1] == n
