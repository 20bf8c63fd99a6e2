"""Gossip: events which are stored by every node and exchanged between them."""
import re
from check import *
from terms import *
from query import *
from query import An

CORE = 'gossip_events::core'
INT = 'gossip_events::intern'


def last(n):
    return n.split('::')[-1]


def islen(t):
    t = strip_cast(t)
    return t.op == 'len' or t.op == 'call' and last(t.a[0]) == 'len'


def ev(e, *names):
    return e[3] is not None and e[3].kind == 'call' and last(e[3].name) in names


def made(e, *names):
    return e[3] is not None and e[3].kind == 'new' and variant(e[3].args[0], *names)


def digest_parts(t):
    """What was hashed, in order: the arguments of the updates of a digest."""
    for s in sorted(subterms(t), key=lambda x: -len(list(subterms(x)))):
        if s.op == 'mut' and last(str(s.a[1])) in ('update', 'chain_update'):
            r = []
            while s.op == 'mut' and last(str(s.a[1])) in ('update', 'chain_update'):
                r.insert(0, s.a[2][0])
                s = s.a[0]
            return r
        if s.op == 'call' and last(s.a[0]) == 'digest' and 'Digest' in s.a[0]:
            return [s.a[1]]
        if hash_parts(s):
            return hash_parts(s)[1]
    return None


def event_id(c):
    """The function giving the id of an event."""
    r = [f for f in c.taking('Event', CORE) if f.args == 1 and re.search(r'U256$|NodeID$', f.lty(0))]
    c.floor('id', len(r), 1, 'the id of an event')
    return r


def store_fns(c):
    """(methods of a category taking an event, methods of the storage taking an event), which say whether it was kept."""
    r = [f for f in c.taking('Event', CORE) if f.args == 2 and f.lty(0) == 'bool' and 'mut ' in f.lty(1)]
    return [f for f in r if f.lty(1).endswith('Events')], [f for f in r if f.lty(1).endswith('EventsStorage')]


def in_events(e, *names):
    """The edge changes the events of a category."""
    return ev(e, *names) and e[3].args and place(e) == 'events'


@rule('G01', 'An event is identified by everything it says')
def G01(c):
    """The hash parts of the id are compared with the fields of the type; the key of every insertion into the events of a category
    is the id of the event inserted."""
    ids = event_id(c)
    names = tuple(f.path for f in ids)
    short_ = {f.name for f in ids}
    ty = c.F.adt(CORE + '::Event')
    c.floor('type', len(ty), 1, 'the type of an event')
    enums = {}
    for fl in ty[0]['variants'][0]['fields']:
        for a in fl['adts']:
            x = c.F.adts.get(a)
            if x and x['kind'] == 'enum':
                enums[fl['name']] = [v['name'] for v in x['variants']]
    for f in ids:
        A = c.an(f)
        me = T('sym', f.lname(1))
        for e in A.rets():
            parts = digest_parts(ret_val(e))
            c.ob('hashed', parts, f'the id is a hash [{f.path}]')
            var = 0
            for fl in ty[0]['variants'][0]['fields']:
                n = fl['name']
                ps = [p for p in parts or [] if mentions(p, lambda t: t.op == 'fld' and t.a[0] is me and t.a[1] == n)]
                c.ob(f'covered:{n}', ps, f'{n} is part of the id of an event')
                if n in enums:
                    c.ob(f'enum:{n}', not any(a != b and b.startswith(a) for a in enums[n] for b in enums[n]), f'no name of {n} is the beginning of another')
            for p in parts or []:
                fs = {t.a[1] for t in subterms(p) if t.op == 'fld' and t.a[0] is me}
                q = core(p, 64)
                whole = q.op == 'fld' and q.a[0] is me or fs <= set(enums) or has_call(p, 'to_le_bytes', 'to_be_bytes', 'to_bytes') and all(
                    core(t.a[1], 64).op == 'fld' for t in subterms(p) if is_call(t, 'to_le_bytes', 'to_be_bytes'))
                c.ob(f'whole:{"+".join(sorted(fs))}', whole, f'the fields are hashed as a whole: {show(p, 5)}')
                var += not fs <= set(enums) and not has_call(p, 'to_le_bytes', 'to_be_bytes', 'to_bytes') and any(
                    re.search(r'String|Vec', ty[0]['tys'][fl['ty']]) for fl in ty[0]['variants'][0]['fields'] if fl['name'] in fs)
            c.ob('one-variable', var <= 1, 'at most one of the fields hashed is of a variable length')
    # The events are stored under their id.
    n = 0
    isid = lambda k, v: core(k).op == 'call' and last(core(k).a[0]) in short_ and (core(core(k).a[1]) is core(v))
    for f in c.F.touching('events', CORE):
        if f.derived:
            continue
        A = c.an(f, opaque=names)
        for e in A.evedges:
            if in_events(e, 'insert') and len(e[3].args) == 3:
                n += 1
                c.ob('key-insert', isid(e[3].args[1], e[3].args[2]), f'an event is stored under its id: {show(e[3].args[1], 4)}')
            elif e[3].kind == 'new' and variant(e[3].args[0], 'Events') and str(e[3].args[0].a[0]).endswith(CORE + '::Events'):
                es = fld(e[3].args[0], 'events')
                for b, _ in occ(es, lambda t: t.op == 'bag'):
                    for i, cs in b.a[1]:
                        n += 1
                        k, v = (i.a[3] if i.op == 'agg' and len(i.a[3]) == 2 else (i, i))
                        c.ob('key-migrated', isid(k, v), f'an event of an older version is stored under its id: {show(i, 5)}')
    c.floor('stored', n, 2, 'places storing events')


@rule('G02', 'A category keeps the newest events, within its limits')
def G02(c):
    """The answers of the insertion on all paths; which of two events of a source is dropped; the order and count of what is removed."""
    ids = event_id(c)
    names = tuple(f.path for f in ids)
    short_ = {f.name for f in ids}
    cats, stores = store_fns(c)
    # The public entrance: called from outside of the type.
    own = {f.impl for f in cats}
    callers = c.F.callers()
    outer = [f for f in cats if any(k in c.F.fns and c.F.top(c.F.fns[k]).impl not in own for k in callers.get(f.key, ()))]
    c.floor('entrance', len(outer), 1, 'the insertion of an event into a category')
    for f in outer:
        A = c.an(f, opaque=names)
        me = T('sym', f.lname(2))
        isid = lambda t: core(t).op == 'call' and last(core(t).a[0]) in short_ and core(core(t).a[1]) is me
        ins = [e for e in A.evedges if in_events(e, 'insert')]
        rem = [e for e in A.evedges if in_events(e, 'remove', 'retain', 'clear', 'drain', 'remove_entry', 'extract_if', 'pop')]
        T_, F_ = A.rets(lambda v: show(v) == 'True'), A.rets(lambda v: show(v) == 'False')
        c.ob('answers', T_ and F_ and len(T_) + len(F_) >= len(A.rets()), f'the answer says whether the event is kept [{f.path}]')
        c.ob('inserts', ins and all(core(e[3].args[-1]) is me for e in ins), f'the event itself is stored [{f.path}]')
        there = lambda e, p: any(is_var(e, v, lambda t: t.op == 'get' and recv(t.a[0]) == 'events' and isid(t.a[1])) for v in (('Some',) if p else ('None',))) or lit(
            e, lambda t: t.op == 'contains' and isid(t.a[1]), p)

        def step(x, e):
            if e in ins:
                return 'in'
            if e in rem and x in ('in', 'out'):
                return 'out'
            if there(e, True):
                return 'in' if x in ('in', 'out') else 'known'
            if there(e, False):
                return 'gone' if x in ('in', 'out') else 'new'
            return x
        bad = lambda x, e: (e in T_ and x != 'in') or (e in F_ and x == 'in')
        p = A.automaton('', step, bad)
        c.ob('answer-true', p is None, f'true is answered if and only if the event is stored in the end [{f.path}]', p)
        c.guarded('known-kept', A, ins, lambda e: there(e, False), 'an event is stored only if it is not known yet')
        c.guarded('known-first', A, rem, lambda e: there(e, False), 'nothing is removed for an event which is known')
        # Events of the same source.
        same = lambda t: (t.op in ('exists', 'forall')) and mentions(t, lambda s: s.op == 'eq' and {x.a[1] for x in s.a if is_t(x) and x.op == 'fld'} == {'src'}) or t.op == 'eq' and {
            x.a[1] for x in t.a if is_t(x) and x.op == 'fld'} == {'src'}
        uniq = lambda e, p: lit(e, lambda t: t.op == 'fld' and t.a[1] == 'unique', p)
        older = [e for e in rem if e not in after(A, ins, rem)]
        c.floor('replaced', len(older), 1, 'the removal of the older event of the same source')
        c.guarded('unique', A, ins, lambda e: uniq(e, False) or lit(e, same, False) and e[2][0].op == 'exists' or e in older, 'in a category for one event per source there is no other event of it')
        c.guarded('unique-only', A, older, lambda e: uniq(e, True), 'only a category for one event per source replaces events')
        c.guarded('same-source', A, older, lambda e: lit(e, same, True), 'the event replaced is of the same source')
        newer = lambda e: keeps_newer(e, me)
        ties = [e for e in A.edges if cmp_lit(e, me)]
        c.ob('same-time', ties and all(any(isid(y) for x in e[2][0].a for y in subterms(x)) for e in ties), 'of two events of the same time every node keeps the same one')
        c.guarded('newer', A, older, newer, 'the event replaced is not newer')
        c.guarded('older-refused', A, [e for e in F_], lambda e: there(e, True) or there(e, False) and after_edge(A, e, ins) or is_older(e, me), 'an event is refused only if it is known or too old', least=1)
        # The limit.
        lim = [e for e in rem if e in after(A, ins, rem)]
        c.floor('limit', len(lim), 1, 'the removal of events over the limit')
        over = lambda e: lit(e, lambda t: t.op == 'lt' and t.a[0].op == 'fld' and t.a[0].a[1] == 'max_events' and islen(t.a[1]), True) or cut_lit(e)
        c.guarded('limit-only', A, lim, over, 'events are removed only over the limit')
        for e in ins:
            c.followed('limited', A, [e], lambda k: lit(k, lambda t: t.op == 'lt' and t.a[0].op == 'fld' and t.a[0].a[1] == 'max_events' and islen(t.a[1]), False) or cut_lit(k, end=True),
                       A.rets(), 'after an insertion the limit is enforced')
        cs = {(l[0]) for e in A.edges if e[2] for l in [e[2]] if l[0].op == 'more' and any(s.op == 'part' for s in subterms(l[0]))}
        good = [t for t in cs if newest_kept(t)]
        c.ob('oldest', cs and len(good) == len(cs), f'the events removed are the oldest over the limit: {sorted({show(T("x", s.a[1]), 6) for t in cs for s in subterms(t) if s.op == "part"})[:2]}')
        ks = [x.a[1] for t in cs for s in subterms(t) if s.op == 'part' and len(s.a) > 1 for x in s.a[1] if x.op == 'ord' and x.a[0] != 'rev']
        c.ob('same-time-limit', ks and all(any(y.op == 'key' or y.op == 'call' and last(y.a[0]) in short_ for y in subterms(k)) for k in ks), 'of the oldest events of the same time every node removes the same one')
    # Only into the category it is of.
    for f in stores:
        A = c.an(f, opaque=names + tuple(x.path for x in cats))
        me = T('sym', f.lname(2))
        k = [e for e in A.evedges if ev(e, *[x.name for x in outer])]
        c.ob('category', k and all(mentions(e[3].args[0], lambda t: t.op == 'at' and mentions(t.a[1], lambda s: s.op == 'fld' and s.a[0] is me and s.a[1] == 'category')) and core(e[3].args[1]) is me for e in k),
             f'an event goes to its own category [{f.path}]')
        kept = lambda t: is_call(t, *[x.name for x in outer])
        c.guarded('category-true', A, A.rets(lambda v: show(v) != 'False' and not kept(v)), lambda e: lit(e, kept, True), 'the answer is that of the category', least=0)
        bad = A.automaton('', lambda x, e: 'kept' if lit(e, kept, True) else x, lambda x, e: x == 'kept' and e in A.rets(lambda v: show(v) == 'False'))
        c.ob('category-false', bad is None, 'the answer is that of the category', bad)


def after(A, ins, rem):
    r = set()
    for e in ins:
        r |= A.reachable_from(e)
    return [e for e in rem if e[0] in r]


def after_edge(A, e, ins):
    return any(e[0] in A.reachable_from(i) for i in ins)


def order_of(t, me):
    """'me' if t is the creation of the event to add (or begins with it), 'old' for that of a stored one."""
    t = strip_cast(t)
    if t.op == 'agg' and t.a[3]:
        t = t.a[3][0]
    if t.op == 'fld' and t.a[1] == 'created':
        return 'me' if core(t.a[0]) is me else 'old'
    return None


def cmp_lit(e, me):
    """(smaller, greater, strict) of the creations compared on an edge."""
    if e[2] is None or e[2][0].op not in ('lt', 'le') or len(e[2][0].a) != 2:
        return None
    a, b = (order_of(x, me) for x in e[2][0].a)
    if a is None or b is None or a == b:
        return None
    strict = e[2][0].op == 'lt'
    if not e[2][1]:
        a, b, strict = b, a, not strict
    return a, b, strict


def keeps_newer(e, me):
    x = cmp_lit(e, me)
    return x is not None and x[0] == 'old'


def is_older(e, me):
    x = cmp_lit(e, me)
    return x is not None and x[0] == 'me'


def cut_lit(e, end=False):
    return e[2] is not None and e[2][0].op == 'more' and e[2][1] != end and any(s.op == 'part' and len(s.a) > 1 and newest_kept(e[2][0]) for s in subterms(e[2][0]))


def newest_kept(t):
    """The part of the events looked at is what is over the limit, with the newest first; or the oldest ones that are too many."""
    for s in subterms(t):
        if s.op != 'part' or len(s.a) < 2:
            continue
        d, ok = None, False
        for x in s.a[1]:
            if x.op == 'ord':
                if x.a[0] == 'rev':
                    d = {'asc': 'desc', 'desc': 'asc'}.get(d)
                    continue
                k = x.a[1]
                if k.op == 'agg' and k.a[3]:
                    k = k.a[3][0]
                d = x.a[0] if k.op == 'fld' and k.a[1] == 'created' else None
            elif x.op == 'cut':
                n = strip_cast(x.a[1])
                if x.a[0] == 'skip':
                    ok = d == 'desc' and n.op == 'fld' and n.a[1] == 'max_events'
                elif x.a[0] == 'take':
                    ok = d == 'asc' and mentions(n, lambda y: y.op == 'fld' and y.a[1] == 'max_events') and mentions(n, islen) and any(
                        y.op in ('sub', 'bin') or y.op == 'call' and 'sub' in last(y.a[0]) for y in subterms(n))
                else:
                    ok = False
        return ok
    return False


# ---------------------------------------------------------------- the exchange
def entrances(c):
    """The handlers of events to add, of messages of nodes and of lists of nodes."""
    cats, stores = store_fns(c)
    ids = event_id(c)
    ask = [f for f in c.F.fns.values() if f.kind == 'assoc' and f.impl in {s.impl for s in stores} and not f.derived and '::test' not in f.path and f.args]
    opq = tuple(f.path for f in ask if not f.path.endswith('::new')) + tuple(f.path for f in ids) + ('NetworkWrapper::wrap_yaml', 'NetworkWrapper::unwrap_yaml')
    return {last(f.path) for f in stores}, {f.name for f in ids}, opq, ask


def nets(v):
    """(destination, message, conditions) of every message to the network in a value returned."""
    for t, cs in occ(v, lambda t: variant(t, 'NetworkWrapperToNetwork')):
        for m in alts(core(t.a[3][1])):
            yield t.a[3][0], m, cs


def wrapped(m):
    """(module, content) of a message."""
    for t in subterms(m):
        if t.op == 'call' and last(t.a[0]) == 'wrap_yaml':
            return t.a[1], t.a[2]
    return None, None


def is_node(t):
    return t.op == 'elem' and mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'nodes')


@rule('G03', 'A new event is kept, announced and offered to the other nodes')
def G03(c):
    """Every path from an event that was added; what is returned for it, and its conditions."""
    add, ids, opq, ask = entrances(c)
    todo = []
    for f in c.taking('GossipIn', INT):
        m = arg(f, 'GossipIn')
        todo.append((f, lambda t, m=m: t.op == 'fld' and core(t.a[0]) is core(T('as', m, 'AddEvent')) or core(t) is m or t.op == 'fld' and mentions(t, lambda s: s is m) and not mentions(t, lambda s: s.op == 'elem'), None))
    for f in c.taking('ModuleMessage', INT):
        if f.args < 2 or not any('U256' in f.lty(i + 1) or 'NodeID' in f.lty(i + 1) for i in range(f.args)) or 'mut ' not in f.lty(1):
            continue
        m, s = arg(f, 'ModuleMessage'), arg(f, '(U256|NodeID)')
        todo.append((f, lambda t, m=m: t.op == 'elem' and mentions(t, lambda s: s is m), s))
    c.floor('entrances', len(todo), 2, 'the handlers of new events')
    for f, isev, src in todo:
        A = c.an(f, opaque=opq)
        adds = [e for e in A.evedges if ev(e, *add)]
        c.floor('added', len(adds), 1, f'the event is added [{f.path}]')
        for e in adds:
            c.ob('added-itself', isev(core(e[3].args[1])), f'what is added is the event received: {show(e[3].args[1], 4)}')
        kept = lambda t: t.op == 'call' and last(t.a[0]) in add and isev(core(t.a[2]))
        news = [e for e in A.edges if e[2] and e[2][1] and kept(e[2][0])]
        c.floor('kept', len(news), 1, f'the answer of the store is looked at [{f.path}]')
        # No event was kept (the list of those kept is empty).
        none = lambda e: lit(e, lambda t: t.op == 'eq' and any(islen(x) for x in t.a) and mentions(t, kept), True) or lit(e, lambda t: t.op == 'lt' and islen(t.a[1]) and mentions(t, kept), False) or lit(
            e, lambda t: t.op == 'exists' and mentions(t, kept), False)
        saved = lambda e: ev(e, 'set') and has_field(e[3].args[0], 'storage') and mentions(e[3].args[2], lambda t: t.op == 'call' and last(t.a[0]) == 'get' and 'core' in t.a[0]) or lit(
            e, lambda t: t.op == 'is' and mentions(t, lambda s: s.op == 'call' and last(s.a[0]) == 'get' and 'core' in s.a[0]) and t.a[1] == 'Err', True)
        c.followed('saved', A, news, lambda e: saved(e) or none(e), A.rets(), 'the events are written after a new one')
        sent = lambda e: ev(e, 'send', 'send_replace', 'send_modify', 'send_if_modified') and has_field(e[3].args[0], 'tx') and recv(e[3].args[1]) in ('events', None) or is_var(e, 'None', lambda t: recv(t) == 'tx')
        c.followed('watched', A, news, lambda e: sent(e) or none(e), A.rets(), 'the copy of the events for the user follows')
        # What is returned.
        rets = list({ret_val(r).id: r for r in A.rets()}.values())
        told = offered = 0
        for r in rets:
            v = ret_val(r)
            for t, cs in occ(v, lambda t: variant(t, 'NewEvent')):
                told += 1
                x = core(t.a[3][0])
                many = x.op == 'elem'
                c.ob('new-itself', isev(x), f'the event announced is the one received: {show(x, 4)}')
                if many:
                    c.ob('new-if-kept', any(l[1] and kept(l[0]) for l in cs), f'an event is announced only if it was not known')
                    c.ob('new-always', all(kept(l[0]) and l[1] for l in cs), f'every new event is announced: {[lit_show(l) for l in cs][:3]}')
                else:
                    c.guarded('new-if-kept', A, [e for e in A.evedges if made(e, 'NewEvent')], lambda e: lit(e, kept, True), 'an event is announced only if it was not known')
            for d, m, cs in nets(v):
                mod, con = wrapped(m)
                if con is None or not variant(con, 'KnownEventIDs') or not mentions(con, lambda t: isev(core(t)) or kept(t)):
                    continue
                offered += 1
                c.ob('offer-to', is_node(core(d)), f'new events are offered to the connected nodes: {show(d, 4)}')
                for l in cs:
                    fine = not l[1] and l[0].op == 'eq' and is_sides(l[0], d, lambda o: own_id(o) or src is not None and core(o) is src or o.op == 'fld' and o.a[1] == 'src' and isev(core(o.a[0]))) or kept(l[0]) and l[1]
                    c.ob('offer-all', fine, f'new events are offered to every node, except to this one and to where they are from: not {lit_show(l)[:120]}')
                for i, ics in [(i, ics) for b, _ in occ(con, lambda t: t.op == 'bag') for i, ics in b.a[1]] or [(con, ())]:
                    x = core(i)
                    if variant(con, 'KnownEventIDs') and i is con:
                        x = core(con.a[3][0])
                    c.ob('offer-id', x.op == 'call' and last(x.a[0]) in ids and isev(core(x.a[1])), f'the id offered is that of the new event: {show(x, 4)}')
                    for l in ics:
                        fine = kept(l[0]) and l[1] or not l[1] and l[0].op == 'eq' and is_sides(l[0], d, lambda o: o.op == 'fld' and o.a[1] == 'src')
                        c.ob('offer-each', fine, f'every new event is offered, except to the node it is about: not {lit_show(l)[:120]}')
        c.floor('told', told, 1, f'new events in what is returned [{f.path}]')
        c.floor('offered', offered, 1, f'ids of new events in what is returned [{f.path}]')
        if src is None:
            # With the answer assumed: it is in what is returned.
            for t in {e[2][0].id: e[2][0] for e in news}.values():
                B = c.an(f, opaque=opq, know=((t, True),))
                for r in B.rets():
                    if any(r[0] in B.reachable_from(e) for e in B.evedges if ev(e, *add)):
                        c.ob('told-always', any(isev(core(x.a[3][0])) and not cs for x, cs in occ(ret_val(r), lambda t: variant(t, 'NewEvent'))), f'a new event is announced to the user [{f.path}]')
        else:
            c.followed('told-always', A, news, none, [r for r in rets if not many_new(r, kept)], f'a new event is announced to the user')


def many_new(r, kept):
    """What is returned holds, for every event that was kept, the announcement."""
    return any(cs and all(kept(l[0]) and l[1] for l in cs) for _, cs in occ(ret_val(r), lambda t: variant(t, 'NewEvent')))


def is_sides(t, d, other):
    a, b = t.a[0], t.a[1]
    return core(a) is core(d) and other(core(b)) or core(b) is core(d) and other(core(a))


def arg(f, ty):
    r = [f.lname(i + 1) for i in range(f.args) if re.search(r'(^|[:&<( ])' + ty + r'$', strip_generics(f.lty(i + 1)))]
    return T('sym', r[0])


def own_id(o):
    return o.op == 'fld' and o.a[1] == 'id' and o.a[0].op == 'sym'


def elems_of(v):
    """(element, conditions) of a list, () if it is not known element by element."""
    v = core(v)
    r = []
    for x in alts(v):
        if x.op == 'bag':
            r += list(x.a[1]) + [(i, cs) for i, cs in (elems_of(x.a[0]) if x.a[0].op in ('bag', 'phi') else [])]
        elif x.op == 'agg' and x.a[0] == 'array':
            r += [(i, ()) for i in x.a[3]]
    return r


@rule('G04', 'Events missed are asked for, and requests are answered')
def G04(c):
    """Provenance of every message of the module: to whom, with what, under which conditions; the regular requests."""
    add, ids, opq, ask = entrances(c)
    listids = {f.name for f in ask if f.args == 1 and re.search(r'Vec<.*(U256|NodeID)>$', f.lty(0))}
    byids = {f.name for f in ask if f.args == 2 and re.search(r'Vec<.*(U256|NodeID)>$', f.lty(2)) and re.search(r'Vec<.*Event>$', f.lty(0))}
    c.floor('questions', len(listids) and len(byids), 1, 'the questions to the store')
    stored = lambda t: t.op == 'call' and last(t.a[0]) in listids and recv(t.a[1]) == 'events'
    handlers = [f for f in c.taking('ModuleMessage', INT) if f.args >= 2 and 'mut ' in f.lty(1)]
    seen = {}
    mods = set()
    for f in handlers:
        A = c.an(f, opaque=opq)
        m, src = arg(f, 'ModuleMessage'), arg(f, '(U256|NodeID)')
        of = lambda t, *n: mentions(t, lambda s: s.op == 'as' and s.a[0] is m and s.a[1] in n)
        vals = {}
        for r in A.rets():
            for d, w, cs in nets(ret_val(r)):
                vals[(d.id, w.id, cs)] = (d, w, cs)
        for e in A.evedges:
            if ev(e, 'wrap_yaml'):
                mods.add(show(e[3].args[0]))
        for d, w, cs in vals.values():
            mod, con = wrapped(w)
            if con is None:
                c.ob('content', False, f'the content of a message is known: {show(w, 4)}')
                continue
            k = vname(con)
            seen.setdefault(k, 0)
            if k == 'RequestEvents':
                seen[k] += 1
                c.ob('ask-back', core(d) is src, f'unknown events are asked for where they are known: {show(d, 3)}')
                els = elems_of(con.a[3][0])
                c.ob('ask-some', els, 'the ids asked for are known')
                for i, ics in els:
                    c.ob('ask-known', core(i).op == 'elem' and of(i, 'KnownEventIDs'), f'the ids asked for are those the node knows: {show(i, 4)}')
                    c.ob('ask-unknown', has_cond(ics, lambda t: t.op == 'contains' and stored(core(t.a[0])), False), 'no event is asked for which is stored')
                    for l in ics:
                        c.ob('ask-all', not l[1] and l[0].op == 'contains' and (stored(core(l[0].a[0])) or recv(l[0].a[0]) == 'outstanding'), f'every unknown event is asked for, unless it has been: not {lit_show(l)[:100]}')
            elif k == 'Events':
                seen[k] += 1
                c.ob('answer-back', core(d) is src, f'events are sent to the node which asked: {show(d, 3)}')
                x = core(con.a[3][0])
                c.ob('answer-asked', x.op == 'call' and last(x.a[0]) in byids and recv(x.a[1]) == 'events' and of(x.a[2], 'RequestEvents'), f'the events sent are the stored ones asked for: {show(x, 4)}')
            elif k == 'KnownEventIDs' and stored(core(con.a[3][0])):
                seen[k] += 1
                c.ob('list-back', core(d) is src, f'the list of events is sent to the node which asked: {show(d, 3)}')
        # Every request is answered (an encoding error, or nothing to send, aside).
        asked = lambda e, v: is_var(e, v, lambda t: t is m)
        fail = lambda e: lit(e, lambda t: t.op == 'is' and t.a[1] == 'Err' and has_call(t.a[0], 'wrap_yaml'), True)
        empty = lambda e: lit(e, lambda t: t.op == 'eq' and any(islen(x) for x in t.a) and any(show(x) == '0' for x in t.a), True) or lit(e, lambda t: t.op == 'lt' and show(t.a[0]) == '0' and islen(t.a[1]), False)
        for v, o in (('KnownEventIDs', 'RequestEvents'), ('RequestEvents', 'Events'), ('RequestEventIDs', 'KnownEventIDs')):
            es = [e for e in A.edges if asked(e, v)]
            c.floor(f'asked:{v}', len(es), 1, 'the messages are distinguished')
            c.followed(f'answered:{v}', A, es, lambda e: made(e, 'NetworkWrapperToNetwork') and variant(wrapped(e[3].args[0])[1] or T('none'), o) or fail(e) or v != 'RequestEventIDs' and empty(e), A.rets(),
                       'a request is answered')
    for k in ('RequestEvents', 'Events', 'KnownEventIDs'):
        c.floor(f'sent:{k}', seen.get(k, 0), 1, 'messages of the exchange')
    # The questions to the store.
    for f in ask:
        if f.name not in listids | byids:
            continue
        A = c.an(f, opaque=tuple(x.path for x in event_id(c)))
        n = 0
        for r in A.rets():
            for i, cs in elems_of(ret_val(r)):
                n += 1
                x = core(i)
                if f.name in listids:
                    good = x.op == 'key' or x.op == 'call' and last(x.a[0]) in ids and core(x.a[1]).op == 'elem'
                    c.ob('ids', good and mentions(x, lambda t: t.op == 'fld' and t.a[1] == 'events'), f'the ids are those of the stored events: {show(x, 4)}')
                    c.ob('ids-all', not cs, 'the list of ids is complete')
                else:
                    q = T('sym', f.lname(2))
                    sto = mentions(x, lambda t: t.op == 'fld' and t.a[1] == 'events')
                    hit = x.op == 'at' and core(x.a[1]).op == 'elem' and mentions(x.a[1], lambda t: t is q) or any(l[1] and l[0].op == 'contains' and mentions(l[0].a[0], lambda t: t is q) for l in cs)
                    c.ob('by-id', sto and hit, f'an event is found by its id: {show(x, 4)}')
                    for l in cs:
                        ok = l[1] and (l[0].op == 'contains' and mentions(l[0].a[0], lambda t: t is q) or l[0].op == 'is' and l[0].a[0].op == 'get') or l[0].op == 'fld' and l[0].a[1] == 'unique' or not l[1] and l[
                            0].op == 'is' and l[0].a[1] == 'None'
                        c.ob('by-id-all', ok, f'every stored event asked for is found: not {lit_show(l)[:100]}')
        c.floor(f'elements:{f.name}', n, 1, 'elements of the answers of the store')
    # Nodes: new ones are asked for their list; after some time, all of them.
    for f in c.taking('RandomOut', INT):
        A = c.an(f, opaque=opq + tuple(x.path for x in handlers))
        m = arg(f, 'RandomOut')
        mods |= {show(e[3].args[1]) for e in A.evedges if ev(e, 'unwrap_yaml')}
        es = [e for e in A.edges if is_var(e, 'NodeIDsConnected', lambda t: t is m)]
        c.followed('nodes-set', A, es, lambda e: e[3] is not None and e[3].kind == 'write' and place(e) in ('nodes', '0') and mentions(e[3].args[1], lambda t: t is m), A.rets(), 'the list of connected nodes follows')
        n = 0
        for r in {ret_val(r).id: r for r in A.rets()}.values():
            for d, w, cs in nets(ret_val(r)):
                con = wrapped(w)[1]
                if con is None or not variant(con, 'RequestEventIDs'):
                    continue
                n += 1
                c.ob('nodes-asked', core(d).op == 'elem' and mentions(d, lambda t: t is m), f'new nodes are asked for their events: {show(d, 4)}')
                for l in cs:
                    ok = not l[1] and (l[0].op == 'contains' and mentions(l[0].a[0], lambda t: t.op == 'fld' and t.a[1] == 'nodes') and core(l[0].a[1]) is core(d) or l[0].op == 'eq' and is_sides(l[0], d, own_id)) or l[0].op == 'is'
                    c.ob('nodes-asked-all', ok, f'all new nodes are asked: not {lit_show(l)[:100]}')
        c.floor('nodes-asked', n, 1, 'requests to new nodes')
        hs = [e for e in A.evedges if ev(e, *[h.name for h in handlers])]
        c.floor('handled', len(hs), 1, 'messages from the network')
        for e in hs:
            k = [x for x in e[3].args[1:] if core(x).op == 'fld' and mentions(x, lambda t: t.op == 'as' and t.a[0] is m and t.a[1] == 'NetworkWrapperFromNetwork') and not has_call(x, 'unwrap_yaml')]
            c.ob('sender', k, 'the sender of a message is the one it came from')
    c.ob('module', len(mods) == 1, f'messages are sent and received under the same name: {sorted(mods)}')
    # Regularly, all nodes are asked again, and what did not arrive may be asked for again.
    n = 0
    for f in c.F.touching('ticks', INT):
        if f.kind != 'assoc' or f.derived or 'mut ' not in f.lty(1):
            continue
        A = c.an(f, opaque=opq)
        wr = [e for e in A.evedges if e[3].kind == 'write' and place(e) == 'ticks']
        up = [e for e in wr if mentions(e[3].args[1], lambda t: t.op == 'fld' and t.a[1] == 'ticks')]
        if not up:
            continue
        n += 1
        waits = lambda e: e[2] is not None and e[2][0].op in ('lt', 'le') and (mentions(e[2][0].a[0], lambda t: t.op == 'fld' and t.a[1] == 'ticks') and e[2][0].a[1].op == 'i' and e[2][1]
                                                                           or mentions(e[2][0].a[1], lambda t: t.op == 'fld' and t.a[1] == 'ticks') and e[2][0].a[0].op == 'i' and not e[2][1])
        clear = lambda e: ev(e, 'clear', 'drain') and place(e) == 'outstanding' or e[3] is not None and e[3].kind == 'write' and place(e) == 'outstanding' and empty_list(e[3].args[1])
        c.guarded('tick-clear', A, A.rets(), lambda e: waits(e) or clear(e), 'what was asked for and did not arrive can be asked for again after some time')
        c.guarded('tick-count', A, A.rets(), lambda e: e in up or not waits(e) and e[2] is not None and e[2][0].op in ('lt', 'le') and has_field(e[2][0], 'ticks'), 'the time is counted')
        k = 0
        for r in {ret_val(r).id: r for r in A.rets()}.values():
            for d, w, cs in nets(ret_val(r)):
                con = wrapped(w)[1]
                if con is not None and variant(con, 'RequestEventIDs'):
                    k += 1
                    c.ob('tick-all', is_node(core(d)) and all(not l[1] and l[0].op == 'eq' and is_sides(l[0], d, own_id) for l in cs), f'all connected nodes are asked for their events: {show(d, 4)}')
        c.floor('tick-asks', k, 1, 'regular requests for events')
        c.guarded('tick-asked', A, A.rets(), lambda e: waits(e) or lit(e, lambda t: t.op == 'more' and has_field(t, 'nodes'), None), 'the connected nodes are asked for their events after some time')
    c.floor('ticks', n, 1, 'the counting of time')


def empty_list(t):
    return core(t).op == 'coll0' or show(core(t)) in ('coll0(empty)',) or core(t).op == 'agg' and core(t).a[0] == 'array' and not core(t).a[3]
