"""The storage of the DHT: versions, sizes, eviction, realms, answers, persistence, cuckoos."""
import re
from check import *
from facts import strip_generics
from terms import *
from query import *

CORE = 'dht_storage::core'
INT = 'dht_storage::intern'
OPQ = ('flo_id', 'get_depth', 'ToFromBytes::size', 'digest_cond_genesis')
IOPQ = ('flmodules::dht_storage::core::RealmStorage::', 'flo_id', 'global_id', 'Stats::from_realms', 'NetworkWrapper::wrap_yaml', 'NetworkWrapper::unwrap_yaml')
ADD = ('insert', 'push', 'extend', 'append', 'push_back')


def ev(e, *last):
    return e[3] is not None and e[3].kind == 'call' and e[3].name.split('::')[-1] in last


def on(e, field, *last):
    return ev(e, *last) and e[3].args and recv(e[3].args[0]) == field


def absent(e, field, key=None):
    """The edge says that a map (a field of that name) holds no such key."""
    def g(t):
        return t.op == 'get' and recv(t.a[0]) == field and (key is None or core(t.a[1]) is core(key))
    return is_var(e, 'None', g) or lit(e, lambda t: t.op in ('contains', 'has') and recv(t.a[0]) == field and (key is None or core(t.a[1]) is core(key)), False)


def core_fns(c):
    return c.F.touching('flos', CORE)


def flo_param(t):
    """A value that is (part of) something handed in from outside, not of the storage."""
    return path_of(t)[:1] not in (('self',), ('?',)) and not mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'flos')


@rule('D01', 'A stored Flo is only replaced by a newer version')
def D01(c):
    """Every insertion into, and every targeted removal from, the map of Flos, in all functions touching it: guarded by a
    strict comparison of the versions or by the absence of the id. Realms are only created if they are not there."""
    fns = core_fns(c)
    c.floor('functions', len(fns), 5, 'functions touching the stored Flos')

    def newer(e):
        return lit(e, lambda t: t.op == 'lt' and fieldish(t.a[0], 'data_version') and mentions(t.a[0], lambda s: s.op == 'fld' and s.a[1] == 'flos' or s.op == 'wid')
                   and fieldish(t.a[1], 'data_version') and not mentions(t.a[1], lambda s: s.op == 'fld' and s.a[1] == 'flos'))
    guard = lambda e: newer(e) or absent(e, 'flos')
    c.everywhere('insert', fns, lambda e: on(e, 'flos', 'insert', 'entry'), guard, 'a Flo is stored only if its id is unknown or the stored version is older', opaque=OPQ)
    c.everywhere('remove', fns, lambda e: on(e, 'flos', 'remove') and is_call(core(e[3].args[1]), 'Flo::flo_id'), guard, 'a Flo is taken out for another one only if its version is older', opaque=OPQ)
    ok = lambda e: ev(e, 'insert', 'remove', 'push', 'contains', 'get')
    c.everywhere('cleared', fns, lambda e: on(e, 'flos', 'clear', 'drain', 'retain', 'replace', 'take'), lambda e: False, 'the stored Flos are never dropped as a whole', least=0, opaque=OPQ)
    # What is stored under an id is the Flo with that id.
    for f in fns:
        A = c.an(f, opaque=OPQ)
        for e in A.evedges:
            if on(e, 'flos', 'insert') and len(e[3].args) > 2:
                k, v = e[3].args[1], e[3].args[2]
                flo = fld(v, 'flo')
                ks = alts(core(k))
                if all(x.op == 'sym' for x in ks) and f in fns and c.F.callers().get(f.key):
                    continue        # decided in the callers
                c.ob('own-id', all(is_call(x, 'Flo::flo_id') and core(x.a[1]) is core(flo) for x in ks), f'a Flo is stored under its own id: {show(k, 4)}')
    # A realm that is there is never replaced.
    rf = c.F.touching('realms', INT)
    c.everywhere('realm', rf, lambda e: on(e, 'realms', 'insert') and 'RealmStorage' in show(e[3].args[2], 6), lambda e: absent(e, 'realms'),
                 'the storage of a realm is created only if there is none for that realm', opaque=IOPQ + ('DHTConfig::accepts_realm',))
    # A getter answers with the Flo that was asked for.
    for n in ('get_flo_cuckoo', 'get_cuckoo_ids'):
        A = c.an(c.fn('flmodules::dht_storage::core::RealmStorage::' + n), opaque=OPQ)
        k = T('sym', A.fn.lname(2))
        for e in A.rets():
            v = ret_val(e)
            if vname(v) == 'None':
                continue
            c.ob(f'get:{n}', mentions(v, lambda s: s.op == 'at' and recv(s.a[0]) == 'flos' and core(s.a[1]) is k) and
                 all(core(s.a[1]) is k for s in subterms(v) if s.op == 'at' and recv(s.a[0]) == 'flos'), f'{n} answers with the entry of the id asked for: {show(v, 5)}')


def fieldish(t, name):
    t = strip_cast(t)
    return t.op == 'fld' and t.a[1] == name


def direct(c, fns, pred):
    """Those of the functions that have such an event in their own body (or closures), without calls followed."""
    r = []
    for f in fns:
        A = c.an(f, opaque=('flmodules::', 'flcrypto::', 'flarch::', 'crate::', 'size', 'flo_id'))
        if any(pred(e) for e in A.evedges):
            r.append(f)
    return r


def amounts(t, op):
    """The amounts by which a value was increased (Add) or decreased (Sub) from a field."""
    r = set()
    for s in subterms(t):
        if s.op == 'bin' and s.a[0].startswith(op):
            r |= {strip_cast(x) for x in s.a[1:3] if is_t(x)}
    return r


def sized(t):
    """x of size(x), under casts."""
    t = strip_cast(t)
    return core(t.a[1]) if t.op == 'call' and t.a[0].split('::')[-1] == 'size' and len(t.a) == 2 else None


@rule('D02', 'The accounted size of a realm is the size of what it stores')
def D02(c):
    """Pairing of every change of the stored Flos (insertion, removal, new cuckoo link) with the change of the total by the
    size of the very thing, on every path; the same for the index by distance; nobody else writes the total."""
    fns = core_fns(c)
    muts = direct(c, fns, lambda e: on(e, 'flos', 'insert', 'remove') or on(e, 'cuckoos', 'push', 'insert', 'extend'))
    c.floor('mutators', len(muts), 3, 'functions changing the stored Flos')

    def is_size_write(e):
        return e[3] is not None and e[3].kind in ('write', 'lwrite') and len(e[3].args) > 1 and place(e) == 'size'

    def judge_remove(A):
        rs = [e for e in A.evedges if on(e, 'flos', 'remove')]
        if not rs:
            return None
        out = []
        for r in rs:
            k = core(r[3].args[1])

            def sub(e):
                return is_size_write(e) and any(sized(x) is not None and mentions(sized(x), lambda s: s.op == 'at' and core(s.a[1]) is k) for x in amounts(e[3].args[1], 'Sub'))
            p = A.follow_without(r, lambda e: sub(e) or absent(e, 'flos', k), A.rets())
            if p:
                out.append(p)
        return min(out, key=len) if out else True
    n, bad, where = c.climb(muts, judge_remove, opaque=OPQ)
    c.ob('removed', n >= 1 and bad is None, f'removing a Flo takes its size off the total {where}', bad)

    def judge_insert(A):
        rs = [e for e in A.evedges if on(e, 'flos', 'insert')]
        if not rs:
            return None
        for r in rs:
            v = core(r[3].args[2])

            def add(e):
                return is_size_write(e) and any(sized(x) is v for x in amounts(e[3].args[1], 'Add'))
            before = A.path_without(r, add)
            after = A.follow_without(r, add, A.rets())
            if before is not None and after is not None:
                return before
        return True
    n, bad, where = c.climb(muts, judge_insert, opaque=OPQ)
    c.ob('inserted', n >= 1 and bad is None, f'inserting a Flo adds its size to the total {where}', bad)

    def judge_write(A):
        ws = [e for e in A.evedges if is_size_write(e)]
        if not ws:
            return None
        for w in ws:
            xs = [x for o in ('Add', 'Sub') for x in amounts(w[3].args[1], o) if sized(x) is not None]
            if not xs:
                return A.path_without(w, lambda e: False)
        return True
    ws = c.F.touching('size', CORE)
    n, bad, where = c.climb(ws, judge_write, opaque=OPQ)
    c.ob('written', n >= 1 and bad is None, f'the total only ever changes by the size of something stored {where}', bad)

    def judge_cuckoo(A):
        rs = [e for e in A.evedges if on(e, 'cuckoos', 'push', 'insert', 'extend') and mentions(e[3].args[0], lambda s: s.op == 'fld' and s.a[1] == 'flos')]
        if not rs:
            return None
        for r in rs:
            def sub(e):
                return is_size_write(e) and any(sized(x) is not None for x in amounts(e[3].args[1], 'Sub'))

            def add(e):
                return is_size_write(e) and any(sized(x) is not None and mentions(sized(x), lambda s: s.op in ('upd', 'bag', 'ins')) for x in amounts(e[3].args[1], 'Add'))
            p = A.path_without(r, sub)
            q = A.follow_without(r, add, A.rets())
            if p is not None or q is not None:
                return p or q
        return True
    n, bad, where = c.climb(muts, judge_cuckoo, opaque=OPQ)
    c.ob('cuckoo', n >= 1 and bad is None, f'a new cuckoo link changes the total by the growth of its parent {where}', bad)

    # The index by distance.
    def keyed(e, k):
        return any(mentions(x, lambda s: core(s) is k) for x in e[3].args[1:] if is_t(x)) or mentions(e[3].args[0], lambda s: core(s) is k)

    def judge_index(A):
        any_site = False
        for r in A.evedges:
            if on(r, 'flos', 'insert'):
                any_site = True
                k = core(r[3].args[1])
                g = lambda e: on(e, 'distances', 'push', 'insert') and any(core(x) is k for x in e[3].args[1:] if is_t(x)) or \
                    ev(e, 'push') and mentions(e[3].args[0], lambda s: s.op == 'fld' and s.a[1] == 'distances' or s.op == 'wid') and core(e[3].args[1]) is k
                if A.path_without(r, g) is not None and A.follow_without(r, g, A.rets()) is not None:
                    return A.path_without(r, g)
            if on(r, 'flos', 'remove'):
                any_site = True
                k = core(r[3].args[1])
                g = lambda e: ev(e, 'retain', 'remove', 'swap_remove') and e[3].args and mentions(e[3].args[0], lambda s: s.op == 'fld' and s.a[1] == 'distances' or s.op == 'wid') \
                    and not on(e, 'flos', 'remove') or absent(e, 'flos', k) or absent(e, 'distances')
                p = A.follow_without(r, g, A.rets())
                if p is not None and A.path_without(r, g) is not None:
                    return p
        return True if any_site else None
    n, bad, where = c.climb(muts, judge_index, opaque=OPQ)
    c.ob('index', n >= 2 and bad is None, f'the index by distance follows every insertion and removal {where}', bad)
    # The same distance is used for both.
    ks = set()
    for f in muts:
        A = c.an(f, opaque=OPQ)
        for e in A.evedges:
            if e[3].kind == 'call' and e[3].name.split('::')[-1] == 'get_depth':
                ks.add((path_of(e[3].args[0])[-2:], ))
    c.ob('distance', ks == {(('dht_config', 'our_id'),)}, f'distances are always taken from the node\'s own id: {ks}')


@rule('D03', 'Eviction keeps the realm\'s own Flo and the space limit')
def D03(c):
    """Every removal whose key is picked from the index: the realm's id is excluded, the smallest depth first; every return
    after a change of the storage passed the size check or found nothing left to remove; oversized Flos are refused first."""
    fns = core_fns(c)

    def evictions(A):
        return [e for e in A.evedges if on(e, 'flos', 'remove') and mentions(e[3].args[1], lambda s: s.op == 'fld' and s.a[1] in ('distances', 'flos') or s.op == 'wid')]

    def neq_in(i, neq):
        """Picked from a collection which is itself filtered."""
        return any(s.op == 'bag' and all(any(neq(l) for l in cs) for _, cs in s.a[1]) for s in subterms(i) if s.op == 'bag')

    def not_realm(A, e, k):
        def neq(l):
            return l[0].op == 'eq' and l[1] is False and mentions(l[0], lambda s: s.op == 'fld' and s.a[1] == 'realm_id')
        bags = sorted((s for s in subterms(k) if s.op == 'bag'), key=lambda s: -len(subterms(s)))
        top = [s for s in bags if any(mentions(i, lambda x: x.op == 'elem' or x.op == 'at') for i, _ in s.a[1])][:1]
        for s in top:
            return all(any(neq(l) for l in cs) or neq_in(i, neq) for i, cs in s.a[1])
        p = A.path_without(e, lambda x: lit(x, lambda t: t.op == 'eq' and mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'realm_id'), False))
        return p is None
    hits = 0
    for f in fns:
        A = c.an(f, opaque=OPQ)
        for e in evictions(A):
            hits += 1
            k = e[3].args[1]
            c.sites += 1
            p = A.path_without(e, lambda x: lit(x, lambda t: t.op == 'eq' and mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'realm_id'), False))
            c.ob('realm-kept', not_realm(A, e, k), f'the Flo picked for eviction is not the realm\'s own: {show(k, 4)}', p)
    c.floor('evictions', hits, 1, 'evictions of Flos')
    up = c.fn('RealmStorage::upsert_flo')
    A = c.an(up, opaque=OPQ)
    changes = [e for e in A.evedges if on(e, 'flos', 'insert')]

    def small(t):
        return t.op == 'lt' and fieldish(t.a[0], 'max_space') and (recv(strip_cast(t.a[1])) == 'size')

    def full(e):
        # nothing left to remove
        return lit(e, lambda t: t.op == 'more' and mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'distances' or s.op == 'wid'), False) or \
            is_var(e, 'None', lambda t: mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'distances' or s.op == 'wid' and 'distances' in repr(s.a)))
    c.followed('space', A, changes, lambda e: lit(e, small, False) or full(e), A.rets(), 'after storing, the total is within the limit or nothing is left to evict')
    refuse = [e for e in A.evedges if on(e, 'flos', 'insert') or on(e, 'flos', 'remove')]
    c.guarded('too-big', A, refuse, lambda e: lit(e, lambda t: t.op == 'lt' and fieldish(t.a[0], 'max_space') and mentions(t.a[1], lambda s: s.op == 'call' and s.a[0].split('::')[-1] == 'size'), False),
              'a Flo that can never fit is refused before anything is changed or evicted')
    c.guarded('flo-size', A, refuse, lambda e: lit(e, lambda t: t.op == 'lt' and fieldish(t.a[0], 'max_flo_size') and mentions(t.a[1], lambda s: s.op == 'call' and s.a[0].split('::')[-1] == 'size'), False),
              'a Flo bigger than the realm\'s maximal size of Flos is refused')
    for e in A.rets():
        if ret_val(e) is FALSE or ret_val(e) is TRUE:
            continue
    c.guarded('true-if-stored', A, [e for e in A.rets() if ret_val(e) is not FALSE],
              lambda e: lit(e, lambda t: t.op in ('contains', 'has') and recv(t.a[0]) == 'flos') or is_var(e, 'Some', lambda t: t.op == 'get' and recv(t.a[0]) == 'flos' and is_call(core(t.a[1]), 'Flo::flo_id')) or
              lit(e, lambda t: t.op == 'get' and recv(t.a[0]) == 'flos'), 'storing is only reported for a Flo that is there in the end', least=0)
    # Order of eviction: by name of what picks the depth, in the functions choosing it.
    names = set()
    todo, where = [], []
    for f in c.F.touching('distances', CORE):
        A2 = c.an(f, opaque=('flmodules::', 'flcrypto::', 'size', 'flo_id'))
        if any(e[3].kind in ('call', 'ret') and any(is_t(x) and mentions(x, lambda s: s.op == 'fld' and s.a[1] == 'distances') and re.search(r'(last|at|first|next)', repr(x)[:400])
               for x in e[3].args[(1 if e[3].kind == 'call' else 0):]) and (e[3].kind == 'ret' or 'RealmStorage' in e[3].name or on(e, 'flos', 'remove')) for e in A2.evedges):
            todo.append(f)
    for f in todo:
        names |= called(c, f)
        where.append(f.name)
    up_sort = names & {'sorted', 'sorted_unstable', 'sort', 'sort_unstable', 'min', 'min_by_key', 'sorted_by_key', 'sort_by_key', 'sort_unstable_by_key', 'range', 'first_key_value', 'first', 'k_smallest', 'min_by', 'sorted_by', 'sort_by'}
    down = names & {'rev', 'max', 'max_by_key', 'max_by', 'next_back', 'last_key_value', 'reverse', 'pop'}
    c.ob('furthest-first', up_sort and not down, f'the Flo evicted first is the furthest one: the smallest depth ({sorted(up_sort)}, {sorted(down)}, in {where})')
    c.guarded('owned-kept', A, [e for e in evictions(A)], lambda e: lit(e, lambda t: mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'owned'), False), 'Flos owned by the node are not evicted', least=0)


def stores(c):
    """The methods changing a RealmStorage."""
    return [f for f in c.F.fns.values() if f.kind == 'assoc' and not f.derived and '::test' not in f.path and f.args and re.match(r"&('\S+ )?mut .*RealmStorage$", f.lty(1))]


def sent(A, *names):
    """(message, conditions, edge) of everything wrapped for the network."""
    return [(m, cs, e) for e in A.evedges if e[3].kind == 'call' and e[3].name.split('::')[-1] == 'wrap_yaml' for x in e[3].args for m, cs in occ(x, lambda t: variant(t, *names))]


def of_realm(t, rid):
    """t is computed from the storage of exactly that realm."""
    rs = realms_of(t)
    return bool(rs) and all(r is not None and core(r) is core(rid) for r in rs)


def realms_of(t):
    """The ids of the realms a value is read from; None for a storage not looked up by an id."""
    out = []
    for s in subterms(t):
        if s.op == 'call' and 'RealmStorage::' in s.a[0]:
            for x in alts(s.a[1]):
                while x.op in ('loop', 'mut', 'upd') and is_t(x.a[0]):
                    x = x.a[0]
                out.append(x.a[1] if x.op == 'at' and recv(x.a[0]) == 'realms' else None)
    return out


ACC = ('DHTConfig::accepts_realm',)


@rule('D04', 'A node only stores and asks for realms it accepts')
def D04(c):
    """Guards of every insertion into the map of realms and of every request for a realm or its Flos; the meaning of the
    acceptance function on all of its paths; what a Flo is checked for on its way into the storage."""
    rf = c.F.touching('realms', INT)
    c.floor('functions', len(rf), 4, 'functions touching the realms')
    acc = lambda t: is_call(t, 'DHTConfig::accepts_realm')

    def accepted(rid):
        return lambda e: lit(e, lambda t: acc(t) and core(t.a[2]) is core(rid))

    def judge(A):
        ss = [e for e in A.evedges if on(e, 'realms', 'insert', 'entry')]
        c.sites += len(ss)
        if not ss:
            return None
        ps = [p for p in (A.path_without(s, accepted(s[3].args[1])) for s in ss) if p is not None]
        return min(ps, key=len) if ps else True
    n, bad, where = c.climb(rf, judge, opaque=IOPQ + ACC)
    c.ob('created', n >= 1 and bad is None, f'a realm is only created if the node accepts that very realm {where}', bad)
    n, bad, where = c.climb(rf, lambda A: True if not [e for e in A.evedges if on(e, 'realms', 'extend', 'append', 'replace')] else [e for e in A.evedges if on(e, 'realms', 'extend', 'append', 'replace')][:1], opaque=IOPQ + ACC)
    c.ob('created-bulk', bad is None, f'realms are only added one by one {where}', bad)
    # A Flo is only handed to the storage of its own realm, and creates only the realm it says.
    for f in rf:
        A = c.an(f, opaque=IOPQ + ACC)
        for e in A.evedges:
            if e[3].kind == 'call' and named(e[3].name, 'RealmStorage::upsert_flo'):
                p, flo = e[3].args[0], e[3].args[1]
                c.sites += 1
                ks = [s for s in subterms(p) if s.op == 'at' and recv(s.a[0]) == 'realms'][:1]
                c.ob('own-realm', len(ks) == 1 and same_realm(ks[0].a[1], flo), f'a Flo is stored in the realm it names: {show(p, 4)}')
            if on(e, 'realms', 'insert') and len(e[3].args) > 2:
                k, v = e[3].args[1:3]
                c.sites += 1
                c.ob('realm-key', core(k).op == 'fld' and mentions(v, lambda s: s is core(k).a[0] or core(k).a[0].op == 'fld' and s is core(k).a[0].a[0]), f'the storage of a realm is created from the Flo naming that realm: {show(k, 4)}')
    # Requests.
    for f in rf:
        A = c.an(f, opaque=IOPQ + ACC)
        for m, cs, e in sent(A, 'RequestFloMetas', 'RequestFlos'):
            c.sites += 1
            rid = m.a[3][0]
            ok = m.a[1] == 'RequestFlos' and of_realm(m.a[3][1], rid) or has_cond(cs, lambda t: acc(t) and core(t.a[2]) is core(rid)) or A.path_without(e, accepted(rid)) is None or \
                mentions(core(rid), lambda s: s.op == 'key') or \
                A.path_without(e, lambda x: is_var(x, 'Some', lambda t: t.op == 'get' and recv(t.a[0]) == 'realms' and core(t.a[1]) is core(rid)) or
                               lit(x, lambda t: t.op == 'contains' and recv(t.a[0]) == 'realms' and core(t.a[1]) is core(rid))) is None
            c.ob('requested', ok, f'only realms the node accepts or already has are asked for: {show(m, 4)}')
    c.floor('requests', len({m for f in rf for m, _, _ in sent(c.an(f, opaque=IOPQ + ACC), 'RequestFloMetas', 'RequestFlos')}), 3, 'requests for a realm')
    # The meaning of accepting.
    A = c.an(c.fn('DHTConfig::accepts_realm'))
    idp = T('sym', A.fn.lname(2))
    has = lambda t: t.op in ('contains', 'exists') and recv(t.a[0]) == 'realms' or t.op == 'exists' and mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'realms')
    emp = lambda t: t.op == 'eq' and any(is_call(x, 'len') and recv(x.a[1]) == 'realms' and show(y) == '0' for x, y in (t.a, t.a[::-1])) or is_call(t, 'is_empty') and recv(t.a[1]) == 'realms' or \
        t.op == 'lt' and mentions(t, lambda s: is_call(s, 'len'))
    yes = [e for e in A.rets() if ret_val(e) is not FALSE]
    c.guarded('accepts', A, yes, lambda e: lit(e, has) or lit(e, emp, None) and not lit(e, lambda t: t.op == 'lt') and lit(e, emp) or lit(e, lambda t: t.op == 'lt' and emp(t), False),
              'a realm is accepted only if it is listed, or nothing is listed')
    for e in A.rets():
        v = ret_val(e)
        if v is not TRUE and v is not FALSE:
            c.ob('accepts-value', has(v), f'the answer is whether the realm is listed: {show(v, 4)}')
    c.ob('accepts-id', all(core(t.a[1]) is core(idp) for l in A.lits() for t in [l[0]] if t.op == 'contains'), 'the realm looked up is the one asked for')
    # Verified on its way in?
    ver = lambda e: lit(e, lambda t: mentions(t, lambda s: is_call(s, 'Flo::verify', 'FloWrapper::verify', 'Flo::verify_all'))) or iscall(e, 'Flo::verify', 'FloWrapper::verify')
    c.everywhere('verified', c.taking('DHTRouterOut', INT), lambda e: e[3].kind == 'call' and named(e[3].name, 'RealmStorage::upsert_flo') or on(e, 'realms', 'insert'), ver,
                 'a Flo from another node is verified before it is stored', opaque=IOPQ + ACC)
    c.everywhere('realm-self', rf, lambda e: on(e, 'realms', 'insert'), lambda e: lit(e, lambda t: t.op == 'eq' and has_call(t, 'flo_id') and mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'realm')),
                 'a realm is created only by a Flo whose id is the realm it names', opaque=IOPQ + ACC)


def same_realm(k, flo):
    k, flo = core(k), core(flo)
    return k.op == 'fld' and k.a[1] == 'realm' and core(k.a[0]) is flo or is_call(k, 'realm_id') and core(k.a[1]) is flo


def parent_of(t):
    """Where a message came from: the place of the whole, without the payload."""
    return path_of(t)


@rule('D05', 'Answers carry what was asked for, to the one who asked')
def D05(c):
    """Every answer built in the function receiving messages of the router, in the one receiving local requests, and in
    everything they call: destination is the origin of the request; ids and contents from the realm and key of the request."""
    tops = c.taking('DHTRouterOut', INT)
    n = {}

    def seen(k, d=1):
        n[k] = n.get(k, 0) + d
    for f in tops:
        A = c.an(f, opaque=IOPQ + ACC)
        arg = [f.lname(i + 1) for i in range(f.args) if 'DHTRouterOut' in f.lty(i + 1)][0]
        news = [e for e in A.evedges if e[3].kind == 'new']

        def of(v, i):
            r = T('sym', arg)
            return lambda t: core(t).op == 'fld' and core(t).a[1] == str(i) and core(t).a[0].op == 'as' and core(t).a[0].a[1] in v and core(t).a[0].a[0] is r
        for e in news:
            for m, cs in occ(e[3].args[0], lambda t: variant(t, 'MessageNeighbour', 'MessageDirect') and 'DHTRouterIn' in t.a[0]):
                want = of(('MessageNeighbour',), 0) if m.a[1] == 'MessageNeighbour' else of(('MessageRouting', 'MessageClosest'), 0)
                seen('origin')
                c.ob('to-origin', want(m.a[3][0]), f'{m.a[1]} is sent to the one who asked: {show(m.a[3][0], 5)}')
        keys = of(('MessageRouting',), 3), of(('MessageClosest',), 2)
        for m, cs, e in sent(A, 'FloValue', 'CookooIDs', 'UnknownFlo', 'AvailableFlos', 'Flos'):
            seen(m.a[1])
            v = m.a[3]
            if m.a[1] == 'Flos':
                calls = [s for s in subterms(v[0]) if s.op == 'call' and 'RealmStorage::' in s.a[0]]
                rid = realms_of(v[0])
                # both come from the request
                c.ob('flos', bool(calls) and all(is_call(s, 'RealmStorage::get_flo_cuckoo') and mentions(s.a[2], lambda x: x.op == 'fld' and x.a[1] == '1' and x.a[0].op == 'as' and x.a[0].a[1] == 'RequestFlos') for s in calls)
                     and bool(rid) and all(r is not None and core(r).op == 'fld' and core(r).a[1] == '0' and core(r).a[0].op == 'as' and core(r).a[0].a[1] == 'RequestFlos' for r in rid),
                     f'the Flos sent are those asked for, of the realm asked for: {show(v[0], 6)}')
            elif m.a[1] == 'AvailableFlos':
                c.ob('metas', of_realm(v[1], v[0]) and has_call(v[1], 'RealmStorage::get_flo_metas'), f'the list of Flos is the one of the realm named: {show(m, 5)}')
            elif m.a[1] == 'CookooIDs':
                gid = v[0]
                rid, fid = (gid.a[3][0], gid.a[3][1]) if gid.op == 'agg' and len(gid.a[3]) == 2 else (gid, gid)
                g = [s for s in subterms(v[1]) if is_call(s, 'RealmStorage::get_cuckoo_ids')]
                c.ob('cuckoos', of_realm(v[1], rid) and bool(g) and all(core(s.a[2]) is core(fid) and any(k(fid) for k in keys) for s in g) and from_msg(rid, 'GetCuckooIDs', 0), f'the cuckoos sent are those of the Flo asked for: {show(m, 6)}')
            elif m.a[1] == 'FloValue':
                g = [s for s in subterms(v[0]) if is_call(s, 'RealmStorage::get_flo_cuckoo')]
                rid = realms_of(v[0])
                c.ob('value', bool(g) and all(any(k(s.a[2]) for k in keys) for s in g) and bool(rid) and all(r is not None and from_msg(r, 'ReadFlo', 0) for r in rid), f'the Flo sent is the one asked for: {show(m, 6)}')
            elif m.a[1] == 'UnknownFlo':
                c.ob('unknown', True, 'unknown')
        # Flos we are told about: what is stored is what has been received, links go to the Flo they came with.
        for e in A.evedges:
            if e[3].kind == 'call' and named(e[3].name, 'RealmStorage::store_cuckoo_id', 'RealmStorage::store_cuckoo_ids'):
                p, cu = core(e[3].args[1]), e[3].args[2]
                seen('links')
                pair = is_call(p, 'flo_id') and p.a[1].op == 'fld' and mentions(cu, lambda x: x.op == 'fld' and x.a[1] == '1' and x.a[0] is p.a[1].a[0])
                byid = any(k(p) for k in keys) and from_msg(cu, 'StoreCuckooID', 0)
                c.ob('links', pair or byid, f'links are stored for the Flo they came with: {show(p, 5)} <- {show(cu, 5)}')
    for k, l in (('origin', 4), ('FloValue', 1), ('CookooIDs', 1), ('AvailableFlos', 1), ('Flos', 1), ('links', 3)):
        c.floor(k, n.get(k, 0), l, f'{k} in the handling of remote messages')
    # Local requests.
    for f in c.taking('DHTStorageIn', INT):
        A = c.an(f, opaque=tuple(x for x in IOPQ if x != 'global_id') + ACC)
        arg = T('sym', [f.lname(i + 1) for i in range(f.args) if 'DHTStorageIn' in f.lty(i + 1)][0])

        def asked(t, what, *last):
            """t is that part of the id asked for."""
            gid = T('fld', T('as', arg, what), '0')
            x = t
            while x.op == 'call' and x.a[0].split('::')[-1] in WRAP1 and len(x.a) == 2:
                x = x.a[1]
            return x.op == 'fld' and x.a[0] is gid and x.a[1] in ((last[0], '0') if last[0] == 'realm_id' else (last[0], '1')) or x.op == 'call' and named(x.a[0], *last) and x.a[1] is gid
        k = 0
        for e in A.evedges:
            if e[3].kind != 'new':
                continue
            for m, cs in occ(e[3].args[0], lambda t: variant(t, 'FloValue', 'CuckooIDs') and 'DHTStorageOut' in t.a[0]):
                k += 1
                g = [s for s in subterms(m) if s.op == 'call' and named(s.a[0], 'RealmStorage::get_flo_cuckoo', 'RealmStorage::get_cuckoo_ids')]
                what = 'ReadFlo' if m.a[1] == 'FloValue' else 'ReadCuckooIDs'
                want = 'get_flo_cuckoo' if m.a[1] == 'FloValue' else 'get_cuckoo_ids'
                ok = bool(g) and all(named(s.a[0], 'RealmStorage::' + want) and asked(s.a[2], what, 'flo_id') for s in g)
                ok = ok and all(r is not None and asked(r, what, 'realm_id') for r in realms_of(m))
                if m.a[1] == 'CuckooIDs':
                    ok = ok and mentions(m.a[3][0], lambda s: s.op == 'as' and s.a[0] is arg and s.a[1] == what)
                c.ob('local', ok, f'a local answer is the stored value of the id asked for: {show(m, 6)}')
            for m, cs in occ(e[3].args[0], lambda t: variant(t, 'MessageClosest') and 'DHTRouterIn' in t.a[0]):
                for q in subterms(m.a[3][1]):
                    if variant(q, 'ReadFlo', 'GetCuckooIDs') and 'MessageClosest' in q.a[0]:
                        k += 1
                        what = 'ReadFlo' if q.a[1] == 'ReadFlo' else 'ReadCuckooIDs'
                        c.ob('forward', asked(m.a[3][0], what, 'flo_id') and asked(q.a[3][0], what, 'realm_id'), f'a request is routed to the id asked for, with its realm: {show(m, 6)}')
        c.floor('local', k, 4, 'local answers and routed requests')
        # Always an answer or a request.
        c.guarded('read-answered', A, [e for e in A.rets()], lambda e: e[3] is not None and e[3].kind == 'new' and mentions(e[3].args[0], lambda t: variant(t, 'FloValue', 'ReadFlo') and ('Out' in t.a[0] or 'Closest' in t.a[0]))
                  or not (lit(e, lambda t: t.op == 'is' and t.a[0] is arg and t.a[1] == 'ReadFlo')) and e[2] is not None and e[2][0].op == 'is' and e[2][0].a[0] is arg and (e[2][0].a[1] != 'ReadFlo' and e[2][1] or e[2][0].a[1] == 'ReadFlo' and not e[2][1]),
                  'reading a Flo gives its value or asks the network')


def from_msg(t, var, i):
    t = core(t)
    return any(s.op == 'fld' and s.a[1] == str(i) and s.a[0].op == 'as' and s.a[0].a[1] == var for s in subterms(t))


@rule('D06', 'What the storage accepted survives a restart')
def D06(c):
    """Every change of the stored realms, in all functions receiving messages, is followed by writing all of them under the
    key from which they are read at start."""
    muts = {f.name for f in stores(c)}
    c.floor('mutators', len(muts), 3, 'methods changing the storage of a realm')
    keys = set()

    def persisted(e):
        if not (e[3] is not None and e[3].kind == 'call' and named(e[3].name, 'DataStorage::set')):
            return False
        a = e[3].args
        ok = mentions(a[2], lambda s: s.op == 'call' and s.a[0].split('::')[-1] == 'to_string' and mentions(s, lambda x: x.op == 'fld' and x.a[1] == 'realms' or x.op in ('wid', 'loop')))
        if ok:
            keys.add(core(a[1]))
        return ok

    def change(e):
        return e[3].kind == 'call' and (re.search(r'RealmStorage::(' + '|'.join(muts) + ')$', e[3].name) and mentions(e[3].args[0], lambda s: s.op == 'fld' and s.a[1] == 'realms' or s.op == 'wid') or
                                        on(e, 'realms', 'insert', 'remove', 'clear', 'retain', 'drain', 'entry'))
    okay = lambda e: persisted(e) or lit(e, lambda t: is_call(t, 'RealmStorage::upsert_flo'), False) or \
        is_var(e, 'Err', lambda t: t.op == 'call' and t.a[0].split('::')[-1] == 'to_string')
    rf = c.F.touching('realms', INT)
    tops = c.taking('DHTRouterOut', INT) + c.taking('DHTStorageIn', INT)
    for f in tops:
        A = c.an(f, opaque=IOPQ + ACC)
        ss = [e for e in A.evedges if change(e)]
        c.followed(f'persisted:{f.name}', A, ss, okay, A.rets(), 'after a change, all the realms are written before the message is done', least=1)
    for f in rf:
        if f not in tops:
            c.an(f, opaque=IOPQ + ACC)
    c.everyafter('persisted', rf, change, okay, 'every change of the realms is written', opaque=IOPQ + ACC)
    # Loaded from the same key.
    A = c.an(c.fn('dht_storage::intern::Messages::new'), opaque=IOPQ + ACC)
    ms = [m for e in A.evedges if e[3].kind == 'new' for m, _ in occ(e[3].args[0], lambda t: variant(t, 'Messages') and 'realms' in t.a[2])]
    c.floor('new', len(ms), 1, 'the start of the module')
    for m in ms:
        r = fld(m, 'realms')
        gets = [s for s in subterms(r) if s.op == 'call' and named(s.a[0], 'DataStorage::get')]
        c.ob('loaded', has_call(r, 'serde_yaml::from_str') and bool(gets) and {core(g.a[2]) for g in gets} == keys and len(keys) == 1,
             f'the realms at start are those read from the key they are written to: {show(r, 6)} / {[show(k, 2) for k in keys]}')
    c.guarded('no-early-write', A, [e for e in A.evedges if iscall(e, 'DataStorage::set')], lambda e: iscall(e, 'DataStorage::get'), 'nothing is written before it was read', least=0)
    # All of a realm is part of what is written.
    for n in ('RealmStorage', 'FloStorage'):
        adt = [a for a in c.F.adt(n) if 'dht_storage::core' in a['path']]
        c.ob(f'all:{n}', len(adt) == 1, f'{n} is defined once')
    sk = skipped(c, 'dht_storage/core.rs')
    c.ob('skipped', not sk, f'no field of the stored types is left out when writing: {sk}')


def skipped(c, file):
    """serde attributes leaving out fields, in the derived code: a field never mentioned in the derived serialize."""
    out = []
    for n in ('FloStorage', 'FloMeta'):
        for a in c.F.adt(n):
            if 'dht_storage::core' not in a['path']:
                continue
            fs = [x[0] if isinstance(x, (list, tuple)) else x.get('name') for x in a['variants'][0]['fields']] if a.get('variants') else []
            for i in c.F.impls:
                if i['trait'] and strip_generics(i['trait']).endswith('Serialize') and i['selfty'].endswith(n):
                    for nm, k in i['items']:
                        b = repr(c.F.fns[k].blocks)
                        out += [f'{n}.{x}' for x in fs if f"'.{x}'" not in b]
    return out


@rule('D07', 'Links to cuckoos are kept, once each, and only under existing Flos')
def D07(c):
    """Every addition to a list of cuckoos: parent present, link not there yet; replacement of a Flo takes the list over; a
    Flo naming a parent is linked under that very parent, locally and in the message sent to the parent's place."""
    fns = core_fns(c)
    adds = lambda e: on(e, 'cuckoos', 'push', 'insert', 'extend', 'append') and mentions(e[3].args[0], lambda s: s.op == 'fld' and s.a[1] == 'flos')

    def place(e):
        return [s for s in subterms(e[3].args[0]) if s.op == 'at' and recv(s.a[0]) == 'flos'][:1]

    def judge(A):
        ss = [e for e in A.evedges if adds(e)]
        c.sites += len(ss)
        if not ss:
            return None
        ps = []
        for s in ss:
            x = core(s[3].args[1])
            once = lambda e: lit(e, lambda t: t.op == 'contains' and recv(t.a[0]) == 'cuckoos' and core(t.a[1]) is x, False) or \
                lit(e, lambda t: t.op == 'exists' and mentions(t, lambda q: q.op == 'fld' and q.a[1] == 'cuckoos') and mentions(t, lambda q: q is x), False)
            p = A.path_without(s, once)
            if p:
                ps.append(p)
        return min(ps, key=len) if ps else True
    n, bad, where = c.climb(fns, judge, opaque=OPQ)
    c.ob('once', n >= 1 and bad is None, f'a link is only added if it is not there yet {where}', bad)
    c.everywhere('dropped', fns, lambda e: on(e, 'cuckoos', 'clear', 'remove', 'retain', 'truncate', 'drain', 'pop', 'swap_remove'), lambda e: False, 'links are never dropped on their own', least=0, opaque=OPQ)
    for f in fns:
        A = c.an(f, opaque=OPQ)
        for e in A.evedges:
            if adds(e):
                pl = place(e)
                c.ob('under-parent', bool(pl), f'a link is stored under a Flo that is there: {show(e[3].args[0], 4)}')
    # Linked under the parent named by the Flo.
    up = c.fn('RealmStorage::upsert_flo')
    A = c.an(up, opaque=OPQ)
    flo = T('sym', up.lname(2))
    k = 0
    for e in A.evedges:
        if adds(e):
            k += 1
            pl = place(e)
            c.ob('own-parent', bool(pl) and path_of(core(pl[0].a[1]))[:1] == (up.lname(2),) and mentions(pl[0].a[1], lambda s: s.op == 'as' and s.a[1] == 'Parent') and
                 is_call(core(e[3].args[1]), 'Flo::flo_id') and core(core(e[3].args[1]).a[1]) is flo, f'the id of a Flo is linked under the parent it names: {show(e[3].args[0], 5)}')
    c.floor('own-parent', k, 1, 'links added while storing')
    # Taken over by an update.
    k = 0
    for e in A.evedges:
        if not on(e, 'flos', 'insert'):
            continue
        key, v = core(e[3].args[1]), e[3].args[2]
        cu = fld(v, 'cuckoos')
        old = [s for s in alts(cu) if s.op == 'fld' and s.a[1] == 'cuckoos' and s.a[0].op == 'at' and core(s.a[0].a[1]) is key]
        if old:
            k += 1
        gone = A.path_without(e, lambda x: absent(x, 'flos', key))
        c.ob('taken-over', bool(old) or gone is None, f'a new version of a Flo takes over the links of the previous one: {show(cu, 4)}', None if old else gone)
    c.floor('taken-over', k, 1, 'updates of a stored Flo')
    # Announced to the parent.
    for f in c.taking('DHTStorageIn', INT):
        A = c.an(f, opaque=tuple(x for x in IOPQ if x != 'global_id') + ACC)
        k = 0
        for m, cs in {x for e in A.evedges if e[3].kind == 'new' for x in occ(e[3].args[0], lambda t: variant(t, 'MessageClosest') and 'DHTRouterIn' in t.a[0])}:
            for q in subterms(m.a[3][1]):
                if variant(q, 'StoreCuckooID'):
                    k += 1
                    d = core(m.a[3][0])
                    fl = [s for s in subterms(q.a[3][0]) if s.op == 'sym']
                    c.ob('announced', mentions(d, lambda s: s.op == 'as' and s.a[1] == 'Parent') and bool(fl) and all(mentions(d, lambda s, y=y: s is y) for y in fl) and has_call(q.a[3][0], 'flo_id'),
                         f'the link is sent to the parent named by the Flo: {show(m, 6)}')
                elif variant(q, 'StoreFlo'):
                    k += 1
                    d = core(m.a[3][0])
                    c.ob('spread', is_call(d, 'flo_id') and core(d.a[1]) is core(q.a[3][0]), f'a Flo is sent to its own id: {show(m, 5)}')
        c.floor('announced', k, 2, 'links and Flos sent when storing')
        c.followed('announces', A, [e for e in A.litedges if is_var(e, 'Parent', lambda t: mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'cuckoo'))],
                   lambda e: e[3] is not None and e[3].kind == 'new' and mentions(e[3].args[0], lambda t: variant(t, 'StoreCuckooID')), A.rets(), 'storing a Flo that has a parent announces it to that parent')
        c.followed('spreads', A, [e for e in A.litedges if lit(e, lambda t: is_call(t, 'RealmStorage::upsert_flo'))],
                   lambda e: e[3] is not None and e[3].kind == 'new' and mentions(e[3].args[0], lambda t: variant(t, 'StoreFlo')) or lit(e, lambda t: is_call(t, 'RealmStorage::upsert_flo'), False), A.rets(), 'a Flo that was stored is sent on to its place')


def called(c, f):
    """The last names of everything called in a function and its closures."""
    r, st = set(), [f]
    while st:
        g = st.pop()
        st += c.F.children.get(g.key, [])
        for b in g.blocks:
            for n in re.findall(r"'fn': '([^']*)'", repr(b['t'])):
                r.add(strip_generics(n).split('::')[-1])
    return r


def calls_keys(f, c):
    r, st = set(), [f]
    while st:
        g = st.pop()
        st += c.F.children.get(g.key, [])
        r |= {k for k in re.findall(r"'(?:key|rk)': '(\(\d+, \d+\))'", repr(g.blocks)) if k in c.F.fns}
    return r


def conds(x):
    """Literals inside the entries of a bag."""
    out = []
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], Term) and isinstance(y[1], bool):
            out.append(y)
        elif isinstance(y, (tuple, frozenset, list)):
            st += list(y)
        elif isinstance(y, Term) and y.op == 'phi':
            st += list(y.a[0])
    return out
