"""The WebSocket server and the connections between two nodes."""
import re
from check import *
from terms import *
from query import *
from query import An

WS = 'flarch::web_rtc::libc::web_socket_server'
CONN = WS + '::WSConnection'
KW = dict(transparent=(WS + '::',))


def last(n):
    return n.split('::')[-1]


def ev(e, *names):
    return e[3] is not None and e[3].kind == 'call' and last(e[3].name) in names


def made(e, *names):
    return e[3] is not None and e[3].kind == 'new' and variant(e[3].args[0], *names)


def is_new(t):
    return t.op == 'call' and t.a[0].startswith(CONN) and last(t.a[0]) == 'new'


def bare(t):
    """Below conversions, copies and unwrapping of a value: the place it comes from."""
    t = core(t)
    while t.op in ('fld', 'as', 'old', 'mut') and is_t(t.a[0]):
        t = core(t.a[0])
    return t


def out_of(t, name, *vs):
    """t is the payload of the given variants of a result of a call to name."""
    t = core(t)
    for v in vs:
        if not (t.op == 'fld' and t.a[0].op == 'as' and t.a[0].a[1] == v):
            return False
        t = core(t.a[0].a[0])
    while t.op in ('fld', 'as') and is_t(t.a[0]):
        t = core(t.a[0])
    return is_call(t, name) or has_call(t, name)


def arith(t):
    return all(s.op in ('loop', 'phi', 'op', 'bin', 'i', 'wid', 'sym', 'old') and (s.op != 'bin' or s.a[0].startswith('Add')) for s in subterms(t) if is_t(s))


def tasks(c, pred, **kw):
    """The functions of the server of which pred holds, without those which only do it through another one."""
    r = []
    for f in c.F.fns.values():
        if f.path.lstrip('<').startswith(WS) and '::tests' not in f.path and not f.derived and f.kind in ('assoc', 'fn', 'coroutine'):
            A = c.an(f, **kw)
            if pred(A):
                r.append((f, A))
    return r


@rule('W01', 'A WebSocket connection is known by one number until its end is told')
def W01(c):
    """The numbers of the connections: from the counter of the accepting task to the key of the insertion, the announcement and the reader of
    that very stream; typestate of the reader (its last word is the disconnection); provenance of what is passed on and of where messages and closings go."""
    # The task accepting connections.
    n = 0
    for f, A in tasks(c, lambda A: any(ev(e, 'accept') for e in A.evedges) and any(e[3].kind == 'call' and e[3].name.startswith(CONN) and last(e[3].name) == 'new' for e in A.evedges), opaque=(CONN + '::new',), steps=True):
        if f.kind != 'coroutine' and any(g.kind == 'coroutine' and g.path.startswith(f.path) for g in c.F.fns.values()):
            continue
        n += 1
        nxt = [e for e in A.evedges if ev(e, 'accept')]
        ins = [e for e in A.evedges if ev(e, 'insert', 'push') and any(mentions(x, is_new) for x in e[3].args[1:])]
        c.floor('kept', len(ins), 1, 'connections accepted which are kept')
        tell = lambda e: ev(e, 'emit_msg_out') and variant(core(e[3].args[1]), 'NewConnection')
        for e in ins:
            k = core(e[3].args[1])
            new = [s for s in subterms(e[3].args[2]) if is_new(s)] if len(e[3].args) > 2 else []
            c.ob('number', len(new) == 1 and any(core(x) is k for x in new[0].a[1:] if is_t(x)), f'a connection is kept under the number it was given: {show(k, 4)}')
            c.ob('counted', arith(k) and mentions(k, lambda s: s.op in ('bin', 'op', 'wid')) or has_call(k, 'fetch_add'), f'the number is a counter: {show(k, 4)}')
            c.ob('stream', len(new) == 1 and mentions(new[0], lambda s: is_call(s, 'accept')), 'the connection is made from the stream accepted')
            if not has_call(k, 'fetch_add'):
                c.followed('another-number', A, [e], lambda y: y[3] is not None and y[3].kind == 'step' and y[3].name == 'Add' and any(show(z) not in '0' for z in y[3].args[1:]), ins, 'the next connection gets another number')
            c.followed('announced', A, [e], tell, nxt + A.rets(), 'a connection which is kept is announced')
        for e in A.evedges:
            if tell(e):
                m = core(core(e[3].args[1]).a[3][0])
                c.ob('announced-number', any(m is core(i[3].args[1]) for i in ins) or arith(m), f'a connection is announced under its number: {show(m, 4)}')
                for y in A.evedges:
                    if y[3].kind == 'step' and A.follow_without(y, lambda z: z in nxt, [e]) is not None:
                        c.ob('announced-same', not any(A.follow_without(i, lambda z: z in nxt, [y]) is not None for i in ins), 'a connection is announced under the number it is kept under')
                c.guarded('announced-kept', A, [e], lambda y: y in ins, 'a connection is announced once it can be used', reset=lambda y: y in nxt)
    c.floor('accepting', n, 1, 'tasks accepting connections')
    # A connection.
    n = 0
    for f in c.F.fns.values():
        if f.kind == 'assoc' and f.path.startswith(CONN) and f.name == 'new' and '::tests' not in f.path:
            A = c.an(f, **KW)
            num = [f.lname(i + 1) for i in range(f.args) if f.lty(i + 1) == 'usize']
            st = [f.lname(i + 1) for i in range(f.args) if 'TcpStream' in f.lty(i + 1)]
            sp = [e for e in A.evedges if ev(e, 'spawn')]
            c.ob('reader', len(sp) == 1 and len(num) == 1 and len(st) == 1, 'a connection has one reader')
            for e in sp:
                n += 1
                caps = [core(x) for t in e[3].args for x in subterms(t)]
                c.ob('reader-number', any(x is T('sym', num[0]) for x in caps), 'the reader has the number of the connection')
                c.ob('reader-stream', any(is_call(x, 'split') and mentions(x, lambda s: s is T('sym', st[0])) for x in caps), 'the reader reads the stream of the connection')
            okr = lambda v: variant(v, 'Ok')
            c.guarded('reader-started', A, A.rets(okr), lambda e: e in sp, 'a connection has a reader')
            for e in A.rets(okr):
                c.ob('writer-stream', mentions(ret_val(e), lambda s: s is T('sym', st[0])), f'the connection writes to its own stream: {show(ret_val(e), 4)}')
        if f.kind == 'assoc' and f.path.startswith(CONN) and '::tests' not in f.path and f.args == 2 and 'String' in f.lty(2):
            A = c.an(f, **KW)
            snd = [e for e in A.evedges if ev(e, 'send', 'start_send', 'feed')]
            for e in snd:
                x = core(e[3].args[1])
                c.ob('sent-text', variant(x, 'Text') and core(x.a[3][0]) is T('sym', f.lname(2)) and not mentions(x, lambda s: s.op == 'part'), f'a message is sent as it is: {show(x, 4)}')
            c.floor('sending', len(snd), 1, 'the sending of a message')
            c.guarded('sent', A, A.rets(lambda v: variant(v, 'Ok')), lambda e: e in snd, 'a message is sent')
    c.floor('readers', n, 1, 'readers of connections')
    # The reader.
    n = 0
    for f, A in tasks(c, lambda A: any(ev(e, 'next') for e in A.evedges) and any(made(e, 'Disconnection') for e in A.evedges), **KW):
        if f.kind != 'coroutine' or any(ev(e, 'spawn') for e in A.evedges):
            continue
        n += 1
        emit = lambda e, *v: ev(e, 'emit_msg_out') and any(variant(core(x), *v) for x in alts(e[3].args[1]))
        rd = [e for e in A.evedges if ev(e, 'next')]
        dis = [e for e in A.evedges if emit(e, 'Disconnection')]
        nums = set()
        for e in A.evedges:
            if made(e, 'Disconnection', 'Message', 'NewConnection'):
                nums.add(core(e[3].args[0].a[3][0]))
            if made(e, 'Message') and len(e[3].args[0].a[3]) == 2:
                m = e[3].args[0].a[3][1]
                c.ob('passed-on', out_of(m, 'next', 'Text') or has_call(m, 'next') and has_field(m, 'Text'), f'what is passed on is a text which was read: {show(m, 4)}')
                c.ob('passed-whole', not mentions(m, lambda s: s.op == 'part' or s.op == 'call' and last(s.a[0]) in ('trim', 'to_lowercase', 'to_uppercase', 'replace', 'split_off', 'truncate')), 'a text is passed on whole')
        c.ob('own-number', len(nums) == 1 and all(t.op == 'sym' for t in nums), f'the reader only speaks about its own connection: {[show(t, 3) for t in nums]}')
        c.guarded('told', A, A.rets(), lambda e: e in dis, 'the end of a connection is told')
        for e in dis:
            c.ob('last-word', A.follow_without(e, lambda y: False, rd) is None, 'nothing is read once the end of a connection was told')
            c.ob('told-once', A.follow_without(e, lambda y: False, [y for y in A.evedges if ev(y, 'emit_msg_out')]) is None, 'the end of a connection is told last, and once')
        got = lambda t: has_call(t, 'next') and not has_call(t, 'emit_msg_out')
        text = [e for e in A.litedges if lit(e, lambda t: t.op == 'is' and t.a[1] == 'Text' and got(t.a[0]), True)]
        c.floor('texts', len(text), 1, 'texts which are read')
        c.followed('text', A, text, lambda e: emit(e, 'Message'), rd + A.rets(), 'every text read is passed on')
        for v in ('None', 'Err', 'Close'):
            end = [e for e in A.litedges if lit(e, lambda t: t.op == 'is' and t.a[1] == v and got(t.a[0]), True) or v == 'None' and lit(e, lambda t: t.op == 'is' and t.a[1] == 'Some' and got(t.a[0]), False)]
            c.floor(f'ends:{v}', len(end), 1, f'the {v} of a stream')
            c.followed(f'ends:{v}', A, end, lambda e: e in dis, rd + A.rets(), f'a stream which gives {v} has ended, which is told')
    c.floor('reading', n, 1, 'tasks reading from connections')
    # Messages and closings.
    n = 0
    for f, A in tasks(c, lambda A: any(ev(e, 'send') and e[3].name.startswith(CONN) for e in A.evedges), opaque=(CONN + '::',)):
        if f.kind != 'assoc':
            continue
        n += 1
        kind = lambda v: [e for e in A.litedges if lit(e, lambda t: t.op == 'is' and t.a[1] == v and core(t.a[0]).op == 'elem', True)]
        onm, onc = kind('Message'), kind('Close')
        c.floor('messages', min(len(onm), len(onc)), 1, 'messages and closings')
        nxt = [e for e in A.litedges if e[2][0].op == 'more']

        def of(t, v, i):
            t = core(t)
            return t.op == 'fld' and t.a[1] == i and t.a[0].op == 'as' and t.a[0].a[1] == v and core(t.a[0].a[0]).op == 'elem'

        for e in A.evedges:
            if ev(e, 'send') and e[3].name.startswith(CONN):
                q = at(e[3].args[0])
                c.ob('sent-to', all(of(x, 'Message', '0') for x in q), f'a message goes to the connection with its number: {[show(x, 4) for x in q]}')
                c.ob('sent-what', of(e[3].args[1], 'Message', '1'), f'the message is sent as it is: {show(e[3].args[1], 4)}')
            if ev(e, 'close') and e[3].name.startswith(CONN):
                q = at(e[3].args[0])
                c.ob('close-which', all(of(x, 'Close', '0') or of(x, 'Message', '0') for x in q), f'the connection with the number given is closed: {[show(x, 4) for x in q]}')
            if ev(e, 'remove', 'remove_entry') and 'HashMap' in e[3].name or ev(e, 'swap_remove', 'remove') and 'Vec' in e[3].name:
                q = e[3].args[1]
                c.ob('remove-which', 'Vec' not in e[3].name and (of(q, 'Close', '0') or of(q, 'Message', '0')), f'the connection with the number given is removed: {show(q, 4)}')
                c.guarded('remove-why', A, [e], lambda y: y in onc or lit(y, lambda t: t.op == 'is' and t.a[1] == 'Err' and has_call(t.a[0], 'send'), True), 'connections are removed if they are closed, or failed', reset=lambda y: y in nxt)
        def hasnot(e, v):
            return (lit(e, lambda t: t.op == 'is' and t.a[1] == 'Some' and t.a[0].op == 'get' and of(t.a[0].a[1], v, '0') or t.op == 'contains' and of(t.a[1], v, '0'), False)
                    or lit(e, lambda t: t.op == 'is' and t.a[1] == 'None' and t.a[0].op == 'get' and of(t.a[0].a[1], v, '0'), True))
        ends = A.rets() + nxt
        snd = lambda e: ev(e, 'send') and e[3].name.startswith(CONN)
        c.followed('is-sent', A, onm, lambda e: snd(e) or hasnot(e, 'Message'), ends, 'a message for a connection there is, is sent')
        c.followed('is-closed', A, onc, lambda e: ev(e, 'remove', 'remove_entry') or hasnot(e, 'Close'), ends, 'a connection which shall be closed is removed')
        err = [e for e in A.litedges if lit(e, lambda t: t.op == 'is' and t.a[1] == 'Err' and has_call(t.a[0], 'send'), True)]
        c.followed('failed-removed', A, err, lambda e: ev(e, 'remove', 'remove_entry'), ends, 'a connection on which sending failed is removed')
        c.ob('all', not any(mentions(l[0], lambda s: s.op == 'part') for l in A.lits()), 'no message is left out')
    c.floor('handlers', n, 1, 'handlers of messages to connections')


def at(t):
    """The keys of the entries of a map that t may be."""
    t = core(t)
    if t.op == 'phi':
        return {k for x in alts(t) for k in at(x)}
    if t.op == 'at':
        return {core(t.a[1])}
    if t.op in ('mut', 'fld', 'as', 'old', 'ins') and is_t(t.a[0]):
        return at(t.a[0])
    return {t}


# The connection of two nodes.
NC = 'flarch::web_rtc::node_connection'


def ncfns(c):
    return [f for f in c.F.fns.values() if f.path.lstrip('<').startswith(NC + '::') and '::test' not in f.path and not f.derived and f.kind in ('assoc', 'fn')]


def isnone(t):
    return variant(core(t), 'None')


def some(t):
    t = core(t)
    return core(t.a[3][0]) if variant(t, 'Some') and t.a[3] else None


def fields(t):
    return dict(zip(t.a[2], t.a[3]))


def splitters(c):
    r = []
    for f in ncfns(c):
        A = c.an(f, transparent=(NC + '::',))
        if any(e[3].kind == 'new' and 'Packet' in e[3].args[0].a[0] for e in A.evedges) and any(last(e[3].name) == 'to_string' and e[3].kind == 'call' for e in A.evedges):
            r.append((f, A))
    low = [f.npath for f, A in r if not any(e[3].kind == 'call' and e[3].name in {g.npath for g, _ in r} - {f.npath} for e in A.evedges)]
    return [(f, A) for f, A in r if f.npath in low]


def is_packets(t):
    return t.op == 'fld' and t.a[1] == 'packets'


def collectors(c):
    r = []
    for f in ncfns(c):
        A = c.an(f, transparent=(NC + '::',))
        if any(ev(e, 'from_str', 'from_slice') for e in A.evedges) and any(ev(e, 'insert') for e in A.evedges):
            r.append((f, A))
    low = [f.npath for f, A in r if not any(e[3].kind == 'call' and e[3].name in {g.npath for g, _ in r} - {f.npath} for e in A.evedges)]
    return [(f, A) for f, A in r if f.npath in low]


@rule('P01', 'A text sent to another node arrives whole and unchanged, or not at all')
def P01(c):
    """Provenance of the fields of every packet made (pieces, their numbers, their count, the id common to all), of what is kept of a packet
    received, and of the text handed out; guards of the latter by the number of parts which are there; one format for writing and reading."""
    fmt = set()
    sp = splitters(c)
    c.floor('splitters', len(sp), 1, 'functions making packets')
    for f, A in sp:
        src = [T('sym', f.lname(i + 1)) for i in range(f.args) if 'String' in f.lty(i + 1) or 'str' in f.lty(i + 1)]
        c.ob('source', len(src) == 1, 'packets are made of one text')
        one = more = 0
        for e in A.evedges:
            if e[3].kind == 'call' and last(e[3].name) in ('to_string', 'to_vec') and e[3].name.startswith('serde_') and any('Packet' in s.a[0] for s in subterms(e[3].args[0]) if s.op == 'agg'):
                fmt.add(e[3].name.split('::')[0])
            if not (e[3].kind == 'new' and e[3].args[0].op == 'agg' and 'Packet' in e[3].args[0].a[0]):
                continue
            p = fields(e[3].args[0])
            d = core(p['data'])
            cut = mentions(p['data'], lambda s: s.op == 'part')
            if all(isnone(p[k]) for k in ('id', 'part', 'total')):
                one += 1
                c.ob('whole', d is src[0] and not cut, f'a packet alone holds the whole text: {show(d, 4)}')
                continue
            more += 1
            i, n, t = (some(p[k]) for k in ('id', 'part', 'total'))
            c.ob('described', None not in (i, n, t), 'one of several packets has an id, a number and their total')
            if None in (i, n, t):
                continue
            el = [s for s in subterms(p['data']) if s.op == 'elem']
            c.ob('piece', bool(el) and not cut and any(mentions(s, lambda x: x is src[0]) and has_chunks(s) for s in el), f'a packet holds a piece of the text: {show(p["data"], 4)}')
            c.ob('piece-number', n.op == 'idx' and any(core(n.a[0]) is core(s) for s in el) and not mentions(n, lambda s: s.op == 'part'), f'a packet has the number of its piece: {show(n, 4)}')
            c.ob('total', is_len(t) and not mentions(t, lambda s: s.op == 'part') and all_of(t.a[-1], el), f'the total is the number of pieces: {show(t, 4)}')
            fresh = [y for y in A.evedges if y[3].kind == 'call' and is_call(i, y[3].name)]
            c.ob('fresh', is_call(i, 'rnd') and bool(fresh), f'the id of the packets of a text is new: {show(i, 3)}')
            for y in fresh:
                c.ob('one-id', A.follow_without(y, lambda z: False, fresh) is None, 'all packets of a text have the same id')
        c.floor('single', one, 1, 'packets alone')
        c.floor('several', more, 1, 'packets of several')
        nopart(c, A)
        for e in A.rets():
            v = ret_val(e)
            for b in subterms(v):
                if b.op == 'bag':
                    for i, cs in b.a[1]:
                        for l in cs:
                            c.ob('each', l[0].op == 'is' and has_call(l[0], 'to_string', 'to_vec') or has_chunks(l[0]) and l[0].op == 'more', f'no packet is left out: {lit_show(l)}')
            c.ob('returned', not mentions(v, lambda s: s.op == 'part') and any(s.op == 'agg' and 'Packet' in s.a[0] for s in subterms(v)), f'all packets made are returned: {show(v, 3)}')
    cs = collectors(c)
    c.floor('collectors', len(cs), 1, 'functions collecting packets')
    for f, A in cs:
        rd = [e for e in A.evedges if ev(e, 'from_str', 'from_slice') and e[3].name.startswith('serde_')]
        for e in rd:
            fmt.add(e[3].name.split('::')[0])
            c.ob('reads', core(e[3].args[0]).op == 'sym', 'what is read is what was received')
        pk = lambda t, k: core(t).op == 'fld' and core(t).a[1] == '0' and core(t).a[0].op == 'as' and core(t).a[0].a[1] == 'Some' and is_f(core(t).a[0].a[0], k)
        is_f = lambda t, k: core(t).op == 'fld' and core(t).a[1] == k and out_of(core(t).a[0], 'from_str', 'Ok')
        ins = [e for e in A.evedges if ev(e, 'insert') and not mentions(e[3].args[2], lambda s: s.op == 'default') and mentions(e[3].args[2], lambda s: s.op == 'fld' and s.a[1] == 'data')]
        c.floor('kept', len(ins), 1, 'insertions of parts')
        for e in ins:
            w = e[3].args[0]
            ks = at(w)
            c.ob('kept-id', len(ks) == 1 and all(pk(k, 'id') for k in ks), f'a part is kept under the id of its packet: {[show(k, 4) for k in ks]}')
            c.ob('kept-number', 'BTreeMap' in e[3].name and pk(e[3].args[1], 'part'), f'a part is kept, in order, under its number: {show(e[3].args[1], 4)}')
            c.ob('kept-data', is_f(e[3].args[2], 'data') and not mentions(e[3].args[2], lambda s: s.op == 'part'), f'the part of a packet is kept: {show(e[3].args[2], 4)}')
            lt = lambda t: t.op == 'lt' and pk(t.a[0], 'part') and pk(t.a[1], 'total')
            ge = lambda t: t.op == 'le' and pk(t.a[1], 'part') and pk(t.a[0], 'total')
            c.guarded('kept-below', A, [e], lambda y: lit(y, lt, True) or lit(y, ge, False), 'the number of a part is below the total')
        nopart(c, A)
        n = 0
        for e in A.rets():
            for v in alts(ret_val(e)):
                s = some(v)
                if s is None:
                    c.ob('else-none', isnone(v), f'nothing is handed out otherwise: {show(v, 4)}')
                    continue
                kinds = alts(s)
                for x in map(core, kinds):
                    if is_f(x, 'data'):
                        continue
                    n += 1
                    els = [y for y in subterms(x) if y.op == 'elem']
                    c.ob('joined', bool(els) and not mentions(x, lambda y: y.op == 'part') and all(all(pk(k, 'id') for k in at(y.a[0])) for y in els if at(y.a[0]) and not is_call(core(y.a[0]), 'x')), f'what is handed out are all the parts of the id: {show(x, 4)}')
        c.floor('joined', n, 1, 'texts put together')
        long_ = [e for e in A.rets() if any(some(v) is not None and any(not is_f(x, 'data') for x in alts(some(v))) for v in alts(ret_val(e)))]
        rem = [e for e in A.evedges if ev(e, 'remove', 'remove_entry') and place(e) == 'packets']
        for e in rem:
            c.ob('removed-id', pk(e[3].args[1], 'id'), f'only the parts put together are removed: {show(e[3].args[1], 4)}')
            cnt = lambda t: is_len(t) and any(pk(k, 'id') for k in at(t.a[-1]))
            full = lambda y: (lit(y, lambda t: t.op == 'lt' and cnt(core(t.a[0])) and pk(t.a[1], 'total'), False) or lit(y, lambda t: t.op == 'le' and pk(t.a[0], 'total') and cnt(core(t.a[1])), True)
                              or lit(y, lambda t: t.op == 'eq' and any(cnt(core(z)) for z in t.a) and any(pk(z, 'total') for z in t.a), True))
            c.guarded('full-only', A, [e], full, 'parts are put together once all of them are there')
            c.guarded('complete-last', A, [e], lambda y: y in ins, 'parts are put together once the last one is kept')
        c.floor('removed', len(rem), 1, 'removals of the parts put together')
        c.guarded('emptied', A, long_, lambda y: y in rem or lit(y, lambda t: t.op == 'is' and t.a[1] in ('id', 'part', 'total'), True) or lit(y, lambda t: t.op == 'is' and t.a[1] == 'None' and any(is_f(t.a[0], k) for k in ('id', 'part', 'total')), True) or lit(y, lambda t: t.op == 'is' and t.a[1] == 'Some' and any(is_f(t.a[0], k) for k in ('id', 'part', 'total')), False), 'parts which were put together are not kept any longer')
        alone = [e for e in A.litedges for k in ('id', 'part', 'total') if lit(e, lambda t: t.op == 'is' and t.a[1] == 'None' and is_f(t.a[0], k), True) or lit(e, lambda t: t.op == 'is' and t.a[1] == 'Some' and is_f(t.a[0], k), False)]
        c.floor('alone', len(alone), 1, 'packets alone, received')
        for e in alone:
            p = A.follow_without(e, lambda y: False, [r for r in A.rets() if not any(some(v) is not None and any(is_f(x, 'data') for x in alts(some(v))) for v in alts(ret_val(r)))])
            c.ob('alone', p is None, 'a packet alone is handed out at once', p)
        c.followed('full', A, [e for e in A.litedges if rem and full(e)], lambda y: y in rem, A.rets(), 'parts which are all there are put together')
    own = {f.impl for f, A in cs}
    rev = [f.path for f in c.F.fns.values() if f.path.startswith(NC) and '::test' not in f.path and c.F.top(f).impl in own and re.search(r"(Iterator|IteratorExt|Itertools)::(rev|sorted)|slice::(sort|reverse)", repr(f.blocks))]
    c.ob('ordered', not rev, f'the parts are put together in the order of their numbers: {rev}')
    c.ob('format', len(fmt) == 1, f'packets are read in the format they are written in: {sorted(fmt)}')


def nopart(c, A):
    bad = [l for l in A.lits() if mentions(l[0], lambda s: s.op == 'part')]
    c.ob('complete', not bad, f'nothing is left out or reordered: {[lit_show(l) for l in bad][:2]}')


def is_len(t):
    return t.op == 'len' or is_call(t, 'len')


def has_chunks(t):
    return has_call(t, 'chunks')


def all_of(t, el):
    """t has one item per element of el's collection."""
    t = core(t)
    base = {core(s.a[0]) for s in el}
    if t in base:
        return True
    if t.op == 'bag' and len(t.a[1]) == 1:
        return all(not cs and core(i).op == 'elem' and core(core(i).a[0]) in base for i, cs in t.a[1]) and t.a[0].op == 'coll0'
    return is_call(t, 'chunks')


DIRS = {'Incoming': 'state_incoming', 'Outgoing': 'state_outgoing'}


@rule('P02', 'Texts for a node wait until a direction is open, then all go out')
def P02(c):
    """All paths of the functions handling one message of a connection of two nodes: the guards of what leaves the queue, by the state of the direction it is sent on; the queue is
    only emptied into what is sent; what changes the states; the direction named in every output; wiring of the two directions."""
    sp, cs = [f.npath for f, A in splitters(c)], [f.npath for f, A in collectors(c)]
    kw = dict(transparent=(NC + '::',), opaque=tuple(sp + cs))
    todo = []
    for f in ncfns(c):
        tys = [f.lty(i + 1) for i in range(f.args)]
        if any(re.search(r'(^|::)(NCInput|WebRTCOutput)$', t) for t in tys):
            todo.append((f, c.an(f, **kw), {('NCInput' if t.endswith('NCInput') else 'WebRTCOutput'): T('sym', f.lname(i + 1)) for i, t in enumerate(tys) if re.search(r'(^|::)(NCInput|WebRTCOutput)$', t)},
                         [T('sym', f.lname(i + 1)) for i, t in enumerate(tys) if re.search(r'(^|::)Direction$', t)]))
    todo = [x for x in todo if x[0].args <= 3]
    c.floor('handlers', len([x for x in todo if 'NCInput' in x[2]]), 1, 'functions handling requests to a connection')
    c.floor('handlers:conn', len([x for x in todo if 'WebRTCOutput' in x[2] and x[3]]), 1, 'functions handling what comes from a direction')

    def state(t, d):
        return mentions(t, lambda s: s.op == 'fld' and s.a[1] == DIRS[d])

    def is_open(e, d):
        if e[3] is not None and e[3].kind == 'write' and place(e) == DIRS[d]:
            s = some(e[3].args[1])
            return s is not None and s.op == 'agg' and 'data_connection' in s.a[2] and some(fields(s)['data_connection']) is not None and variant(some(fields(s)['data_connection']), 'Open')
        return lit(e, lambda t: t.op == 'is' and t.a[1] == 'Open' and state(t.a[0], d) and has_field(t.a[0], 'data_connection'), True) or \
            lit(e, lambda t: t.op == 'eq' and any(state(x, d) and has_field(x, 'data_connection') for x in t.a) and any(variant(x, 'Open') or some(x) is not None and variant(some(x), 'Open') for x in t.a), True)

    def closed(e, d):
        return lit(e, lambda t: t.op == 'is' and t.a[1] in ('Open', 'Some') and state(t.a[0], d), False) or lit(e, lambda t: t.op == 'is' and t.a[1] not in ('Open', 'Some') and state(t.a[0], d), True) or \
            lit(e, lambda t: t.op == 'eq' and any(state(x, d) and has_field(x, 'data_connection') for x in t.a), False)
    q = lambda t: mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'msg_queue')
    empty = lambda e: lit(e, lambda t: t.op == 'lt' and show(t.a[0]) == '0' and q(t.a[1]), False) or lit(e, lambda t: t.op == 'more' and q(t.a[0]), False) or lit(e, lambda t: t.op == 'eq' and any(show(x) == '0' for x in t.a) and q(t), True) or \
        lit(e, lambda t: t.op in ('call', 'empty') and q(t) and 'is_empty' in show(t), True)
    n = dr = 0
    for f, A, arg, dirs in todo:
        def drains(e):
            return e[3].kind == 'call' and e[3].args and place(e) == 'msg_queue' and last(e[3].name) in ('drain', 'clear', 'pop', 'remove', 'truncate', 'take', 'swap_remove', 'split_off', 'retain') or \
                e[3].kind == 'write' and place(e) == 'msg_queue' and not q(e[3].args[1])
        drain = [e for e in A.evedges if drains(e)]
        outs = lambda v: [s for s in subterms(v) if variant(s, 'Incoming', 'Outgoing') and s.a[3] and variant(core(s.a[3][0]), 'Text')]
        for e in A.evedges:
            for d in DIRS:
                if made(e, d) and e[3].args[0].a[3] and variant(core(e[3].args[0].a[3][0]), 'Text'):
                    n += 1
                    x = core(core(e[3].args[0].a[3][0]).a[3][0])
                    c.guarded(f'open:{d}', A, [e], lambda y: is_open(y, d), f'texts are only sent on an open direction ({d})')
                    c.ob('queued', x.op == 'elem' and (q(x) or has_call(x, *sp)) and not mentions(x, lambda s: s.op == 'part'), f'what is sent are the queued texts: {show(x, 4)}')
        for e in drain:
            dr += 1
            c.ob('drained-all', last(e[3].name) in ('drain', 'take') and (len(e[3].args) < 2 or 'RangeFull' in show(e[3].args[1])) or e[3].kind == 'write', f'the whole queue is sent: {last(e[3].name)}')
            c.guarded('drained-open', A, [e], lambda y: any(is_open(y, d) for d in DIRS), 'the queue is only emptied if a direction is open')
            p = A.follow_without(e, lambda y: False, [r for r in A.rets() if not outs(ret_val(r))])
            c.ob('drained-sent', p is None, 'what is taken out of the queue is sent', p)
        if 'NCInput' in arg:
            a = arg['NCInput']
            on = [e for e in A.litedges if lit(e, lambda t: t.op == 'is' and t.a[1] == 'Text' and t.a[0] is a, True)]
            for e in A.evedges:
                if any(e[3].kind == 'write' and place(e) == DIRS[d] and is_open(e, d) for d in DIRS):
                    c.ob('open-why', False, 'a direction is only open once it is connected')
            add = [e for e in A.evedges if ev(e, 'append', 'extend', 'push', 'extend_from_slice') and place(e) == 'msg_queue']
            c.floor('texts', len(on), 1, 'texts to send')
            c.followed('text-queued', A, on, lambda e: e in add, A.rets(), 'a text to send is queued')
            for e in add:
                x = e[3].args[1]
                c.ob('text-all', has_call(x, *sp) and not mentions(x, lambda s: s.op == 'part') and all(core(y.a[1]) is T('fld', T('as', a, 'Text'), '0') for y in subterms(x) if is_call(y, *sp)), f'all packets of the text are queued: {show(x, 4)}')
                for d in DIRS:
                    p = A.follow_without(e, lambda y: y in drain or closed(y, d) or empty(y), A.rets())
                    c.ob(f'text-sent:{d}', p is None, f'a text to send is sent at once if {d} is open', p)
        if 'WebRTCOutput' in arg and dirs:
            a, dd = arg['WebRTCOutput'], dirs[0]
            isdir = lambda d: (lambda e: lit(e, lambda t: t.op == 'is' and t.a[1] == d and t.a[0] is dd, True) or lit(e, lambda t: t.op == 'is' and t.a[1] != d and t.a[0] is dd, False) or
                               lit(e, lambda t: t.op == 'eq' and dd in t.a and any(variant(x, d) for x in t.a), True) or lit(e, lambda t: t.op == 'eq' and dd in t.a and any(variant(x, *(set(DIRS) - {d})) for x in t.a), False))
            on = lambda *v: [e for e in A.litedges if lit(e, lambda t: t.op == 'is' and t.a[1] in v and t.a[0] is a, True)]
            told = lambda v, name: any(variant(s, name) and s.a[3] and core(s.a[3][0]) is dd for s in subterms(v))
            for d in DIRS:
                for e in A.evedges:
                    if e[3].kind == 'write' and place(e) == DIRS[d]:
                        c.guarded(f'own-state:{d}', A, [e], isdir(d), f'a direction changes its own state ({d})')
                        s = some(e[3].args[1])
                        if s is None:
                            c.ob('none', isnone(e[3].args[1]), 'a state is known, or not')
                            c.guarded('lost-why', A, [e], lambda y: y in on('Disconnected', 'Error'), 'a state is forgotten at a disconnection or error')
                        elif is_open(e, d):
                            c.guarded('open-why', A, [e], lambda y: y in on('Connected'), 'a direction is open once it is connected')
                        else:
                            c.ob('state-what', s is T('fld', T('as', a, 'State'), '0'), f'a state is the one told: {show(s, 4)}')
                    if made(e, d) and e[3].args[0].a[3] and variant(core(e[3].args[0].a[3][0]), 'Reset', 'Disconnect'):
                        c.guarded(f'reset:{d}', A, [e], isdir(d), f'the direction which failed is reset ({d})')
                w = lambda y: y[3] is not None and y[3].kind == 'write' and place(y) == DIRS[d]
                other = isdir('Outgoing' if d == 'Incoming' else 'Incoming')
                c.followed(f'lost:{d}', A, on('Disconnected', 'Error'), lambda y: w(y) and isnone(y[3].args[1]) or other(y), A.rets(), f'the state of a direction is forgotten when it ends ({d})')
                c.followed(f'connected:{d}', A, on('Connected'), lambda y: w(y) and is_open(y, d) or other(y), A.rets(), f'a direction is open once it is connected ({d})')
                c.followed(f'state:{d}', A, on('State'), lambda y: w(y) or other(y), A.rets(), f'the state told is taken over ({d})')
            for e in on('Connected'):
                p = A.follow_without(e, lambda y: y in drain or empty(y), A.rets())
                c.ob('connected-sent', p is None, 'what is queued is sent once a direction is connected', p)
            for v, name in (('Connected', 'Connected'), ('Disconnected', 'Disconnected'), ('Error', 'Disconnected'), ('Setup', 'Setup'), ('State', 'State')):
                es = on(v)
                c.floor(f'on:{v}', len(es), 1, f'the message {v}')
                for e in es:
                    p = A.follow_without(e, lambda y: False, [r for r in A.rets() if not told(ret_val(r), name)])
                    c.ob(f'told:{v}', p is None, f'{v} of a direction is passed on', p)
            for e in A.evedges:
                if made(e, 'Connected', 'Disconnected', 'Setup', 'State') and e[3].args[0].a[3] and 'NCOutput' in e[3].args[0].a[0]:
                    c.ob('direction', core(e[3].args[0].a[3][0]) is dd, f'what is passed on names the direction it comes from: {show(e[3].args[0], 4)}')
                    if len(e[3].args[0].a[3]) > 1:
                        x = core(e[3].args[0].a[3][1])
                        c.ob('payload', x is T('fld', T('as', a, e[3].args[0].a[1]), '0'), f'what is passed on is what came: {show(x, 4)}')
            txt = [e for e in A.evedges if e[3].kind == 'call' and e[3].name in cs]
            c.followed('collected', A, on('Text'), lambda e: e in txt, A.rets(), 'every packet is collected')
            for e in txt:
                c.ob('collected-what', core(e[3].args[1]) is T('fld', T('as', a, 'Text'), '0'), f'a packet is collected as it came: {show(e[3].args[1], 4)}')
            got = [e for e in A.litedges if lit(e, lambda t: t.op == 'is' and t.a[1] == 'Some' and is_call(core(t.a[0]), *cs), True)]
            c.floor('text-got', len(got), 1, 'texts put together')
            for e in got:
                p = A.follow_without(e, lambda y: False, [r for r in A.rets() if not any(variant(s, 'Text') and s.a[3] and out_of(s.a[3][0], cs[0], 'Some') for s in subterms(ret_val(r)))])
                c.ob('text-out', p is None, 'a text put together is handed out', p)
    c.floor('sent', n, 2, 'texts sent')
    c.floor('drained', dr, 1, 'the emptying of the queue')
    # Dispatching of the messages to the functions above.
    names = {f.npath: (f, arg, dirs) for f, A, arg, dirs in todo}
    k = 0
    for f in ncfns(c):
        if f.npath in names:
            continue
        A = c.an(f, transparent=(NC + '::',), opaque=tuple(names) + kw['opaque'])
        for e in A.evedges:
            if e[3].kind == 'call' and e[3].name in names:
                k += 1
                g, arg, dirs = names[e[3].name]
                if dirs:
                    dv = [x for x in e[3].args if variant(core(x), *DIRS)]
                    ms = [core(x) for x in e[3].args if core(x).op == 'fld' and core(x).a[0].op == 'as']
                    c.ob('dispatched', len(dv) == 1 and len(ms) == 1 and core(dv[0]).a[1] == ms[0].a[0].a[1], f'a message is handled for the direction it comes from: {show(e[3].args[-1], 4)}')
                for r in A.rets():
                    p = A.follow_without(e, lambda y: False, [r]) if not has_call(ret_val(r), e[3].name) and not mentions(ret_val(r), lambda s: s.op == 'wid') else None
                    c.ob('dispatched-result', p is None, f'what {g.name} answers is sent', p)
        if any(e[3].kind == 'call' and e[3].name in names for e in A.evedges):
            nopart(c, A)
            for d in DIRS:
                on = [e for e in A.litedges if lit(e, lambda t: t.op == 'is' and t.a[1] == d and core(t.a[0]).op == 'elem', True)]
                c.followed(f'dispatch:{d}', A, on, lambda e: e[3] is not None and e[3].kind == 'call' and e[3].name in names and names[e[3].name][2], A.rets() + [e for e in A.litedges if e[2][0].op == 'more'], f'a message from {d} is handled')
    c.floor('dispatch', k, 2, 'messages handed to their functions')
    # The wiring of the two directions.
    links = {}
    for f in ncfns(c):
        for g in [f] + [x for x in c.F.fns.values() if x.kind == 'coroutine' and c.F.top(x) is f]:
            A = c.an(g)
            for e in A.evedges:
                if ev(e, 'add_translator_link'):
                    links.setdefault(g.kind == 'coroutine', []).append((A, e))
    ls = links.get(True) or links.get(False) or []
    c.floor('links', len(ls), 2, 'links to the directions')
    clos = [x for x in c.F.fns.values() if x.kind == 'closure' and x.path.startswith(NC) and '::test' not in x.path and ('NCOutput' in ' '.join(x.lty(i + 1) for i in range(x.args)) or 'WebRTCOutput' in ' '.join(x.lty(i + 1) for i in range(x.args)))]
    outv, inv = [], []
    for x in clos:
        A = c.an(x)
        p = T('sym', x.lname(x.args))
        for r in A.rets():
            for v in alts(ret_val(r)):
                s = some(v)
                if s is None:
                    continue
                if s.op == 'fld' and s.a[0].op == 'as' and s.a[0].a[0] is p:
                    outv.append((x, s.a[0].a[1]))
                elif variant(s, *DIRS):
                    inv.append((x, s.a[1], core(s.a[3][0]) is p))
    c.ob('links-out', {v for _, v in outv} == set(DIRS), f'both directions get what is sent to them: {[v for _, v in outv]}')
    c.ob('links-in', {v for _, v, ok in inv if ok} == set(DIRS) and all(ok for _, _, ok in inv), f'what comes from both directions is passed on: {[v for _, v, _ in inv]}')
    pairs = pair_up(c, ls, outv, inv)
    c.ob('links-pair', pairs is not None and all(a == b for a, b in pairs) and len(pairs) == 2, f'each direction has one link: {pairs}')


def pair_up(c, ls, outv, inv):
    r = set()
    o = {x.key: v for x, v in outv}
    i = {x.key: v for x, v, _ in inv}
    for A, e in ls:
        ks = [k for a in e[3].args[1:] for s in subterms(a) for k in [clos_key(s)] if k is not None]
        a, b = [o[k] for k in ks if k in o], [i[k] for k in ks if k in i]
        if len(set(a)) == 1 and len(set(b)) == 1:
            r.add((a[0], b[0]))
        else:
            return None
    return r


def clos_key(s):
    return s.a[0] if s.op == 'clo' else None
