"""The web proxy: requests of other nodes to pages of the web, and their answers."""
from check import *
from terms import *
from query import *
from query import An

W = 'flmodules::web_proxy::'


def last(n):
    return n.split('::')[-1]


def ev(e, *names):
    return e[3] is not None and e[3].kind == 'call' and last(e[3].name) in names


def made(e, *names):
    return e[3] is not None and e[3].kind == 'new' and variant(e[3].args[0], *names)


def part(t, v, i):
    """Field i of a value of the variant v, unchanged."""
    t = core(t)
    return t.op == 'fld' and t.a[1] == str(i) and t.a[0].op == 'as' and t.a[0].a[1] == v


def within(t, field):
    """Something of the field (also of its widened states)."""
    return mentions(t, lambda x: x.op == 'fld' and x.a[1] == field or x.op == 'wid' and f"'.{field}'" in repr(x.a))


def handlers(c):
    """The analysis of what handles the messages of the module, with everything it calls."""
    for f in c.F.fns.values():
        if f.path.startswith(f'<{W}') and f.name == 'messages' and f.kind == 'assoc' and '::test' not in f.path:
            yield f, c.an(f)


def spawned(c, e):
    """The coroutine started by the event, and what its captured variables are."""
    t = next((x for a in e[3].args for x in [core(a)] if x.op == 'clo'), None)
    g = c.F.fns.get(t.a[0]) if t is not None else None
    if g is None:
        return None, {}
    return g, {n: v for n, v in zip(g.upvars, t.a[2])}


src = lambda t: part(t, 'NetworkWrapperFromNetwork', 0)


def asked(pol):
    """The sender is (not) the node which was asked."""
    def f(e):
        if lit(e, lambda t: t.op == 'eq' and any(src(x) for x in t.a) and any(within(x, 'requests') for x in t.a), pol):
            return True
        # Nothing was asked under this number.
        return not pol and (is_var(e, 'None', lambda t: within(t, 'requests') and not has_call(t, 'send')) or
                            lit(e, lambda t: is_call(t, 'contains_key') and within(t, 'requests'), False))
    return f


def chan(t, side):
    """The channel this is the given side of."""
    while t.op == 'old':
        t = t.a[0]
    if t.op == 'fld' and t.a[1] == str(side) and t.a[0].op == 'call' and 'channel' in last(t.a[0].a[0]):
        return t.a[0]


@rule('A01', 'The answer to a proxy request is the one of the asked node, in order')
def A01(c):
    """The handler of the messages, with everything it calls: what happens with answers, and where requests go; the task forwarding the parts
    of an answer; and the function waiting for it."""
    n = 0
    for f, A in handlers(c):
        n += 1
        nonce = lambda t: part(t, 'Response', 0)
        body = lambda t: part(t, 'Body', 0)
        sends = [e for e in A.evedges if ev(e, 'send', 'try_send', 'blocking_send', 'send_timeout') and within(e[3].args[0], 'requests')]
        ends = [e for e in A.evedges if ev(e, 'remove', 'remove_entry') and place(e) == 'requests' and nonce(e[3].args[1])]
        heads = [e for e in A.evedges if made(e, 'ResponseGet')]
        c.floor('effects', len(sends) + len(ends) + len(heads), 4, 'places handling answers')
        c.guarded('asked-only', A, sends + ends + heads, asked(True), 'an answer is only taken from the node which was asked')
        for e in sends:
            c.ob('body', body(e[3].args[1]) and last(e[3].name) == 'send', f'a part of the answer is passed on unchanged: {show(e[3].args[1], 5)}')
            c.ob('body-of', mentions(e[3].args[0], nonce), f'a part is passed on to the request it belongs to: {show(e[3].args[0], 5)}')
        for e in heads:
            v = e[3].args[0].a[3]
            c.ob('header', len(v) == 3 and src(v[0]) and nonce(v[1]) and part(v[2], 'Header', 0), f'the header is announced unchanged, with its sender and request: {show(e[3].args[0], 6)}')
        is_msg = lambda v: [e for e in A.litedges if is_var(e, v, lambda t: part(t, 'Response', 1))]
        stop = A.rets() + [e for e in A.litedges if lit(e, lambda t: t.op == 'more' and t.a[0].op == 'sym', None)]
        c.followed('header-told', A, is_msg('Header'), lambda e: e in heads or asked(False)(e), stop, 'every header of the asked node is announced')
        c.followed('body-told', A, is_msg('Body'), lambda e: e in sends or asked(False)(e), stop, 'every part of the asked node is passed on')
        for v in ('Done', 'Error'):
            c.followed(f'ends:{v}', A, is_msg(v), lambda e: e in ends or asked(False)(e), stop, f'{v} of the asked node ends the answer')
        # Requests.
        ins = [e for e in A.evedges if ev(e, 'insert') and place(e) == 'requests']
        rnd = lambda t: part(t, 'RequestGet', 0)
        outs = [e for e in A.evedges if made(e, 'NetworkWrapperToNetwork') and mentions(e[3].args[0], lambda t: variant(t, 'Request'))]
        c.ob('requests', ins and outs, f'requests are kept and sent: {len(ins)}, {len(outs)}')
        for e in outs:
            q = [t for t in subterms(e[3].args[0]) if variant(t, 'Request')]
            c.ob('request', all(len(t.a[3]) == 2 and rnd(t.a[3][0]) and part(t.a[3][1], 'RequestGet', 1) for t in q), f'the request is sent under its number: {[show(t, 5) for t in q]}')
            d = core(e[3].args[0].a[3][0])
            kept = [core(x) for i in ins for t in subterms(i[3].args[2]) if t.op == 'agg' and t.a[0] == 'tuple' for x in t.a[3]] + [core(i[3].args[2]) for i in ins]
            c.ob('asked-kept', d in kept, f'the node asked is the one kept with the request: {show(d, 4)}')
            c.ob('asked-known', within(d, 'nodes'), f'the node asked is one of the proxies: {show(d, 4)}')
        c.guarded('kept-first', A, outs, lambda e: e in ins, 'a request is kept when it is sent')
        for e in ins:
            c.ob('request-key', rnd(e[3].args[1]), f'a request is kept under its number: {show(e[3].args[1], 4)}')
            S = [x for t in subterms(e[3].args[2]) for x in [chan(t, 0)] if x is not None]
            if any(part(t, 'RequestGet', 2) for t in subterms(e[3].args[2])):
                # Passed on directly.
                continue
            fw = [s for s in A.evedges if s[3].kind == 'call' and 'spawn' in last(s[3].name) for g, cap in [spawned(c, s)]
                  if g is not None and any(chan(v, 1) in S for v in cap.values())]
            c.ob('forwarded', len(fw) >= 1, 'a task forwards the parts of the answer')
            c.guarded('forwarder', A, outs, lambda x: x in fw, 'the task forwarding the parts is started before the request is sent')
            for s in fw:
                g, cap = spawned(c, s)
                rx = [k for k, v in cap.items() if chan(v, 1) in S]
                tx = [k for k, v in cap.items() if part(v, 'RequestGet', 2)]
                B = c.an(g)
                out = [x for x in B.evedges if ev(x, 'send', 'try_send', 'blocking_send', 'send_timeout')]
                got = lambda t: mentions(t, lambda y: is_call(y, 'recv') and mentions(y.a[1], lambda z: z.op == 'sym' and z.a[0] in rx))
                c.ob('forward', out and tx and all(last(x[3].name) == 'send' and mentions(x[3].args[0], lambda z: z.op == 'sym' and z.a[0] in tx) and
                                                   all(got(y) and core(y).op == 'fld' for y in alts(x[3].args[1])) for x in out), f'the parts are passed on unchanged, one after the other: {[show(x[3].args[1], 6) for x in out]}')
                c.ob('one-task', not [x for x in B.evedges if x[3].kind == 'call' and 'spawn' in last(x[3].name)], 'the parts are passed on by one task')
        # The proxies: connected nodes which accept requests, other than this one.
        for e in A.evedges:
            if e[3].kind == 'write' and place(e) == 'nodes':
                v = e[3].args[1]
                its = [(i, cs) for t in subterms(v) if t.op == 'bag' for i, cs in t.a[1]]
                flag = lambda x: is_call(x, 'contains', '_::contains') and 'WEBPROXY_REQUESTS' in repr(x)
                c.ob('proxies', any(any(l[1] and flag(l[0]) for l in cs) for _, cs in its) and mentions(v, lambda t: part(t, 'NodeInfosConnected', 0)),
                     f'the proxies are the connected nodes which accept requests: {show(v, 4)}')
    c.floor('handlers', n, 1, 'handlers of messages')
    waiting(c)


def waiting(c):
    f = c.fn('web_proxy::broker::WebProxy::get')
    A = c.an(f)
    req = [e for e in A.evedges if made(e, 'RequestGet')]
    c.ob('asks', len(req) == 1, f'one request is made: {len(req)}')
    for e in req:
        num, url, tx = e[3].args[0].a[3]
        c.ob('random', is_call(core(num), 'U256::rnd'), f'the number of a request cannot be guessed: {show(num, 3)}')
        c.ob('url', path_of(core(url)) == ('url',) or core(url).op == 'sym', f'what was asked for is requested: {show(url, 3)}')
        for r in A.rets():
            for t in subterms(ret_val(r)):
                if t.op == 'agg' and last(t.a[0]) == 'Response':
                    rx = fld(t, 'rx')
                    c.ob('own-answer', chan(rx, 1) is not None and chan(rx, 1) is chan(tx, 0), f'the answer read is the one of this request: {show(rx, 3)}')
        # What waits for the header: in the function itself or in a coroutine it creates.
        wait = [(A, None)]
        for x in A.evedges:
            for t in (y for a in x[3].args for y in subterms(a) if y.op == 'clo'):
                g = c.F.fns.get(t.a[0])
                if g is not None and all(w[0].fn is not g for w in wait):
                    wait.append((c.an(g), dict(zip(g.upvars, t.a[2]))))
        k = 0
        for B, cap in wait:
            mine = lambda t: core(t) is core(num) if cap is None else t.op == 'sym' and t.a[0] in cap and core(cap[t.a[0]]) is core(num)
            ok = lambda x: lit(x, lambda t: t.op == 'eq' and any(mine(core(y)) for y in t.a) and any(alls(y, 'ResponseGet', 1) for y in t.a), True)
            got = [r for r in B.rets() if mentions(ret_val(r), lambda t: part(t, 'ResponseGet', 2))]
            if got:
                k += 1
                c.guarded('own-header', B, got, ok, 'the header taken is the one of this request')
                for r in got:
                    v = [t for t in subterms(ret_val(r)) if t.op == 'agg' and any(alls(x, 'ResponseGet', 2) for x in t.a[3])]
                    c.ob('header-proxy', v and all(any(alls(x, 'ResponseGet', 0) for x in t.a[3]) for t in v), f'with the node it comes from: {show(ret_val(r), 5)}')
        c.floor('waiting', k, 1, 'places waiting for the header')
    taps = [e for e in A.litedges if is_var(e, 'Ok', lambda t: is_call(t, 'get_tap_out'))]
    c.followed('tap', A, taps, lambda e: ev(e, 'remove_subsystem') and mentions(e[3].args[1], lambda t: is_call(t, 'get_tap_out')), A.rets(), 'the tap is removed in the end')
    # The body: all parts up to the end.
    f = c.fn('web_proxy::response::Response::bytes')
    B = c.an(f)
    c.guarded('to-the-end', B, B.rets(), lambda e: is_var(e, 'None', lambda t: is_call(t, 'recv')), 'the body is read up to its end')
    for r in B.rets():
        c.ob('all-parts', mentions(ret_val(r), lambda t: t.op == 'bag' and all(not cs for _, cs in t.a[1]) and mentions(t, lambda x: is_call(x, 'recv'))),
             f'the body consists of all the parts: {show(ret_val(r), 4)}')


def alls(t, v, i):
    return all(part(x, v, i) for x in alts(core(t)))


@rule('A02', 'A proxy answers the node which asked: header, body, end')
def A02(c):
    """The handler of the messages, and the task it starts for a request: provenance of what is fetched and sent; typestate of the answer."""
    n = 0
    for f, A in handlers(c):
        starts = []
        for e in A.evedges:
            if e[3].kind == 'call' and 'spawn' in last(e[3].name):
                g, cap = spawned(c, e)
                if g is not None and any(iscall(x, 'reqwest::get') or ev(x, 'execute') and 'reqwest' in x[3].name or ev(x, 'send') and 'reqwest' in x[3].name for x in c.an(g).evedges):
                    starts.append((e, g, cap))
        c.floor('tasks', len(starts), 1, 'tasks fetching pages')
        req = [e for e in A.litedges if is_var(e, 'Request', lambda t: has_call(t, 'serde_yaml::from_str') or has_call(t, 'unwrap_yaml'))]
        stop = A.rets() + [e for e in A.litedges if lit(e, lambda t: t.op == 'more' and t.a[0].op == 'sym', None)]
        c.followed('served', A, req, lambda e: any(e == s[0] for s in starts), stop, 'every request is served')
        for e, g, cap in starts:
            n += 1
            is_ = lambda what: lambda t: (lambda x: x.op == 'sym' and x.a[0] in cap and what(cap[x.a[0]]))(core(t))
            who, num, url = is_(src), is_(lambda t: part(t, 'Request', 0)), is_(lambda t: part(t, 'Request', 1))
            B = c.an(g)
            for x in B.evedges:
                if iscall(x, 'reqwest::get'):
                    c.ob('url', url(x[3].args[0]), f'what was asked for is fetched: {show(x[3].args[0], 4)}')
            emits = [x for x in B.evedges if ev(x, 'emit_msg_out')]
            c.floor('emits', len(emits), 3, 'messages sent')
            for x in emits:
                to = [t for t in subterms(x[3].args[1]) if variant(t, 'NetworkWrapperToNetwork')]
                c.ob('to', to and all(who(t.a[3][0]) for t in to), f'the answer goes to the one who asked: {show(x[3].args[1], 5)}')
                rs = [t for t in subterms(x[3].args[1]) if variant(t, 'Response') and len(t.a[3]) == 2]
                c.ob('number', rs and all(num(t.a[3][0]) for t in rs), f'the answer carries the number of the request: {[show(t, 4) for t in rs]}')
            says = lambda x, *vs: x in emits and mentions(x[3].args[1], lambda t: t.op == 'agg' and t.a[1] in vs and last(t.a[0]) == 'ResponseMessage')
            c.guarded('ends', B, B.rets(), lambda x: says(x, 'Done', 'Error'), 'every answer has an end')
            parts = [x for x in emits if says(x, 'Body')]
            c.guarded('header-first', B, parts, lambda x: says(x, 'Header'), 'the header comes before the body')
            done = [x for x in emits if says(x, 'Done') and not says(x, 'Body')]
            late = [p for x in done for p in [B.follow_without(x, lambda y: False, parts)] if p is not None]
            c.ob('end-last', not late, 'the end comes after the body', late[0] if late else None)
            bodies = [t.a[3][0] for x in parts for t in subterms(x[3].args[1]) if variant(t, 'Body')]
            c.ob('body', bodies and all(raw(t) for t in bodies), f'the body is sent as it was fetched: {[show(t, 4) for t in bodies][:2]}')
            more = [x for x in B.litedges if is_var(x, 'Some', lambda t: is_call(t, 'next', 'StreamExt::next', 'chunk', 'try_next'))]
            again = [x for x in B.evedges if ev(x, 'next', 'chunk', 'try_next')] + [x for x in B.litedges if lit(x, lambda t: t.op == 'more', None)]
            ok = [x for x in B.litedges if is_var(x, 'Ok', lambda t: core(t).op in ('elem', 'at', 'fld') and raw(t))]
            c.followed('parts', B, ok, lambda x: x in parts, again + B.rets(), 'every part fetched is sent')
            c.ob('stream', more or ok, 'the body is read')
            cut = [t for x in B.evedges if ev(x, 'next', 'chunk', 'try_next', 'bytes_stream', 'for_each') or last(x[3].name) in CUT for t in [x[3].args[0]]
                   if has_call(t, 'bytes_stream') and (last(x[3].name) in CUT or any(y.op == 'call' and last(y.a[0]) in CUT for y in subterms(t)))]
            c.ob('whole', not cut, f'the whole body is read: {[show(t, 4) for t in cut][:2]}')
    c.floor('served', n, 1, 'tasks serving requests')


CUT = ('take', 'take_while', 'take_until', 'skip', 'skip_while', 'step_by', 'filter', 'filter_map', 'map_while', 'scan', 'try_filter', 'try_take_while', 'try_skip_while')


def raw(t):
    """A piece of what a stream gave."""
    t = core(t)
    while t.op in ('fld', 'as', 'elem', 'at', 'old', 'loop', 'iter') and is_t(t.a[0]):
        t = core(t.a[0])
    if t.op == 'phi':
        return all(raw(x) for x in alts(t))
    return is_call(t, 'next', 'chunk', 'try_next') or t.op == 'wid'
