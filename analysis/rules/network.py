"""The connections to other nodes and to the signalling server; the signalling server itself."""
import re
from check import *
from terms import *
from query import *
from query import An

INT = 'network::intern'
SIG = 'network::signal'
VOPQ = ('NodeInfo::verify', 'NodeInfo::get_id', 'PeerInfo::get_remote', 'PeerInfo::get_direction', 'U256::to_bytes')
DIR = 'flarch::web_rtc::node_connection::Direction'
D = {d: T('agg', DIR, d, (), ()) for d in ('Incoming', 'Outgoing')}
TR = (DIR + '::',)
OTHER = {'Incoming': 'Outgoing', 'Outgoing': 'Incoming'}


def ev(e, *last):
    return e[3] is not None and e[3].kind == 'call' and e[3].name.split('::')[-1] in last


def on(e, field, *last):
    return ev(e, *last) and e[3].args and place(e) == field


def made(e, *names):
    return e[3] is not None and e[3].kind == 'new' and variant(e[3].args[0], *names)


def arg_of(f, ty):
    return T('sym', [f.lname(i + 1) for i in range(f.args) if re.search(ty + r'$', f.lty(i + 1))][0])


def sym_of(f, pat):
    r = [f.lname(i + 1) for i in range(f.args) if re.search(pat, f.lty(i + 1))]
    return T('sym', r[0]) if r else None


def state_of(e, d, want):
    """The edge says that the connection in direction d is (not) established."""
    fieldname = {'Incoming': 'incoming', 'Outgoing': 'outgoing'}[d]
    if is_var(e, 'Connected', lambda t: t.op == 'fld' and t.a[1] == fieldname, want):
        return True
    # No entry: not connected.
    return not want and is_var(e, 'None', lambda t: t.op == 'get' and recv(t.a[0]) == 'connections')


def bools(c, fns):
    """The questions about connections: 'any' (in any direction), 'only' (in the direction given, and not in the other)."""
    r = {'any': set(), 'only': set()}
    for f in fns:
        if f.lty(0) != 'bool' or f.args not in (2, 3) or 'mut ' in f.lty(1):
            continue
        if f.args == 2:
            A = c.an(f)
            T_, F_ = A.rets(lambda v: show(v) == 'True'), A.rets(lambda v: show(v) == 'False')
            if not T_ or not F_ or len(T_) + len(F_) < len(A.rets()):
                continue
            yes = all(A.path_without(x, lambda e: state_of(e, 'Incoming', True) or state_of(e, 'Outgoing', True)) is None for x in T_)
            no = all(A.path_without(x, lambda e: state_of(e, d, False)) is None for x in F_ for d in D)
            if yes and no:
                r['any'].add(f.name)
        elif 'Direction' in f.lty(3):
            good = True
            for d in D:
                A = An(c.facts(), f, mem={('S', f.lname(3)): D[d]}, transparent=TR)
                T_, F_ = A.rets(lambda v: show(v) == 'True'), A.rets(lambda v: show(v) == 'False')
                if not T_ or not F_ or len(T_) + len(F_) < len(A.rets()):
                    good = False
                    break
                o = OTHER[d]
                good &= all(A.path_without(x, lambda e: state_of(e, d, True)) is None and A.path_without(x, lambda e: state_of(e, o, False)) is None for x in T_)
                good &= all(A.path_without(x, lambda e: state_of(e, d, False) or state_of(e, o, True)) is None for x in F_)
            if good:
                r['only'].add(f.name)
    return r


@rule('N01', 'Connections are announced when they begin and when they end')
def N01(c):
    """The questions about connections are classified by the answers on all paths; every change of a state is paired with the
    announcement exactly if no other direction is connected; the list of connected nodes is sent after every change;
    provenance of the messages handed on."""
    fns = c.F.touching('connections', INT)
    own = {f.impl for f in fns if f.impl}
    q = bools(c, [f for f in c.F.fns.values() if f.kind == 'assoc' and f.impl in own and not f.derived])
    c.ob('questions', q['any'] and q['only'], f'the questions whether a node is connected are answered by its states in both directions: {({k: sorted(v) for k, v in q.items()})}')
    setters = [f for f in fns if f.args == 4 and 'mut ' in f.lty(1) and 'ConnectionState' in f.lty(4)]
    c.floor('setter', len(setters), 1, 'the change of a state')
    for f in setters:
        node, st = T('sym', f.lname(2)), T('sym', f.lname(4))
        for d in D:
            fieldname, other = d.lower(), OTHER[d].lower()
            A = An(c.facts(), f, mem={('S', f.lname(3)): D[d]}, opaque=tuple(q['any'] | q['only']), transparent=TR)
            c.functions.add(f.path)
            w = [e for e in A.evedges if e[3].kind == 'write' and has_field(e[3].args[0], 'connections') and e[3].args[0].op == 'fld' and e[3].args[0].a[1] in ('incoming', 'outgoing')]
            ins = [e for e in A.evedges if e[3].kind == 'call' and e[3].name.split('::')[-1] in ('or_insert', 'insert', 'or_insert_with') and has_field(e[3].args[0], 'connections')]
            # No entry found and then one found, without an insertion: cannot be.
            def step(x, e):
                if e in w or e in ins:
                    return None
                if is_var(e, 'None', lambda t: t.op == 'get' and recv(t.a[0]) == 'connections'):
                    return 'none'
                return None if x == 'none' and is_var(e, 'Some', lambda t: t.op == 'get' and recv(t.a[0]) == 'connections') else x
            p = A.automaton('', step, lambda x, e: isret(e))
            c.ob(f'set:{d}', p is None and bool(w) and bool(ins), f'the state is set on every path [{f.path}]', p)
            for e in ins:
                v = e[3].args[-1]
                c.ob(f'set-new:{d}', core(e[3].args[1]) is node and core(fld(v, fieldname)) is st and variant(fld(v, other), 'None'), f'a new entry has the state in that direction, and is not connected in the other one: {show(v, 5)}')
            for e in w:
                c.ob(f'set-field:{d}', e[3].args[0].a[1] == fieldname and core(e[3].args[1]) is st and mentions(e[3].args[0], lambda t: t is node), f'the state of that node in that direction is changed: {show(e[3].args[0], 4)} := {show(e[3].args[1], 3)}')
            sends = [e for e in A.evedges if ev(e, 'send', 'send_replace', 'send_if_modified', 'send_modify')]
            c.followed(f'watched:{d}', A, w + ins, lambda e: e in sends or is_var(e, 'None', lambda t: recv(t) == 'tx'), A.rets(), 'the list of connected nodes is sent after every change')
            k = 0
            for e in sends:
                for b, _ in occ(e[3].args[1], lambda t: t.op == 'bag'):
                    for i, cs in b.a[1]:
                        k += 1
                        c.ob(f'watched-list:{d}', has_field(i, 'connections') and any(l[1] and mentions(l[0], lambda t: t.op == 'call' and t.a[0].split('::')[-1] in q['any']) or
                             mentions(l[0], lambda t: t.op == 'fld' and t.a[1] in ('incoming', 'outgoing')) for l in cs), f'the list sent is that of the connected nodes: {show(i, 4)} if {[lit_show(l)[:90] for l in cs]}')
            c.floor(f'watched-list:{d}', k, 1, 'nodes in the list sent')
    sets = {f.name for f in setters}
    opq = tuple(q['any'] | q['only'] | sets) + VOPQ
    isset = lambda e, *sts: e[3] is not None and e[3].kind == 'call' and e[3].name.split('::')[-1] in sets and vname(strip(e[3].args[3])) in sts
    pristine = lambda t: t.op == 'sym'
    ask = lambda kind, x=None, d=None, fresh=True: (lambda t: t.op == 'call' and t.a[0].split('::')[-1] in q[kind] and (not fresh or pristine(t.a[1])) and (x is None or core(t.a[2]) is x)
                                                    and (d is None or same_dir(t.a[3], d)))
    n = {'Connected': 0, 'Disconnected': 0, 'sets': 0}
    for ty in ('NCOutput', 'WSClientOut', 'NetworkIn'):
        for f in c.taking(ty, INT):
            A = c.an(f, opaque=opq)
            for e in A.evedges:
                if e[3].kind == 'call' and e[3].name.split('::')[-1] in sets:
                    n['sets'] += 1
                    c.ob('set-known', vname(strip(e[3].args[3])) is not None, f'the state set is known: {show(e[3].args[3], 3)}')
                if isset(e, 'Connected'):
                    x = core(e[3].args[1])
                    c.guarded('asked-before', A, [e], lambda k: ev(k, *q['any']) and pristine(k[3].args[0]) and core(k[3].args[1]) is x, 'whether the node is already connected is asked before the change')
                    c.followed('connected', A, [e], lambda k: made(k, 'Connected') and has_net(k[3].args[0]) and core(k[3].args[0].a[3][0]) is x or lit(k, ask('any', x)), A.rets(), 'a new connection is announced')
                elif isset(e, 'None', 'Setup'):
                    x, d = core(e[3].args[1]), e[3].args[2]
                    known = lambda k: lit(k, ask('only', x, d), False) or lit(k, ask('any', x), False)
                    told = lambda k: made(k, 'Disconnected') and has_net(k[3].args[0]) and core(k[3].args[0].a[3][0]) is x
                    p = A.automaton((False, False), lambda s, k: (True, False) if known(k) or told(k) else (s[0], True) if k == e and not s[0] else s, lambda s, k: isret(k) and s[1])
                    c.ob('disconnected', p is None, f'the end of the last connection is announced [{f.path}]', p)
                if made(e, 'Connected') and has_net(e[3].args[0]):
                    n['Connected'] += 1
                    x = core(e[3].args[0].a[3][0])
                    c.guarded('new-connection', A, [e], lambda k: lit(k, ask('any', x), False), 'a connection is announced only if the node was not connected')
                    c.guarded('is-connected', A, [e], lambda k: isset(k, 'Connected') and core(k[3].args[1]) is x, 'a connection is announced only if it is established')
                if made(e, 'Disconnected') and has_net(e[3].args[0]):
                    n['Disconnected'] += 1
                    x = core(e[3].args[0].a[3][0])
                    c.guarded('was-connected', A, [e], lambda k: lit(k, ask('only', x)) or lit(k, ask('any', x)), 'a disconnection is announced only if the node was connected')
                    one = lambda k: isset(k, 'None', 'Setup') and core(k[3].args[1]) is x
                    only = lambda k: lit(k, ask('only', x))
                    for d in D:
                        this = lambda k: one(k) and (vname(strip(k[3].args[2])) == d) or only(k)
                        c.ob('is-disconnected', A.path_without(e, this) is None or A.follow_without(e, this, A.rets()) is None, f'a disconnection is announced only if the node is not connected any more in either direction [{f.path}]')
                    c.ob('is-disconnected:one', A.path_without(e, one) is None or A.follow_without(e, one, A.rets()) is None, f'a disconnection is announced only if the state is changed [{f.path}]')
                if made(e, 'MessageFromNode') and has_net(e[3].args[0]):
                    m = e[3].args[0]
                    idn = sym_of(f, r'U256$')
                    src = un_ok(strip(m.a[3][1]))
                    c.ob('from', idn is not None and core(m.a[3][0]) is idn and src is not None and is_call(src, 'from_str', 'from_slice') and (core(src.a[1]) is sym_of(f, 'String$') or path_of(core(src.a[1]))[-1:] == ('0',) and
                         mentions(src.a[1], lambda t: t.op == 'as' and t.a[1] == 'Text')), f'a message is handed on with the node it came from and its content: {show(m, 6)}')
                    n['from'] = n.get('from', 0) + 1
            if ty == 'NCOutput':
                a = arg_of(f, ty)
                c.followed('handed-on', A, [e for e in A.litedges if is_var(e, 'Text', lambda t: t is a)], lambda e: made(e, 'MessageFromNode') or is_var(e, 'Err', lambda t: is_call(t, 'from_str', 'from_slice')) or
                           is_var(e, 'Some', lambda t: is_call(t, 'unwrap_yaml') or t.op == 'call' and mentions(t, lambda s: is_call(s, 'from_str'))) or is_var(e, 'Ok', lambda t: is_call(t, 'from_str') and mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'msg')),
                           A.rets(), 'every message of another node is handed on, but those for this module')
                for v, st in (('Connected', 'Connected'), ('Disconnected', 'None')):
                    c.followed(f'noted:{v}', A, [e for e in A.litedges if is_var(e, v, lambda t: t is a)], lambda e: isset(e, st) and core(e[3].args[2]) is T('fld', T('as', a, v), '0') and core(e[3].args[1]) is sym_of(f, 'U256$'), A.rets(),
                               'a change of a connection is noted for the node and direction')
            if ty == 'NetworkIn':
                a = arg_of(f, ty)
                to, body = (T('fld', T('as', a, 'MessageToNode'), i) for i in '01')
                snd = [e for e in A.evedges if made(e, 'Message') and 'WebRTCConnIn' in e[3].args[0].a[0] and mentions(e[3].args[0], lambda t: variant(t, 'Text'))]
                for e in snd:
                    m = e[3].args[0]
                    ts = [t for t in subterms(m.a[3][1]) if variant(t, 'Text')]
                    c.ob('to', core(m.a[3][0]) is to and all(core(t.a[3][0]) is body or is_call(un_ok(core(t.a[3][0])) or T('x'), 'to_string') and core((un_ok(core(t.a[3][0]))).a[1]) is body for t in ts), f'a message goes to the node it is for: {show(m, 6)}')
                    c.guarded('connected-first', A, [e], lambda k: lit(k, ask('any', to)) or made(k, 'Connect') and core(k[3].args[0].a[3][0]) is to, 'a node is connected to before it gets a message')
                c.followed('sent', A, [e for e in A.litedges if is_var(e, 'MessageToNode', lambda t: t is a)], lambda e: e in snd or is_var(e, 'Err', lambda t: is_call(t, 'to_string')), A.rets(), 'every message for another node is sent')
                c.followed('disconnect', A, [e for e in A.litedges if is_var(e, 'Disconnect', lambda t: t is a)], lambda e: lit(e, ask('any'), False) or made(e, 'Disconnect') and 'NCInput' in e[3].args[0].a[0], A.rets(), 'a node to disconnect from is disconnected')
    for k, v in n.items():
        c.floor(f'sites:{k}', v, 1, f'places with {k}')
    # No other changes of the states.
    for f in c.F.touching('connections', INT):
        if f in setters or f.derived:
            continue
        A = c.an(f, opaque=opq)
        for e in A.evedges:
            w = e[3].kind == 'write' and recv_any(e[3].args[0], 'connections') or on(e, 'connections', 'insert', 'remove', 'clear', 'retain', 'drain', 'entry')
            if w and not (e[3].fn is not None and getattr(e[3].fn, 'name', '') in sets):
                c.ob('other-change', False, f'the states are changed by one function: {e[3]!r}'[:300])


def recv_any(t, field):
    return has_field(t, field)


def strip(t):
    while t.op in ('cast', 'ref1'):
        t = t.a[0]
    return t


def same_dir(a, b):
    return core(a) is core(b)


def has_net(t):
    return 'NetworkOut' in t.a[0]


def sig_entries(c):
    """The entry of the signalling server: the function taking its messages, and for replies the index they came from."""
    fs = [f for f in c.taking('SignalIn', SIG) if f.args == 2 and re.search('SignalIn$', f.lty(2))]
    c.floor('entry', len(fs), 1, 'the handler of the messages')
    r = []
    for f in fs:
        A = c.an(f, opaque=VOPQ)
        a = arg_of(f, 'SignalIn')
        ws = T('fld', T('as', a, 'WSServer'), '0')
        idx = {v: T('fld', T('as', ws, v), '0') for v in ('Message', 'NewConnection', 'Disconnection')}
        r.append((f, A, a, ws, idx))
    return r


def on_field(t, name):
    return recv(t) == name


def got(t, mapname, right=None):
    """The value an entry of a two-way map has for that key (Some)."""
    t = core(t)
    x = un_ok(t)
    x = x if x is not None else t
    return x.op in ('call', 'get') and (x.op == 'get' or x.a[0].split('::')[-1] in ('get_by_right', 'get_by_left')) and recv(x.a[0] if x.op == 'get' else x.a[1]) == mapname and \
        (right is None or core(x.a[1] if x.op == 'get' else x.a[2]) is right)


def msgs_to(A, variant_name):
    """Messages of that kind sent to a node: (edge, index, content, the message)."""
    r = []
    for e in A.evedges:
        if e[3].kind == 'new' and variant(e[3].args[0], 'Message') and 'WSServerIn' in e[3].args[0].a[0]:
            m = e[3].args[0]
            for q in subterms(m.a[3][1]):
                if q.op == 'agg' and q.a[1] == variant_name and 'WSSignalMessageToNode' in q.a[0]:
                    r.append((e, core(m.a[3][0]), q))
    return r


@rule('S01', 'Only the holder of a key is registered under its id')
def S01(c):
    """All insertions into the maps of nodes: dominated by the verified signature of the challenge stored for the connection;
    the challenge is fresh, sent to that connection, and removed by the registration; the id follows from the verified key."""
    n = 0
    for f, A, a, ws, idx in sig_entries(c):
        ix = idx['Message']
        ver = lambda e: lit(e, lambda t: is_call(t, 'NodeInfo::verify'))
        reg = [e for e in A.evedges if on(e, 'info', 'insert', 'insert_no_overwrite') or on(e, 'connection_ids', 'insert', 'insert_no_overwrite')]
        n += len(reg)
        c.ob('both', len({place(e) for e in reg}) == 2, f'the connection and the node-info are registered [{f.path}]')
        for e in reg:
            info = place(e) == 'info'
            idt = core(e[3].args[1])
            ni = idt.a[1] if is_call(idt, 'NodeInfo::get_id') else None
            c.ob('id', ni is not None and mentions(ni, lambda t: t.op == 'as' and t.a[1] == 'Announce') and (core(e[3].args[2]) is ni if info else core(e[3].args[2]) is ix),
                 f'the node is registered under the id of the node-info announced, for the connection it came from: {e[3]!r}'[:300])
            good = lambda k: lit(k, lambda t: is_call(t, 'NodeInfo::verify') and t.a[1] is ni and got(unbytes(t.a[2]), 'challenges', ix) and mentions(t.a[3], lambda s: s.op == 'fld' and s.a[1] == 'signature') and
                                 mentions(t.a[3], lambda s: s.op == 'as' and s.a[1] == 'Announce'))
            c.guarded('verified', A, [e], good, 'a node is registered only if it signed the challenge of its connection')
            c.followed('once', A, [e], lambda k: on(k, 'challenges', 'remove_by_left', 'remove_by_right', 'remove') and (core(k[3].args[1]) is ix or got(k[3].args[1], 'challenges', ix)), A.rets(),
                       'a challenge is used once')
            c.guarded('stored-challenge', A, [e], lambda k: is_var(k, 'Some', lambda t: got(t, 'challenges', ix)), 'a challenge has been stored for the connection')
        for e in A.evedges:
            if made(e, 'NewNode'):
                c.guarded('new-node', A, [e], lambda k: on(k, 'connection_ids', 'insert') and core(k[3].args[1]) is core(e[3].args[0].a[3][0]), 'a node is announced only once it is registered')
            for m in ('challenges', 'connection_ids', 'info'):
                if ev(e) or e[3].kind == 'call' and e[3].args and place(e) == m and e[3].name.split('::')[-1] not in \
                        ('insert', 'get_by_left', 'get_by_right', 'get', 'remove_by_left', 'remove_by_right', 'remove', 'contains_left', 'contains_right', 'contains_key', 'iter', 'values', 'keys', 'len', 'is_empty', 'clone', 'left_values', 'right_values', 'into_iter', 'fmt'):
                    c.ob('other-change', 'iter' in e[3].name.lower() or 'fmt' in e[3].name, f'the maps are changed by insertions and removals: {e[3]!r}'[:200])
                if e[3].kind == 'write' and e[3].args[0].op == 'fld' and e[3].args[0].a[1] == m and path_of(e[3].args[0])[:1] == ('self',):
                    c.ob('other-write', False, f'the maps are not replaced: {e[3]!r}'[:200])
        chs = [e for e in A.evedges if on(e, 'challenges', 'insert', 'insert_no_overwrite')]
        c.floor('challenges', len(chs), 1, 'places where a challenge is stored')
        for e in chs:
            ch = core(e[3].args[1])
            c.ob('fresh', is_call(ch, 'U256::rnd') and core(e[3].args[2]) is idx['NewConnection'], f'a new connection gets a fresh challenge: {e[3]!r}'[:250])
        ms = msgs_to(A, 'Challenge')
        c.floor('challenge-sent', len(ms), 1, 'places where a challenge is sent')
        for e, to, q in ms:
            ch = core(q.a[3][1])
            c.ob('challenge-sent', to is idx['NewConnection'], f'the challenge is sent to the new connection: {show(to, 4)}')
            c.guarded('challenge-stored', A, [e], lambda k: k in chs and core(k[3].args[1]) is ch and core(k[3].args[2]) is to, 'the challenge sent is the one stored for that connection')
    c.floor('registrations', n, 2, 'insertions into the maps of nodes')
    # The verification is that of the key of the node-info, and its id follows from that key.
    fv = c.fn('NodeInfo::verify')
    A = c.an(fv)
    yes = [e for e in A.rets() if show(e[3].args[0]) != 'False']
    vs = [e for e in A.evedges if iscall(e, 'PublicKey::verify')]
    for e in vs:
        key, msg, sig = e[3].args[:3]
        c.ob('verify-args', has_field(key, 'pubkey') and mentions(key, lambda s: s is T('sym', 'self')) and core(msg) is T('sym', fv.lname(2)) and mentions(sig, lambda s: s is T('sym', fv.lname(3))),
             f'the signature is verified with the key of the node-info: {e[3]!r}'[:250])
    for e in yes:
        v = e[3].args[0]
        okc = lambda t: t.op == 'call' and is_call(t, 'PublicKey::verify')
        c.ob('verify-result', A.path_without(e, lambda k: is_var(k, 'Ok', okc)) is None or v.op == 'isvar' and mentions(v, okc), f'only a verified signature is accepted: {show(v, 4)}')
    c.floor('verify', len(vs), 1, 'verifications in NodeInfo::verify')
    # The id cannot be chosen by the sender.
    k = 0
    for g in c.F.fns.values():
        if 'nodeconfig' in g.path and 'Deserialize' in g.path and re.search(r'NodeInfo(V\d+)?>::deserialize::__Visitor', g.path) and g.path.endswith(('visit_map', 'visit_seq')):
            B = c.an(g)
            for e in B.evedges:
                if e[3].kind == 'new' and e[3].args[0].op == 'agg' and 'NodeInfoV' in e[3].args[0].a[0] and any(x in ('id', '_id') for x in e[3].args[0].a[2]) and e[3].args[0].a[1] is None:
                    v = fld(e[3].args[0], 'id') if 'id' in e[3].args[0].a[2] else fld(e[3].args[0], '_id')
                    k += 1
                    c.ob('id-not-read', is_call(v, 'default') or variant(v, 'None'), f'the id of a node-info is never read from a message: {show(v, 3)} [{g.path[-90:]}]')
    c.floor('id-not-read', k, 2, 'places where a node-info is read')


def unbytes(t):
    t = core(t)
    while is_call(t, 'to_bytes', 'U256::to_bytes', 'as_ref', 'to_vec'):
        t = core(t.a[1])
    return t


@rule('S02', 'Connection setups only pass between the two nodes named')
def S02(c):
    """Server: the sender is the registered node of its connection, one of the two named, and the unchanged setup goes to the
    other one. Node: only setups naming it are taken, for the other node; its own setups name itself according to the direction."""
    for f, A, a, ws, idx in sig_entries(c):
        ix = idx['Message']
        ms = msgs_to(A, 'PeerSetup')
        c.floor('forwarded', len(ms), 1, 'places where a setup is forwarded')
        for e, to, q in ms:
            pi = core(q.a[3][0])
            c.ob('unchanged', pi.op == 'fld' and pi.a[0].op == 'as' and pi.a[0].a[1] == 'PeerSetup' and mentions(pi, lambda s: is_call(s, 'from_str') and core(s.a[1]) is T('fld', T('as', ws, 'Message'), '1')),
                 f'the setup is forwarded as received: {show(pi, 5)}')
            x = un_ok(to)
            rem = core(x.a[2]) if x is not None and is_call(x, 'get_by_left') and recv(x.a[1]) == 'connection_ids' else None
            r = un_ok(rem) if rem is not None else None
            c.ob('to-other', r is not None and is_call(r, 'PeerInfo::get_remote') and core(r.a[1]) is pi and got(r.a[2], 'connection_ids', ix), f'the setup goes to the other node named in it: {show(to, 6)}')
            c.guarded('from-registered', A, [e], lambda k: is_var(k, 'Some', lambda t: got(t, 'connection_ids', ix)), 'the sender of a setup is registered')
        # With sender and receiver registered and named, it is forwarded.
        src = [e for e in A.litedges if is_var(e, 'Some', lambda t: is_call(t, 'get_by_left') and recv(t.a[1]) == 'connection_ids' and un_ok(core(t.a[2])) is not None and is_call(un_ok(core(t.a[2])), 'PeerInfo::get_remote'))]
        c.followed('always', A, src, lambda k: any(k == m[0] for m in ms), A.rets(), 'a setup for a registered node is forwarded')
    # get_remote and get_direction.
    f = c.fn('PeerInfo::get_remote')
    A = c.an(f, transparent=('flarch::web_rtc::',))
    loc = T('sym', f.lname(2))
    k = 0
    for l in A.lits():
        t = l[0]
        if t.op == 'eq' and any(core(x) is loc for x in t.a[:2]) and l[1]:
            o = next((path_of(core(x))[-1] for x in t.a[:2] if path_of(core(x))[-1:] in (('id_init',), ('id_follow',))), None)
            B = An(c.facts(), f, transparent=('flarch::web_rtc::',), know=((t, True),) + tuple((u[0], False) for u in A.lits() if u[1] and u[0].op == 'eq' and u[0] is not t))
            k += o is not None
            other = {'id_init': 'id_follow', 'id_follow': 'id_init'}.get(o)
            for e in B.rets():
                for v in alts(e[3].args[0]):
                    c.ob('remote', variant(v, 'Some') and all(path_of(core(y))[-1:] == (other,) for y in alts(v.a[3][0])), f'the remote node is the other one, if this one is {o}: {show(v, 4)}')
    c.floor('remote', k, 2, 'comparisons with the ids of a setup')
    B = An(c.facts(), f, transparent=('flarch::web_rtc::',), know=tuple((u[0], False) for u in A.lits() if u[1] and u[0].op == 'eq'))
    for e in B.rets():
        c.ob('remote-none', all(variant(v, 'None') for v in alts(e[3].args[0])), f'a node that is not named has no remote node: {show(e[3].args[0], 4)}')
    g = c.fn('PeerInfo::get_direction')
    A = c.an(g, transparent=('flarch::web_rtc::',))
    loc = T('sym', g.lname(2))
    init = lambda t: t.op == 'eq' and any(core(x) is loc for x in t.a[:2]) and any(path_of(core(x))[-1:] == ('id_init',) for x in t.a[:2])
    foll = lambda t: t.op == 'eq' and any(core(x) is loc for x in t.a[:2]) and any(path_of(core(x))[-1:] == ('id_follow',) for x in t.a[:2])
    for e in A.rets():
        v = e[3].args[0]
        if variant(v, 'Outgoing'):
            c.guarded('direction', A, [e], lambda k: lit(k, init), 'this node initiates an outgoing connection')
        elif variant(v, 'Incoming'):
            c.guarded('direction', A, [e], lambda k: lit(k, init, False) or lit(k, foll), 'the other node initiates an incoming connection')
        else:
            c.ob('direction', False, f'the direction is known: {show(v, 4)}')
    # The node.
    k = {'in': 0, 'out': 0}
    for ty in ('WSClientOut', 'NCOutput'):
        for f in c.taking(ty, INT):
            A = c.an(f, opaque=VOPQ)
            own = lambda t: is_call(core(t), 'NodeInfo::get_id') and has_field(core(t), 'node_config') and path_of(core(t).a[1])[:1] == ('self',)
            for e in A.evedges:
                if e[3].kind == 'new' and variant(e[3].args[0], 'Setup') and 'NCInput' in e[3].args[0].a[0]:
                    d, m = e[3].args[0].a[3][:2]
                    d, m = core(d), core(m)
                    pi = m.a[0] if m.op == 'fld' and m.a[1] == 'message' else None
                    c.ob('node-setup', pi is not None and is_call(d, 'PeerInfo::get_direction') and core(d.a[1]) is core(pi) and own(d.a[2]), f'a setup is used with the direction it has for this node: {show(e[3].args[0], 5)}')
                    k['in'] += 1
                    out = [x for x in A.evedges if made(x, 'Message') and 'WebRTCConnIn' in x[3].args[0].a[0] and mentions(x[3].args[0], lambda t: t is e[3].args[0])]
                    c.floor('node-setup', len(out), 1, 'places where a setup is used')
                    for x in out:
                        to = un_ok(core(x[3].args[0].a[3][0]))
                        c.ob('node-remote', to is not None and is_call(to, 'PeerInfo::get_remote') and pi is not None and core(to.a[1]) is core(pi) and own(to.a[2]), f'a setup is used for the other node: {show(x[3].args[0], 5)}')
                if e[3].kind == 'new' and e[3].args[0].op == 'agg' and e[3].args[0].a[0].endswith('PeerInfo'):
                    k['out'] += 1
            if ty == 'NCOutput' and k['out']:
                a = arg_of(f, ty)
                idn = sym_of(f, r'U256$')
                for d in D:
                    B = An(c.facts(), f, opaque=VOPQ, transparent=TR, mem={}, args={a.a[0]: T('agg', 'flarch::web_rtc::node_connection::NCOutput', 'Setup', ('0', '1'), (D[d], T('sym', 'pm')))})
                    ps = [e for e in B.evedges if e[3].kind == 'new' and e[3].args[0].op == 'agg' and e[3].args[0].a[0].endswith('PeerInfo')]
                    c.guarded(f'node-sends:{d}', B, B.rets(), lambda k: k in ps, 'a setup is sent to the signalling server')
                    for e in ps:
                        v = e[3].args[0]
                        me, it = ('id_init', 'id_follow') if d == 'Outgoing' else ('id_follow', 'id_init')
                        c.ob(f'node-names:{d}', own(fld(v, me)) and core(fld(v, it)) is idn and core(fld(v, 'message')) is T('sym', 'pm'), f'a setup names this node and the other one by their direction: {show(v, 5)}')
    for x, v in k.items():
        c.floor(f'node:{x}', v, 1, f'setups {x}')


@rule('S03', 'A node that left the signalling server is forgotten')
def S03(c):
    """On a disconnection, and on the timer when the time to live ran out, the challenge, the connection, the node-info and the
    timer of that connection are removed; the timer is renewed by messages only, and counts down."""
    for f, A, a, ws, idx in sig_entries(c):
        gone = [e for e in A.litedges if is_var(e, 'Disconnection', lambda t: t is ws)]
        ix = idx['Disconnection']
        for m in ('challenges', 'connection_ids', 'ttl'):
            c.followed(f'removed:{m}', A, gone, lambda k: on(k, m, 'remove_by_right', 'remove', 'remove_entry') and core(k[3].args[1]) is ix or
                       is_var(k, 'None', lambda t: got(t, m, ix)), A.rets(), f'the {m} of a connection that ended are removed')
        info = [e for e in A.evedges if on(e, 'info', 'remove', 'remove_entry')]
        c.floor('info', len(info), 1, 'removals of a node-info')
        for e in info:
            c.ob('info-id', mentions(e[3].args[1], lambda t: t.op == 'call' and 'remove_by_right' in t.a[0] or got(t, 'connection_ids')), f'the node-info removed is that of the connection: {show(e[3].args[1], 5)}')
        some = [e for e in A.litedges if is_var(e, 'Some', lambda t: t.op == 'call' and t.a[0].split('::')[-1] in ('remove_by_right', 'remove') and recv(t.a[1]) == 'connection_ids')]
        c.followed('info-removed', A, some, lambda k: k in info, A.rets(), 'the node-info of a connection that ended is removed')
        # The timer.
        tim = [e for e in A.litedges if is_var(e, 'Timer', lambda t: t is a)]
        c.floor('timer', len(tim), 1, 'the handling of the timer')
        wr = [e for e in A.evedges if e[3].kind == 'write' and counts(e[3].args[0], 'ttl')]
        dec = [e for e in wr if mentions(e[3].args[1], lambda t: t.op == 'bin' and 'Sub' in str(t.a[0]) or t.op == 'call' and 'saturating_sub' in t.a[0])]
        ren = [e for e in wr if e not in dec]
        for e in ren:
            c.ob('renewed', has_field(e[3].args[1], 'ttl_minutes') and mentions(e[3].args[0], lambda t: t is idx['Message']), f'the time to live is renewed by messages of that connection: {e[3]!r}'[:250])
        more = [e for e in A.litedges if lit(e, lambda t: t.op == 'more' and counts(t, 'ttl') and t.a[0].op != 'bag') and any(A.path_without(e, lambda k: k == x) is None for x in tim)]
        c.followed('counted', A, more, lambda k: k in dec, [e for e in A.litedges if e in more] + A.rets(), 'the time to live of every connection is counted down')
        exp = [e for e in A.litedges if lit(e, lambda t: t.op in ('eq', 'lt', 'le') and counts(t, 'ttl') and any(const(x) in (0, 1) for x in t.a[:2]))]
        c.floor('expiry', len(exp), 1, 'the test whether the time to live ran out')
        lst = [e for e in A.evedges if ev(e, 'push', 'insert', 'extend') and any(A.path_without(e, lambda k: k == x) is None for x in tim)]
        rem = [e for e in A.evedges if on(e, 'connection_ids', 'remove_by_right', 'remove')]
        c.followed('expired', A, exp, lambda k: k in lst or k in rem, A.rets() + more, 'a connection whose time ran out is removed')
        for e in lst + [x for x in rem if core(x[3].args[1]) is not ix]:
            c.guarded('only-expired', A, [e], lambda k: k in exp or e not in lst and lit(k, lambda t: t.op == 'more' and t.a[0].op in ('bag', 'loop', 'wid')), 'only connections whose time ran out are removed by the timer')
        new = [e for e in A.litedges if is_var(e, 'NewConnection', lambda t: t is ws)]
        c.followed('started', A, new, lambda k: on(k, 'ttl', 'insert') and core(k[3].args[1]) is idx['NewConnection'] and has_field(k[3].args[2], 'ttl_minutes'), A.rets(), 'the time to live of a new connection starts')
        for e in A.evedges:
            if on(e, 'connection_ids', 'remove_by_left', 'clear', 'retain') or on(e, 'info', 'clear', 'retain') or on(e, 'ttl', 'clear', 'retain'):
                c.ob('others-stay', False, f'other nodes stay registered: {e[3]!r}'[:200])


def counts(t, field):
    """A value read from a field, also after it was changed in a loop."""
    return has_field(t, field) or mentions(t, lambda s: s.op == 'wid' and re.search(r"\b" + field + r"\b", repr(s.a)))


def const(t):
    t = strip(t)
    return t.a[0] if t.op == 'i' else None


@rule('S04', 'The signalling server answers the one who asked, in bounds')
def S04(c):
    """Destination and content of every answer: lists of registered nodes to the requester, at most as long as configured; the
    configuration as started to the node registered; errors only to a connection which was replaced."""
    for f, A, a, ws, idx in sig_entries(c):
        ix = idx['Message']
        req = [e for e in A.litedges if is_var(e, 'ListIDsRequest', lambda t: mentions(t, lambda s: is_call(s, 'from_str')))]
        ms = msgs_to(A, 'ListIDsReply')
        c.followed('list-answered', A, req, lambda k: any(k == e and to is ix for e, to, _ in ms), A.rets(), 'a request for the list is answered')
        k = 0
        for e, to, q in ms:
            lst = q.a[3][0]
            c.ob('list', has_field(lst, 'info') and not has_field(lst, 'challenges'), f'the list is that of the registered nodes: {show(lst, 5)}')
            asked = any(A.path_without(e, lambda x: x == r) is None for r in req)
            if asked:
                k += 1
                c.ob('list-to', to is ix, f'the list is sent to the one who asked: {show(to, 4)}')
                lim = lambda t: t.op == 'call' and t.a[0].split('::')[-1] in ('choose_multiple', 'take', 'truncate', 'sample') and any(has_field(x, 'max_list_len') for x in t.a[1:] if isinstance(x, Term)) or t.op == 'part'
                c.ob('list-len', all(any(lim(s) for s in subterms(v)) for v in alts(lst)) or A.path_without(e, lambda x: is_var(x, 'None', lambda t: has_field(t, 'max_list_len'))) is None,
                     f'the list is limited as configured: {show(lst, 5)}')
        c.floor('lists', k, 1, 'answers to a request for the list')
        cfg = msgs_to(A, 'SystemConfig')
        c.floor('config', len(cfg), 1, 'places where the configuration is sent')
        for e, to, q in cfg:
            r = [x for x in subterms(q) if x.op == 'agg' and x.a[0].endswith('FledgerConfig')]
            c.ob('config', to is ix and len(r) == 1 and path_of(core(fld(r[0], 'system_realm')))[-2:] == ('config', 'system_realm'), f'a registered node gets the configured realm: {show(q, 5)}')
            c.guarded('config-registered', A, [e], lambda x: lit(x, lambda t: is_call(t, 'NodeInfo::verify')), 'the configuration goes to a node when it is registered')
        reg = [e for e in A.evedges if on(e, 'connection_ids', 'insert')]
        c.followed('config-sent', A, reg, lambda x: any(x == e for e, _, _ in cfg), A.rets(), 'a node gets the configuration when it is registered')
        for e, to, q in msgs_to(A, 'Error'):
            c.ob('error-to', mentions(to, lambda t: t.op == 'call' and t.a[0].split('::')[-1] == 'insert' and recv(t.a[1]) == 'connection_ids') and to is not ix, f'an error is sent to the connection replaced: {show(to, 5)}')
            c.guarded('error-replaced', A, [e], lambda x: is_var(x, 'Left', lambda t: t.op == 'call' and recv(t.a[1]) == 'connection_ids') or is_var(x, 'Pair', lambda t: True) or is_var(x, 'Both', lambda t: True), 'an error is sent only if a connection was replaced')
        left = [e for e in A.litedges if is_var(e, 'Left', lambda t: t.op == 'call' and t.a[0].split('::')[-1] == 'insert' and recv(t.a[1]) == 'connection_ids')]
        c.followed('replaced', A, left, lambda x: made(x, 'Message') and mentions(x[3].args[0], lambda t: variant(t, 'Error')), A.rets(), 'a connection replaced by another one is told')
    # The configuration is the one asked for.
    fm = [g for g in c.F.fns.values() if g.path.startswith('flsignal::main') and g.kind != 'fn' or g.path == 'flsignal::main']
    k = 0
    for g in fm:
        B = c.an(g)
        for e in B.evedges:
            if e[3].kind == 'new' and e[3].args[0].op == 'agg' and e[3].args[0].a[0].endswith('SignalConfig'):
                k += 1
                sr, ml = fld(e[3].args[0], 'system_realm'), fld(e[3].args[0], 'max_list_len')
                c.ob('cli-len', path_of(core(ml))[-1:] == ('max_list_len',), f'the limit is the one given: {show(ml, 4)}')
                for v in alts(sr):
                    none = variant(v, 'None')
                    c.ob('cli-realm', none and B.path_without(e, lambda x: is_var(x, 'None', lambda t: path_of(t)[-1:] == ('system_realm',)) or is_var(x, 'Ok', lambda t: is_call(t, 'from_str'))) is None or
                         not none and mentions(v, lambda t: is_call(t, 'from_str') and mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'system_realm')), f'the system realm is the one given: {show(v, 5)}')
        for e in B.litedges:
            if is_var(e, 'Err', lambda t: is_call(t, 'from_str') and has_field(t, 'system_realm')):
                bad = [x for x in B.evedges if x[3].kind == 'new' and x[3].args[0].op == 'agg' and x[3].args[0].a[0].endswith('SignalConfig')]
                p = B.follow_without(e, lambda x: False, bad)
                c.ob('cli-refused', p is None, 'the server does not start with a realm it cannot read', p)
    c.floor('cli', k, 1, 'places where the server is configured')
