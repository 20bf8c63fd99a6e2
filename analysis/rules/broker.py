"""The broker: delivery of messages to the subsystems, forwarding to other brokers, settling."""
import re
from check import *
from terms import *
from query import *
from query import An

MOD = 'flarch::broker'
KW = dict(transparent=(MOD + '::',), opaque=('type_str',))
DIRS = {'in': ('msg_queue_in', 'translate_input', ('TapIn', 'TapSyncIn')), 'out': ('msg_queue_out', 'translate_output', ('TapOut', 'TapSyncOut'))}


def last(n):
    return n.split('::')[-1]


def ev(e, *names):
    return e[3] is not None and e[3].kind == 'call' and last(e[3].name) in names


def fns(c):
    return [f for f in c.F.fns.values() if f.path.startswith((MOD, '<' + MOD)) and f.kind in ('assoc', 'fn') and not f.derived and '::test' not in f.path]


def over(q):
    """A test whether there is another message in the queue."""
    return lambda t: t.op == 'more' and has_q(t.a[0], q)


def has_q(t, q):
    return mentions(t, lambda s: s.op == 'fld' and s.a[1] == q)


def nextmsg(e, q):
    return lit(e, lambda t: t.op == 'more' and recv(t.a[0]) == q, True)


def deepest(c, pred, **kw):
    """The functions which satisfy the predicate and do not only call one which does."""
    r = {}
    for f in fns(c):
        A = c.an(f, **{**KW, **kw})
        if pred(A):
            r[f.npath] = (f, A)
    return [(f, A) for n, (f, A) in r.items() if not any(e[3].kind == 'call' and e[3].name in r and e[3].name != n for e in A.evedges)]


def queued(x, q, i='1'):
    """The message (or destination) of an element of the queue."""
    return all(y.op == 'fld' and y.a[1] == i and y.a[0].op == 'elem' and recv(y.a[0].a[0]) == q for y in map(core, alts(x)))


def inpath(A, q, *names):
    return any(ev(e, *names) for e in A.evedges) and any(over(q)(l[0]) for l in A.lits())


def subs(t):
    return t.op == 'more' and has_q(t.a[0], 'subsystems')


def partial(A, *qs):
    return [l for l in A.lits() if l[0].op == 'more' and any(has_q(l[0], q) for q in qs) and mentions(l[0], lambda s: s.op == 'part')]


def var_lit(*vs):
    """The subsystem is (not) one of these."""
    return lambda e, pol: e[2] is not None and any(lit(e, lambda t: t.op == 'is' and t.a[1] == v and has_q(t.a[0], 'subsystems'), pol) for v in vs)


@rule('B01', 'Every message of a broker reaches all its subsystems, unchanged')
def B01(c):
    """Loops over the queues and over the subsystems leave none out; values handed on; what lies between a message entering a queue
    and the queue being emptied."""
    steps = {}
    for d, (q, tr, taps) in DIRS.items():
        # Translators.
        fs = deepest(c, lambda A: inpath(A, q, tr))
        c.floor(f'translate:{d}', len(fs), 1, 'the forwarding of messages to the translators')
        steps[d, 'translators'] = [f.npath for f, A in fs]
        for f, A in fs:
            es = [e for e in A.evedges if ev(e, tr)]
            for e in es:
                c.ob(f'translated:{d}', queued(e[3].args[2], q), f'the message translated is the one queued: {show(e[3].args[2], 4)}')
            nx = [e for e in A.litedges if nextmsg(e, q)]
            loop = lambda e: lit(e, lambda t: t.op == 'contains' and mentions(t, lambda s: s.op == 'fld' and s.a[1] == 'id'), True)
            c.followed(f'all-messages:{d}', A, nx, lambda e: loop(e) or lit(e, subs, False), nx + A.rets(), 'every message is handed to all the translators')
            ns = [e for e in A.litedges if lit(e, subs, True)]
            notr = lambda e: lit(e, lambda t: t.op == 'is' and t.a[1] == 'Translator', False)
            c.followed(f'all-translators:{d}', A, ns, lambda e: e in es or notr(e), ns + nx + A.rets(), 'every translator gets the messages')
            c.ob(f'complete:{d}', not partial(A, q, 'subsystems'), 'no message and no translator is left out')
        # Taps.
        ts = deepest(c, lambda A: any(ev(e, 'send') for e in A.evedges) and any(l[0].op == 'is' and l[0].a[1] in taps for l in A.lits()))
        c.floor(f'tap:{d}', len(ts), 1, 'the sending of messages to the taps')
        names = tuple(f.npath for f, A in ts)
        for f, A in ts:
            for v in taps:
                es = [e for e in A.evedges if ev(e, 'send') and mentions(e[3].args[0], lambda s: s.op == 'as' and s.a[1] == v)]
                c.floor(f'sent:{d}:{v}', len(es), 1, f'messages sent to a {v}')
                for e in es:
                    x = core(e[3].args[1])
                    c.ob(f'sent:{d}', x.op == 'elem' and core(x.a[0]).op == 'sym', f'what is sent is a message: {show(x, 3)}')
                on = [e for e in A.litedges if lit(e, lambda t: t.op == 'is' and t.a[1] == v, True)]
                end = lambda e: lit(e, lambda t: t.op == 'more' and core(t.a[0]).op == 'sym', False) or lit(e, lambda t: t.op == 'is' and t.a[1] == 'Err', True)
                c.followed(f'sent-loop:{d}:{v}', A, on, end, A.rets(), f'a {v} gets all the messages')
            nx = [e for e in A.litedges if lit(e, lambda t: t.op == 'more', True)]
            c.followed(f'sent-each:{d}', A, nx, lambda e: ev(e, 'send'), nx + A.rets(), 'every message is sent')
            c.ob(f'sent-complete:{d}', not any(mentions(l[0], lambda s: s.op == 'part') for l in A.lits()), 'no message is left out')
        fs = deepest(c, lambda A: any(e[3].kind == 'call' and e[3].name in names for e in A.evedges) and any(over(q)(l[0]) for l in A.lits()), opaque=KW['opaque'] + names)
        c.floor(f'taps:{d}', len(fs), 1, 'the handing of messages to the taps')
        steps[d, 'taps'] = [f.npath for f, A in fs]
        for f, A in fs:
            es = [e for e in A.evedges if e[3].kind == 'call' and e[3].name in names]
            for e in es:
                items(c, f'tapped:{d}', e[3].args[1], q, lambda l: not l[1] and l[0].op == 'is' and l[0].a[1] == 'NoTap' or l[0].op == 'eq' and not l[1] and mentions(l[0], lambda s: variant(s, 'NoTap')), 'a tap gets all messages but those marked as not for taps')
            ns = [e for e in A.litedges if lit(e, subs, True)]
            c.followed(f'all-taps:{d}', A, ns, lambda e: e in es, ns + A.rets(), 'every tap gets the messages')
            c.followed(f'taps-loop:{d}', A, [e for e in A.litedges if lit(e, lambda t: t.op == 'more' and recv(t.a[0]) == q, False)], lambda e: lit(e, subs, False), A.rets(), 'all the taps are asked')
            c.ob(f'taps-complete:{d}', not partial(A, q, 'subsystems'), 'no message and no tap is left out')
    # Handlers.
    q = 'msg_queue_in'
    hs = deepest(c, lambda A: any(ev(e, 'messages') for e in A.evedges))
    names = tuple(f.npath for f, A in hs)
    c.floor('handler', len(hs), 1, 'the calls of the handlers')
    for f, A in hs:
        es = [e for e in A.evedges if ev(e, 'messages')]
        on = [e for e in A.litedges if lit(e, lambda t: t.op == 'is' and t.a[1] == 'Handler', True)]
        c.followed('handler-called', A, on, lambda e: e in es, A.rets(), 'every handler is called')
        for e in es:
            c.ob('handler-all', core(e[3].args[1]).op == 'sym', f'a handler is called with all the messages given: {show(e[3].args[1], 4)}')
        ps = {f.lname(i + 1) for i in range(f.args)}
        for e in A.rets():
            its = [x for b, _ in occ(ret_val(e), lambda t: t.op == 'agg' and t.a[0] == 'tuple' and len(t.a[3]) == 2) for x in (b,)]
            bags = [(i, cs) for b, _ in occ(ret_val(e), lambda t: t.op == 'bag') for i, cs in b.a[1]]
            c.ob('answers-all', not any(cs for i, cs in bags) and not mentions(ret_val(e), lambda t: t.op == 'part'), 'all the answers are returned')
            for x in its:
                dst, m = x.a[3]
                c.ob('answers-own', mentions(m, lambda s: s.op == 'call' and last(s.a[0]) == 'messages') and core(m).op == 'elem', f'the answers are those of the handler: {show(m, 3)}')
                c.ob('answers-marked', variant(core(dst), 'Handled') and core(core(dst).a[3][0]).op == 'sym' and core(core(dst).a[3][0]).a[0] in ps, f'an answer names the handler it is from: {show(dst, 4)}')
        c.floor('answers', sum(1 for e in A.rets() for b in occ(ret_val(e), lambda t: t.op == 'agg' and t.a[0] == 'tuple' and len(t.a[3]) == 2)), 1, 'answers returned')
    fs = deepest(c, lambda A: any(e[3].kind == 'call' and e[3].name in names for e in A.evedges) and any(over(q)(l[0]) for l in A.lits()), opaque=KW['opaque'] + names)
    fs = [(f, c.an(f, **{**KW, 'opaque': KW['opaque'] + names})) for f, A in fs]
    c.floor('handle', len(fs), 1, 'the handing of messages to the handlers')
    steps['in', 'handlers'] = [f.npath for f, A in fs]
    for f, A in fs:
        es = [e for e in A.evedges if e[3].kind == 'call' and e[3].name in names]
        for e in es:
            items(c, 'handled', e[3].args[-1], q, lambda l: l[0].op == 'is' and l[0].a[1] == 'Handled' or not l[1] and l[0].op == 'eq' and mentions(l[0], lambda s: s.op == 'as' and s.a[1] == 'Handled') and mentions(l[0], lambda s: s.op == 'key'),
                  'a handler gets all messages but its own answers')
            ix = core(e[3].args[1])
            c.ob('handled-id', all(mentions(x, lambda s: s.op == 'key' and has_q(s, 'subsystems')) for x in alts(ix)), f'a handler is called with its own id: {show(ix, 3)}')
        ns = [e for e in A.litedges if lit(e, subs, True)]
        c.followed('all-handlers', A, ns, lambda e: e in es or lit(e, lambda t: t.op == 'is' and t.a[1] == 'Handler', False), ns + A.rets(), 'every handler gets the messages')
        c.ob('handlers-complete', not partial(A, q, 'subsystems'), 'no message and no handler is left out')
        end = lambda e: lit(e, subs, False) or lit(e, lambda t: empty_q(t, q), True)
        c.guarded('handlers-loop', A, A.rets(), end, 'all the handlers are asked')
        back = [e for e in A.evedges if ev(e, 'append', 'extend', 'push') and place(e) == 'msg_queue_out']
        c.followed('answers', A, es, lambda e: e in back, A.rets(), 'the answers of the handlers are queued')
        bad = [e for e in back if not mentions(e[3].args[1], lambda t: t.op == 'call' and t.a[0] in names)]
        c.ob('answers-queued', back and not bad, 'what is queued are the answers of the handlers')

    # The order of the steps: a queue is emptied only after all steps were done for all its messages.
    names = [n for v in steps.values() for n in v]
    called = lambda ns: (lambda e: e[3] is not None and e[3].kind == 'call' and e[3].name in ns)
    allin = lambda A: all(any(called(v)(e) for e in A.evedges) for v in steps.values())
    kw = dict(opaque=KW['opaque'] + tuple(names))
    fs = [(f, c.an(f, **{**KW, **kw})) for f in fns(c)]
    fs = [(f, A) for f, A in fs if allin(A)]
    rn = {f.npath for f, A in fs}
    fs = [(f, A) for f, A in fs if not any(e[3].kind == 'call' and e[3].name in rn - {f.npath} for e in A.evedges)]
    c.floor('pass', len(fs), 1, 'a function which does all the steps')
    empt = lambda q: (lambda e: ev(e, 'clear', 'drain', 'take', 'truncate', 'retain', 'pop') and place(e) == q or e[3] is not None and e[3].kind == 'write' and place(e) == q)
    for f, A in fs:
        for (d, what), ns in steps.items():
            q = DIRS[d][0]
            es = [e for e in A.evedges if empt(q)(e)]
            c.guarded(f'after:{d}:{what}', A, es, called(ns), f'the messages are removed only after the {what} got them')
            c.guarded(f'done:{d}:{what}', A, [e for e in A.rets() if not variant(ret_val(e), 'Err')], called(ns), f'the {what} get the messages')
            bad = A.automaton(0, lambda s, e: 0 if called(ns)(e) or empt(q)(e) else 1 if called(steps['in', 'handlers'])(e) and d == 'out' else s, lambda s, e: s == 1 and empt(q)(e))
            c.ob(f'answers-kept:{d}:{what}', bad is None, f'answers of the handlers are not removed before the {what} got them', bad)
            # Not handled twice.
            whole = lambda e, q=q: empt(q)(e) and not ev(e, 'truncate', 'retain', 'pop')
            c.followed(f'removed:{d}:{what}', A, [e for e in A.evedges if called(ns)(e)], whole, A.rets(), f'messages are removed after the {what} got them')
        # Until nothing is left.
        for k in c.F.callers().get(f.key, ()):
            g = c.F.top(c.F.fns[k])
            if '::test' in g.path:
                continue
            B = c.an(g, **{**KW, 'opaque': KW['opaque'] + (f.npath,)})
            es = [e for e in B.evedges if called([f.npath])(e)]
            for q in ('msg_queue_in', 'msg_queue_out'):
                ok = lambda e: lit(e, lambda t: empty_q(t, q), True) or lit(e, lambda t: t.op == 'is' and t.a[1] == 'Err', True)
                c.followed(f'until-empty:{q}', B, es, ok, [e for e in B.rets() if not variant(ret_val(e), 'Err')], 'messages are handled until there are none left')


def empty_q(t, q):
    return t.op == 'eq' and any(x.op == 'call' and last(x.a[0]) == 'len' and has_q(x, q) or x.op == 'len' and has_q(x, q) for x in t.a) and any(show(x) == '0' for x in t.a)


def items(c, key, v, q, cond, what):
    """The list v has all the messages of the queue q which satisfy the condition."""
    bs = [b for b, _ in occ(v, lambda t: t.op == 'bag')]
    its = [(i, cs) for b in bs for i, cs in b.a[1]]
    c.floor(key, len(its), 1, 'messages handed on')
    for i, cs in its:
        c.ob(key + '-same', queued(i, q), f'{what}: {show(i, 3)}')
        c.ob(key + '-all', all(cond(l) for l in cs), f'{what}: {[lit_show(l) for l in cs][:3]}')
    c.ob(key + '-each', not mentions(v, lambda t: t.op == 'part'), f'{what}: none is left out')


FIELDS = {'translate_fn_i_ti': ('translate_input', 'in'), 'translate_fn_i_to': ('translate_input', 'out'), 'translate_fn_o_ti': ('translate_output', 'in'), 'translate_fn_o_to': ('translate_output', 'out')}


@rule('B02', 'Linked brokers forward each message once, in the right direction')
def B02(c):
    """Guards of the translation by the trail of the message; provenance of trail, translation and direction; wiring of the links."""
    # The trail.
    for d, (q, tr, taps) in DIRS.items():
        fs = deepest(c, lambda A: inpath(A, q, tr))
        c.floor(f'translate:{d}', len(fs), 1, 'the forwarding of messages')
        for f, A in fs:
            es = [e for e in A.evedges if ev(e, tr)]
            own = lambda t: t.op == 'fld' and t.a[1] == 'id' and of_self(t)
            been = lambda t: t.op == 'contains' and own(core(t.a[1])) and mentions(t.a[0], lambda s: s.op == 'as' and s.a[1] == 'Forwarded' and has_q(s, q)) or t.op == 'exists' and mentions(t, own) and mentions(t, lambda s: s.op == 'as' and s.a[1] == 'Forwarded')
            other = lambda e: lit(e, lambda t: t.op == 'is' and t.a[1] == 'Forwarded' and has_q(t, q), False)
            c.guarded(f'no-loop:{d}', A, es, lambda e: lit(e, been, False), 'a message is not forwarded by a broker which forwarded it before', reset=lambda e: nextmsg(e, q))
            adds = lambda e: ev(e, 'push', 'extend', 'insert') and own(core(e[3].args[-1])) or ev(e, 'concat') and mentions(e[3].args[0], own)
            c.guarded(f'trail:{d}', A, es, adds, 'the broker adds itself to the trail of the message', reset=lambda e: nextmsg(e, q))
            for e in es:
                t = e[3].args[1]
                bs = [b for b in subterms(t) if b.op == 'as' and b.a[1] == 'Forwarded' and has_q(b, q)]
                c.ob(f'trail-kept:{d}', bool(bs) and not mentions(t, lambda s: s.op == 'part'), f'the brokers which forwarded the message stay in its trail: {show(t, 5)}')
                c.ob(f'trail-own:{d}', mentions(t, own), f'the broker is in the trail: {show(t, 5)}')
    # The translators: every translation goes to the right queue of the other broker, with the trail.
    n = 0
    send = {'emit_msg_in_dest': 'in', 'emit_msg_out_dest': 'out'}
    kw = dict(transparent=(MOD + '::',), opaque=('type_str',) + tuple(f.npath for f in fns(c) if f.name in send))
    seen = set()
    for f in fns(c):
        if f.name not in ('translate_input', 'translate_output') or not f.blocks:
            continue
        A = c.an(f, **kw)
        es = [e for e in A.evedges if ev(e, *send)]
        args = [T('sym', f.lname(i + 1)) for i in range(f.args)]
        for e in es:
            n += 1
            m = e[3].args[2]
            used = {s.a[1] for s in subterms(m) if s.op == 'fld' and s.a[1] in FIELDS}
            d = send[last(e[3].name)]
            c.ob(f'direction:{f.name}:{d}', len(used) == 1 and FIELDS[next(iter(used))] == (f.name, d), f'{f.name} sends to the {d} queue what was translated for it: {sorted(used)}')
            c.ob(f'translated:{f.name}:{d}', mentions(m, lambda s: s is args[2]), f'what is sent is the translation of the message: {show(m, 4)}')
            dst = core(e[3].args[1])
            c.ob(f'marked:{f.name}:{d}', variant(dst, 'Forwarded') and core(dst.a[3][0]) is args[1], f'the message sent carries its trail: {show(dst, 4)}')
            seen |= {(f.name, x) for x in used}
        some = [e for e in A.litedges if lit(e, lambda t: t.op == 'is' and t.a[1] == 'Some', True) and not lit(e, lambda t: t.op == 'is' and recv(t.a[0]) in FIELDS)]
        for x in FIELDS:
            if FIELDS[x][0] != f.name:
                continue
            on = [e for e in some if has_q(e[2][0], x) and e[2][0].a[0].op == 'call']
            c.followed(f'sent:{x}', A, on, lambda e: ev(e, *send) and has_q(e[3].args[2], x), A.rets(), f'every message translated by {x} is sent')
    c.ob('all-fields', {x for _, x in seen} == set(FIELDS), f'all translations are used: {sorted(seen)}')
    # The constructors: a translation is registered for what it is given for.
    k = 0
    for f in fns(c):
        m = re.match(r'add_translator_(i|o)_(ti|to)$', f.name)
        if not m:
            continue
        A = c.an(f, transparent=(MOD + '::',), opaque=('add_subsystem', MOD + '::Broker::add_subsystem'))
        es = [e for e in A.evedges if e[3].kind == 'new' and e[3].args[0].op == 'agg' and e[3].args[0].a[0].endswith('Translator') and 'broker' in (e[3].args[0].a[2] or ())]
        c.floor(f'made:{f.name}', len(es), 1, 'translators made')
        for e in es:
            k += 1
            g = dict(zip(e[3].args[0].a[2], e[3].args[0].a[3]))
            on = {x: v for x, v in g.items() if x in FIELDS and not variant(core(v), 'None')}
            x = f'translate_fn_{m[1]}_{m[2]}'
            c.ob(f'made:{f.name}', set(on) == {x} and mentions(on[x], lambda s: s.op == 'sym' and s.a[0] == f.lname(3)) and core(g['broker']).op == 'sym' and core(g['broker']).a[0] == f.lname(2),
                 f'{f.name} registers the translation for the other broker: {sorted(on)}')
            c.followed(f'added:{f.name}', A, [e], lambda y: ev(y, 'add_subsystem') and mentions(y[3].args[1], lambda s: s is e[3].args[0] or s.op == 'agg' and s.a[0].endswith('Translator') and 'broker' in (s.a[2] or ())), A.rets(), 'the translator is added')
    c.floor('made', k, 4, 'translators made')
    # Links: both directions.
    for name, there, here in (('add_translator_link', ('add_translator_o_ti', 'add_translator_i_to'), ('add_translator_o_ti',)), ('add_translator_direct', ('add_translator_i_ti',), ('add_translator_o_to',))):
        for f in fns(c):
            if f.name != name:
                continue
            A = c.an(f, transparent=(MOD + '::',), opaque=tuple(g.npath for g in fns(c) if g.name.startswith('add_translator_')))
            b, t1, t2 = (T('sym', f.lname(i)) for i in (2, 3, 4))
            fail = lambda e: variant(ret_val(e), 'Err')
            ok = [e for e in A.rets() if not fail(e)]
            self_ = lambda t: core(t).op == 'sym' and core(t).a[0] == 'self'
            c.guarded(f'{name}:here', A, ok, lambda e: ev(e, *here) and roots(e[3].args[0], 'self') and roots(e[3].args[1], b.a[0]) and roots(e[3].args[2], t1.a[0]), 'messages of this broker are forwarded to the other one')
            c.guarded(f'{name}:there', A, ok, lambda e: ev(e, *there) and roots(e[3].args[0], b.a[0]) and roots(e[3].args[1], 'self') and roots(e[3].args[2], t2.a[0]), 'messages of the other broker are forwarded to this one')
    # Emitting.
    for f in fns(c):
        if f.name not in send:
            continue
        A = c.an(f, **{**KW})
        es = [e for e in A.evedges if ev(e, 'send')]
        want = 'Message' + send[f.name].capitalize()
        dst, m = T('sym', f.lname(2)), T('sym', f.lname(3))
        c.guarded(f'emit:{f.name}', A, A.rets(), lambda e: e in es, 'a message emitted is queued')
        for e in es:
            x = core(e[3].args[1])
            c.ob(f'emit:{f.name}:{want}', variant(x, want) and core(x.a[3][0]) is dst and core(x.a[3][1]) is m, f'a message emitted is queued unchanged: {show(x, 4)}')
    # Receiving.
    fs = deepest(c, lambda A: any(ev(e, 'recv') for e in A.evedges) and any(l[0].op == 'is' and l[0].a[1] == 'MessageIn' for l in A.lits()))
    c.floor('receive', len(fs), 1, 'the receiving of messages')
    for f, A in fs:
        for d, (q, tr, taps) in DIRS.items():
            v = 'Message' + d.capitalize()
            on = [e for e in A.edges if lit(e, lambda t: t.op == 'is' and t.a[1] == v, True)]
            put = lambda e: ev(e, 'push', 'push_back') and place(e) == q
            c.followed(f'queued:{d}', A, on, put, A.rets(), f'a message received is queued')
            for e in [e for e in A.evedges if put(e)]:
                x = e[3].args[1]
                c.ob(f'queued-same:{d}', x.op == 'agg' and len(x.a[3]) == 2 and all(y.op == 'fld' and y.a[1] == str(i) and y.a[0].op == 'as' and y.a[0].a[1] == v for i, y in enumerate(map(core, x.a[3]))), f'a message is queued as it is, at the end: {show(x, 4)}')
    c.floor('sends', n, 4, 'messages sent by translators')


def of_self(t):
    return mentions(t, lambda s: s.op == 'sym' and s.a[0] == 'self')


def roots(t, name):
    """The term is this argument, or a clone of it, whatever was done with it."""
    t = core(t)
    while True:
        if t.op in ('mut', 'old', 'fld', 'loop', 'upd'):
            t = core(t.a[0])
        elif t.op == 'agg' and t.a[0].endswith('Broker'):
            t = core(t.a[3][0])
        else:
            return t.op == 'sym' and t.a[0] == name


@rule('B03', 'Subsystems stay until removed or closed, and settling comes back')
def B03(c):
    """Numbers of subsystems: handed out once, registered and removed under their number; what is removed without being asked for
    returned an error. Counting of the copies. The answer to a settle, who is settled in turn, and in which task."""
    me = lambda t, n: t.op == 'fld' and t.a[1] == n
    # Numbers.
    k = 0
    for f in fns(c):
        if f.name != 'add_subsystem':
            continue
        A = c.an(f, transparent=(MOD + '::',))
        ok = [e for e in A.rets() if not variant(ret_val(e), 'Err')]
        sends = [e for e in A.evedges if ev(e, 'send') and mentions(e[3].args[1], lambda s: s.op == 'agg' and s.a[1] == 'Add')]
        c.guarded('registered', A, ok, lambda e: e in sends, 'a subsystem added is handed to the broker')
        for e in sends:
            k += 1
            x = next(s for s in subterms(e[3].args[1]) if s.op == 'agg' and s.a[1] == 'Add')
            nr, ss = core(x.a[3][0]), core(x.a[3][1])
            c.ob('number-new', nr.op == 'bin' and nr.a[0].startswith('Add') and mentions(nr, lambda s: me(s, 'subsystems')) and show(nr.a[2]) == '1', f'the number of a subsystem is new: {show(nr, 4)}')
            c.ob('same-subsystem', ss.op == 'sym' and ss.a[0] == f.lname(2), f'what is registered is the subsystem: {show(ss, 4)}')
            for r in ok:
                v = ret_val(r)
                c.ob('number-told', variant(v, 'Ok') and core(v.a[3][0]) is nr, f'the number returned is the one it is registered under: {show(v, 4)}')
            c.guarded('number-used', A, [e], lambda y: y[3] is not None and y[3].kind in ('write', 'lwrite') and core(y[3].args[1]) is nr, 'a number is not used again')
    c.floor('adding', k, 1, 'subsystems handed to the broker')
    # The list of the subsystems: every change.
    ins = rem = 0
    acts = []
    for f in c.F.touching('subsystems', MOD):
        if f.derived:
            continue
        A = c.an(f, **KW)
        for e in A.evedges:
            if not (e[3].kind == 'call' and len(e[3].args) and place(e) == 'subsystems' and 'HashMap' in e[3].name or e[3].kind == 'write' and place(e) == 'subsystems' and e[3].args[1].op not in ('bin', 'i')):
                continue
            if ev(e, 'insert'):
                ins += 1
                p, s = core(e[3].args[1]), core(e[3].args[2])
                c.ob('added-as', all(x.op == 'fld' and x.a[1] == i and x.a[0].op == 'as' and x.a[0].a[1] == 'Add' and x.a[0].a[0] is p.a[0].a[0] for x, i in ((p, '0'), (s, '1'))), f'a subsystem is registered under its number: {show(p, 3)}')
            elif ev(e, 'remove', 'remove_entry'):
                rem += 1
                p = e[3].args[1]
                for x in map(core, alts(p)):
                    if x.op == 'fld' and x.a[0].op == 'as' and x.a[0].a[1] == 'Remove':
                        continue
                    c.ob('removed-as', x.op == 'key' and has_q(x, 'subsystems') or x.op == 'elem' or x.op == 'wid', f'only the subsystem asked for, or one that failed, is removed: {show(x, 3)}')
            elif ev(e, 'clear', 'drain', 'retain') or e[3].kind == 'write':
                p = A.path_without(e, lambda y: lit(y, lambda t: t.op == 'eq' and mentions(t, lambda s: me(s, 'copies')) and any(show(z) == '0' for z in t.a), True) or e[3].kind == 'write' and e[3].args[1].op != 'coll0')
                c.ob('all-removed', p is None, f'all subsystems are only removed with the last copy of the broker: {f.name}', p)
        for v, op in (('Add', 'insert'), ('Remove', 'remove')):
            on = [e for e in A.edges if lit(e, lambda t: t.op == 'is' and t.a[1] == v and t.a[0].op == 'sym', True)]
            if on:
                acts.append(v)
                c.followed(f'done:{v}', A, on, lambda e: ev(e, op) and place(e) == 'subsystems', A.rets(), f'{v} is done')
    c.floor('insertions', ins, 1, 'registrations of subsystems')
    c.floor('removals', rem, 1, 'removals of subsystems')
    # Failing subsystems: numbers listed are those of subsystems which returned an error.
    n = 0
    lists = {}
    for f in fns(c):
        if not f.impl or not f.impl.endswith('::Intern'):
            continue
        A = c.an(f, transparent=(MOD + '::',), opaque=('type_str',) + tuple(g.npath for g in fns(c) if g.impl and g.impl.endswith('::Subsystem')))
        es = [e for e in A.evedges if ev(e, 'push') and mentions(e[3].args[1], lambda s: s.op == 'key' and has_q(s, 'subsystems')) and not mentions(e[3].args[1], lambda s: s.op == 'agg')]
        if es:
            lists[f.npath] = (f, A, es)
    for nm, (f, A, es) in lists.items():
        if any(e[3].kind == 'call' and e[3].name in lists and e[3].name != nm for e in A.evedges):
            continue
        for e in es:
            n += 1
            c.ob('failed-number', core(e[3].args[1]).op == 'key', f'the number listed is that of the subsystem: {show(e[3].args[1], 4)}')
        c.guarded(f'failed:{f.name}', A, es, lambda e: lit(e, lambda t: t.op == 'is' and t.a[1] == 'Err', True), 'a subsystem is only listed as failed if it returned an error',
                  reset=lambda e: lit(e, subs, True), least=0)
    c.floor('failed', n, 3, 'lists of failed subsystems')
    low = {nm for nm, (f, A, es) in lists.items() if not any(e[3].kind == 'call' and e[3].name in lists and e[3].name != nm for e in A.evedges)}
    k = 0
    for f in fns(c):
        if f.npath in low:
            continue
        A = c.an(f, transparent=(MOD + '::',), opaque=('type_str',) + tuple(low))
        calls = {e[3].name for e in A.evedges if e[3].kind == 'call' and e[3].name in low}
        from_ = lambda t: {s.a[0] for s in subterms(t) if s.op == 'call' and s.a[0] in low}
        loops = [e for e in A.litedges if lit(e, lambda t: t.op == 'more' and from_(t))]
        if not calls or not loops:
            continue
        k += 1
        c.ob('failed-all', not any(mentions(e[2][0], lambda s: s.op == 'part' and any(x.op == 'cut' for x in s.a[1])) for e in loops), f'all failed subsystems are removed: {show(loops[0][2][0], 4)}')
        seen = set().union(*(from_(l[0]) for l in A.lits() if l[0].op == 'more'))
        c.ob('failed-lists', calls <= seen, f'the failed subsystems of all lists are removed: {sorted(map(last, seen))}')
        for e in A.evedges:
            if ev(e, 'remove') and place(e) == 'subsystems':
                for x in map(core, alts(e[3].args[1])):
                    c.ob('failed-that', x.op == 'elem' and bool(from_(x)), f'the subsystem removed is the one listed as failed: {show(x, 4)}')
        c.followed('failed-removed', A, loops, lambda e: ev(e, 'remove') and place(e) == 'subsystems', A.rets() + [e for e in A.litedges if e[2][0].op == 'more'], 'every failed subsystem is removed')
    c.floor('failed-removed', k, 1, 'loops over failed subsystems')
    # Copies.
    for f in c.F.fns.values():
        if f.path.startswith('<' + MOD + '::Broker') and f.name in ('clone', 'drop') and not f.derived:
            A = c.an(f, transparent=(MOD + '::',))
            w = 'Cloned' if f.name == 'clone' else 'Dropped'
            c.guarded(f'counted:{f.name}', A, A.rets(), lambda e: ev(e, 'send') and variant(core(e[3].args[1]), w) and place(e) == 'intern_tx', f'{f.name} of a broker is told to its task')
    fs = deepest(c, lambda A: any(ev(e, 'recv') for e in A.evedges) and any(l[0].op == 'is' and l[0].a[1] == 'Settle' for l in A.lits()), opaque=KW['opaque'] + ('Subsystem::settle',))
    c.floor('receive', len(fs), 1, 'the receiving of messages')
    for f, A in fs:
        for v, op in (('Cloned', 'Add'), ('Dropped', 'Sub')):
            on = [e for e in A.edges if lit(e, lambda t: t.op == 'is' and t.a[1] == v, True)]
            w = lambda e: e[3] is not None and e[3].kind == 'write' and place(e) == 'copies' and e[3].args[1].op == 'bin' and e[3].args[1].a[0].startswith(op) and show(e[3].args[1].a[2]) == '1'
            c.followed(f'copies:{v}', A, on, w, A.rets(), f'{v}: the copies are counted')
        stops = [e for e in A.rets() if ret_val(e) is not TRUE]
        none = lambda e: lit(e, lambda t: t.op == 'is' and t.a[1] == 'None', True) or lit(e, lambda t: t.op == 'is' and t.a[1] == 'Some', False)
        zero = lambda e: lit(e, lambda t: t.op == 'eq' and mentions(t, lambda s: me(s, 'copies')) and any(show(z) == '0' for z in t.a), True)
        c.guarded('goes-on', A, stops, lambda e: none(e) or zero(e), 'a broker only stops when there are no more copies of it')
        # Settling.
        on = [e for e in A.edges if lit(e, lambda t: t.op == 'is' and t.a[1] == 'Settle', True)]
        reply = lambda e: ev(e, 'send') and any(s.op == 'as' and s.a[1] == 'Settle' for s in subterms(e[3].args[0]))
        c.followed('answered', A, on, reply, A.rets(), 'every request to settle is answered')
        own = lambda t: t.op == 'fld' and t.a[1] == 'id' and of_self(t)
        been = lambda e: lit(e, lambda t: t.op in ('contains', 'exists') and mentions(t, own) and mentions(t, lambda s: s.op == 'as' and s.a[1] == 'Settle'), True)
        alls = lambda e: lit(e, lambda t: subs(t) and not mentions(t, lambda s: s.op == 'part'), False)
        rs = [e for e in A.evedges if reply(e)]
        c.guarded('settled', A, rs, lambda e: been(e) or alls(e), 'the answer is given after all subsystems were settled, or if this broker was already asked')
        st = [e for e in A.evedges if ev(e, 'settle')]
        mo = [e for e in A.edges if lit(e, subs, True)]
        c.followed('settled-each', A, [e for e in mo if A.path_without(e, lambda y: y in on) is None], lambda e: e in st or lit(e, lambda t: t.op == 'is' and t.a[1] == 'Translator', False), [e for e in A.edges if lit(e, subs) or lit(e, subs, False)] + rs, 'every subsystem is settled')
        c.guarded('settle-own', A, st, lambda e: ev(e, 'push', 'extend', 'insert', 'concat') and mentions(e[3].args[-1], own), 'this broker is one of those already asked')
        for e in st:
            v = e[3].args[1]
            c.ob('settle-trail', mentions(v, own) and mentions(v, lambda s: s.op == 'as' and s.a[1] == 'Settle') and not mentions(v, lambda s: s.op == 'part'), f'the brokers already asked are handed on, with this one: {show(v, 5)}')
            c.ob('settle-waits', not A.fn.path.endswith('get_msg') and not any(ev(x, 'recv') for x in A.evedges), f'a broker goes on handling messages while others settle: the task which receives its messages waits for {last(e[3].name)} of its subsystems')
    # The side which asks.
    m = 0
    for f in fns(c):
        if f.name == 'settle' and f.impl and f.impl.endswith('::Broker') or f.path.startswith(MOD + '::Broker') and f.name == 'settle':
            m += 1
            A = c.an(f, **KW)
            ok = [e for e in A.rets() if not variant(ret_val(e), 'Err')]
            sd = lambda e: ev(e, 'send') and variant(core(e[3].args[1]), 'Settle') and core(core(e[3].args[1]).a[3][0]).op == 'sym'
            c.guarded('asked', A, ok, sd, 'settling asks the broker, with the callers given')
            for s in [e for e in A.evedges if sd(e)]:
                c.followed('waits', A, [s], lambda e: ev(e, 'recv'), ok, 'settling waits for the answer')
        elif f.name.startswith('settle_msg'):
            m += 1
            A = c.an(f, transparent=(MOD + '::',), opaque=('type_str', MOD + '::Broker::<I, O>::settle', 'Broker::settle'))
            ok = [e for e in A.rets() if not variant(ret_val(e), 'Err')]
            sd = lambda e: ev(e, 'send') and str(core(e[3].args[1]).a[1] or '').startswith('Message') if ev(e, 'send') and core(e[3].args[1]).op == 'agg' else False
            c.guarded(f'sent-first:{f.name}', A, [e for e in A.evedges if ev(e, 'settle')], sd, 'the message is sent before settling')
            c.guarded(f'settles:{f.name}', A, ok, lambda e: ev(e, 'settle'), 'the brokers are settled')
        elif f.name == 'settle' and 'Translator' in f.path and f.blocks:
            m += 1
            A = c.an(f, transparent=(MOD + '::',), opaque=('type_str', 'Broker::settle', MOD + '::Broker::<I, O>::settle'))
            ok = [e for e in A.rets() if not variant(ret_val(e), 'Err')]
            a = T('sym', f.lname(2))
            been = lambda e: lit(e, lambda t: t.op in ('contains', 'exists') and mentions(t, lambda s: s is a) and mentions(t, lambda s: me(s, 'id') and has_field(s, 'broker')), True)
            hand = lambda e: ev(e, 'settle') and has_field(e[3].args[0], 'broker') and core(e[3].args[1]) is a
            c.guarded('translator', A, ok, lambda e: been(e) or hand(e), 'the other broker is settled, unless it asked')
    c.floor('asking', m, 4, 'functions settling')
