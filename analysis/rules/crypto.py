"""Signatures, conditions, Flo histories."""
from check import *
from terms import *
from query import *

SIGOPQ = ('Condition::equal_link', 'ConditionSignature::verify_cond', 'Condition::to_link', 'Condition::has_verifier')


def sig_check(t):
    """(signature, condition, digest) of a `verify_cond(..)` that came back Ok(true)."""
    u = un_ok(t)
    if u is not None and is_call(u, 'ConditionSignature::verify_cond') and len(u.a) == 4:
        return u.a[1], u.a[2], u.a[3]
    return None


def genesis_digest(t, flo):
    hp = hash_parts(t)
    if hp is None or not is_const(hp[0]):
        return False
    c = {core(p) for p in hp[1]}
    return {fld(flo, 'flo_type'), fld(flo, 'flo_config'), fld(fld(flo, 'cond_genesis'), 'cond'), fld(flo, 'nonce')} <= {c2 for x in c for c2 in (x,)}


def binds_id(p, flo):
    """The part is the Flo's id: in every alternative derived by hashing from the genesis digest or from the forced id."""
    force = fld(fld(flo, 'flo_config'), 'force_id')
    for a in alts(core(p)):
        a = core(a)
        if is_call(a, 'Flo::flo_id'):
            continue
        hp = hash_parts(a)
        if hp is None:
            if genesis_digest(a, flo):
                continue
            return False
        if genesis_digest(a, flo):
            continue
        if not all(genesis_digest(x, flo) or mentions(x, lambda s: s is force) for q in hp[1] for x in alts(core(q))):
            return False
    return True


def data_digest(t, flo, ncond=None):
    hp = hash_parts(t)
    if hp is None or not is_const(hp[0]):
        return False
    n = T('call', 'len', fld(flo, 'cond_update'))
    cs = [core(p) for p in hp[1]]
    return (fld(flo, 'data') in [core(c) if False else c for c in cs] or core(fld(flo, 'data')) in cs) \
        and core(fld(flo, 'data_version')) in cs and any(is_len_of(c, fld(flo, 'cond_update')) for c in cs) \
        and any(binds_id(p, flo) for p in hp[1] if core(p) not in (fld(flo, 'data'), fld(flo, 'data_version')) and not is_len_of(core(p), fld(flo, 'cond_update')))


def is_len_of(c, coll):
    return affine(c, lambda t: t.op in ('len', 'call') and mentions(t, lambda s: s is coll) and 'len' in show(t)[:4] and
                  (t.op == 'len' or len(t.a) == 2))


def update_digest(t, flo, elem):
    hp = hash_parts(t)
    if hp is None or not is_const(hp[0]):
        return False
    cs = [core(p) for p in hp[1]]
    num = [c for c in cs if affine(c, lambda s: s.op == 'idx')]
    return fld(elem, 'cond') in cs and bool(num) and any(binds_id(p, flo) for p in hp[1] if core(p) is not fld(elem, 'cond') and core(p) not in num)


def verify_graph(c):
    return c.an(c.fn('flo::Flo::verify'), opaque=SIGOPQ)


@rule('C01', 'A Flo verifies only if its whole history is signed')
def C01(c):
    """Path automata over Flo::verify: every path that answers true has checked the genesis signature, each condition update
    (signed under the condition before it) and the data signature (under the latest condition), each against the digest of
    exactly the content it stands for."""
    A = verify_graph(c)
    S = T('sym', 'self')
    sinks = ok_rets(A)
    c.sites += len(sinks)
    c.floor('accepting', len(sinks), 1, 'accepting returns of Flo::verify')
    gsig, dsig = fld(fld(S, 'cond_genesis'), 'signatures'), fld(S, 'data_signature')
    gcond, upd = fld(fld(S, 'cond_genesis'), 'cond'), fld(S, 'cond_update')

    def sigd(e, sig, dig):
        x = sig_check(e[2][0]) if e[2] is not None and e[2][1] is True else None
        return x is not None and x[0] is sig and x[1] is fld(sig, 'condition') and dig(x[2])

    def linked(e, sig):
        """The condition the signature was checked against is linked to: returns that link term."""
        if e[2] is not None and e[2][1] is True and is_call(e[2][0], 'Condition::equal_link') and e[2][0].a[1] is fld(sig, 'condition'):
            return e[2][0].a[2]
        return None

    c.guarded('genesis-signature', A, sinks, lambda e: sigd(e, gsig, lambda d: genesis_digest(d, S)),
              'the genesis condition\'s signature is verified over type, configuration, condition and nonce')
    c.guarded('genesis-condition', A, sinks, lambda e: linked(e, gsig) is gcond,
              'the condition that signed the genesis is the genesis condition')
    c.guarded('data-signature', A, sinks, lambda e: sigd(e, dsig, lambda d: data_digest(d, S)),
              'the data signature is verified over id, data, data version and number of condition updates')

    def overupd(t):
        return t.op == 'more' and mentions(t, lambda s: s is upd)

    def more(e, pol):
        return e[2] is not None and e[2][1] is pol and e[2][0].op == 'more' and e[2][0].a[0] is upd

    def islatest(t):
        return path_of(t)[:2] == ('self', 'cond_update') and t.op == 'fld' and t.a[1] == 'cond' and t is not gcond

    # The data's condition is the latest one: with at least one update it has to be an update's.
    tgt = {id(e[3]) for e in sinks}

    def step(q, e):
        it, lg, ll = q
        if e[2] is not None:
            if more(e, True):
                it = True
            l = linked(e, dsig)
            if l is gcond:
                lg = True
            elif l is not None and islatest(l):
                ll = True
            elif l is not None and l.op == 'phi' and all(a is gcond or islatest(a) for a in alts(l)):
                lg = ll = True
        return it, lg, ll
    p = A.automaton((False, False, False), step, lambda q, e: id(e[3]) in tgt and not (q[2] or (q[1] and not q[0])))
    c.ob('data-condition', p is None, 'the condition that signed the data is the latest condition of the history', p)

    # Each update: signed over its own content, under the condition right before it.
    els = {s for l in A.lits() for s in subterms(l[0]) if s.op == 'elem' and s.a[0] is upd}
    c.floor('updates', len(els), 1, 'an iteration over the condition updates')
    c.guarded('all-updates', A, sinks, lambda e: more(e, False), 'the loop over the condition updates ran to its end')
    esigs = [fld(x, 'signatures') for x in els]

    def upstep(q, e):
        n, sg, lk = q
        if more(e, True):
            return min(n + 1, 2), False, False
        if e[2] is not None:
            for x, sg2 in zip(els, esigs):
                if sigd(e, sg2, lambda d: update_digest(d, S, x)):
                    sg = True
                l = linked(e, sg2)
                if l is not None and n == 1 and (l is gcond):
                    lk = True
                if l is not None and n == 2 and islatest(l) and l is not fld(x, 'cond'):
                    lk = True
        return n, sg, lk

    def upbad(which):
        def bad(q, e):
            return (more(e, True) or more(e, False) or id(e[3]) in tgt) and q[0] > 0 and not q[which]
        return bad
    p = A.automaton((0, False, False), upstep, upbad(1))
    c.ob('update-signature', p is None, 'every condition update\'s signature is verified over id, its own number and its own condition', p)
    p = A.automaton((0, False, False), upstep, upbad(2))
    c.ob('update-chain', p is None, 'every condition update is signed under the condition right before it', p)


@rule('C02', 'Signed digests cover every field that determines a Flo')
def C02(c):
    """The digests' terms: which fields of a Flo reach which hash, with which domain, platform independent; signing and
    verifying compute the same digests; every field of the struct is covered or is itself a signature."""
    S = T('sym', 'self')
    doms = {}
    A = verify_graph(c)
    digs = {}
    for l in A.lits():
        x = sig_check(l[0])
        if x is None:
            continue
        hp = hash_parts(x[2])
        k = {('self', 'cond_genesis', 'signatures'): 'genesis', ('self', 'data_signature'): 'data',
             ('self', 'cond_update', '[]', 'signatures'): 'update'}.get(path_of(x[0]))
        if k is None or hp is None:
            c.ob('digest-form', False, f'a signature is checked over something which is not a domain separated hash: {show(x[2], 4)}')
            continue
        digs.setdefault(k, set()).add(x[2])
        doms.setdefault(k, set()).add(hp[0])
    for k in ('genesis', 'update', 'data'):
        c.floor(f'digest-{k}', len(digs.get(k, ())), 1, f'{k} digests found in Flo::verify')
    c.ob('domains', len(set().union(*doms.values())) == len(doms) and all(len(v) == 1 and is_const(next(iter(v))) for v in doms.values()),
         f'genesis, update and data digests use different constant domains: { {k: [show(x) for x in v] for k, v in doms.items()} }')
    for k, v in digs.items():
        for d in v:
            for p in hash_parts(d)[1]:
                bad = [s for s in subterms(p) if s.op == 'call' and s.a[0].split('::')[-1] in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes')
                       and (s.a[0].endswith('to_ne_bytes') or usize_term(s.a[1]))]
                c.ob(f'portable-{k}', not bad, f'the {k} digest is the same on every platform' + (f': {show(bad[0], 4)}' if bad else ''))
                un = [s for s in subterms(p) if s.op == 'call' and (named(s.a[0], 'U256::rnd') or 'SystemTime' in s.a[0] or 'now' == s.a[0].split('::')[-1])]
                c.ob(f'pure-{k}', not un, f'the {k} digest depends on the Flo only')
    # Field coverage over the type itself.
    adt = [a for a in c.F.adt('flo::Flo')][0]
    names = [f[0] for v in adt['variants'] for f in v[1]] if isinstance(adt['variants'][0], list) else [f['name'] for v in adt['variants'] for f in v['fields']]
    cov = {}
    for k, v in digs.items():
        for d in v:
            for s in subterms(d):
                if s.op == 'fld' and s.a[0] is S:
                    cov.setdefault(s.a[1], set()).add(k)
    c.floor('fields', len(names), 8, 'fields of Flo')
    for n in names:
        if n in ('data_signature', 'cond_genesis', 'cond_update'):
            continue    # the signatures themselves; the conditions are checked below and in C01
        c.ob(f'covered:{n}', bool(cov.get(n)), f'the field `{n}` of a Flo is covered by a signed digest')
    for d in digs.get('genesis', ()):
        c.ob('genesis-content', genesis_digest(d, S), 'the genesis digest covers type, configuration, condition and nonce')
    for d in digs.get('data', ()):
        c.ob('data-content', data_digest(d, S), 'the data digest covers id, data, data version and number of condition updates')
    for d in digs.get('update', ()):
        els = {s for s in subterms(d) if s.op == 'elem'}
        c.ob('update-content', any(update_digest(d, S, x) for x in els), 'the update digest covers id, update number and new condition')
    # Sign and verify agree: creating a Flo.
    N = c.an(c.fn('flo::Flo::new_signer'), opaque=SIGOPQ)
    news = [e for e in N.rets() if vname(ret_val(e)) == 'Ok']
    signs = N.calls('sign', 'SignerTrait::sign')
    c.sites += len(signs)
    c.floor('sign-sites', len(signs), 1, 'signing calls when a Flo is created')
    got = {core(e[3].args[1]) for e in signs}
    want = {}
    for e in news:
        flo = inner(ret_val(e))
        for k in ('genesis', 'data'):
            for d in digs.get(k, ()):
                want.setdefault(k, set()).update(expand(subst(d, 'self', flo)))
    for g in got:
        hit = [k for k, v in want.items() if expand(g) & v]
        c.ob('signs-what-is-verified', bool(hit), f'creating a Flo signs the very digest verification will compute ({hit or show(g, 6)})')


def expand(t):
    """Canonical strings of a digest, one per choice of its alternatives."""
    out = set()
    hp = hash_parts(t)
    if hp is None:
        return {canon_s(t)}
    res = [()]
    for p in hp[1]:
        ps = set()
        for a in alts(core(p)):
            ps |= expand(a)
        res = [r + (x,) for r in res for x in ps]
    return {show(hp[0]) + '(' + ','.join(r) + ')' for r in res}


def canon_s(t):
    import re
    s = show(core(t), 30)
    s = re.sub(r'uid\(([^()]|\([^()]*\))*\)', '', s)
    if t.op == 'call' and t.a[0].endswith('len') and t.a[1].op == 'coll0':
        return '0'
    return s


def usize_term(t):
    """A length or index that reaches a byte encoding without a cast to a fixed width."""
    if t.op == 'cast':
        return len(t.a) > 1 and t.a[1] in ('usize', 'isize')
    return t.op in ('idx', 'len') or (t.op == 'call' and t.a[0].split('::')[-1] in ('len', 'count')) or \
        (t.op == 'bin' and any(usize_term(x) for x in t.a[1:3] if is_t(x)))


@rule('C03', 'A signature satisfies a condition only by its own rules')
def C03(c):
    """Case analysis of the condition checker: which literals hold on every path that answers true, per kind of condition."""
    A = c.an(c.fn('ConditionSignature::verify_cond'))
    cond, S, D = T('sym', 'cond'), T('sym', 'self'), T('sym', 'digest')
    acc = ok_rets(A)
    c.sites += len(acc)
    c.floor('accepting', len(acc), 3, 'accepting returns')

    def case(v):
        return lambda e: e[2] is not None and e[2][1] is True and e[2][0].op == 'is' and e[2][0].a[0] is cond and e[2][0].a[1] == v
    kinds = ['Verifier', 'Badge', 'NofT', 'NotAvailable', 'Fail', 'Pass']
    for k in kinds:
        c.floor(f'case-{k}', len([e for e in A.edges if case(k)(e)]), 1, f'the case {k}')

    def only(k, guard, what, key, reset=None):
        tgt = {id(e[3]) for e in acc}

        def step(q, e):
            kk, g = q
            for v in kinds:
                if case(v)(e):
                    kk = v
            if reset is not None and reset(e):
                g = False
            if guard(e):
                g = True
            return kk, g
        p = A.automaton((None, False), step, lambda q, e: id(e[3]) in tgt and q[0] == k and not q[1])
        c.ob(key, p is None, what, p)

    def verified(e):
        """verify(verifier, bytes(digest), self.signatures[verifier.id]) came back Ok."""
        def p(t):
            if not is_call(t, 'VerifierTrait::verify', 'verify') or len(t.a) < 4:
                return False
            v = t.a[1]
            m, s = core(t.a[2]), t.a[3]
            return path_of(v)[0] == 'cond' and m is D and mentions(s, lambda x: x is fld(S, 'signatures')) and \
                mentions(s, lambda x: x.op == 'call' and x.a[0].split('::')[-1] == 'get_id' and x.a[1] is v)
        return is_var(e, 'Ok', p)
    only('Verifier', verified, 'a verifier is satisfied only by a signature stored under its own id which it verifies over the digest', 'verifier')

    def sub(where):
        def g(e):
            u = un_ok(e[2][0]) if e[2] is not None and e[2][1] is True else None
            return u is not None and is_call(u, 'ConditionSignature::verify_cond') and u.a[1] is S and u.a[3] is D and where(u.a[2])
        return g
    only('Badge', sub(lambda x: path_of(x)[:1] == ('cond',) and 'condition' in path_of(x)), 'a badge is satisfied only by its own condition', 'badge')
    never = lambda e: False
    only('NotAvailable', never, 'an unavailable condition is never satisfied', 'not-available')
    only('Fail', never, 'the failing condition is never satisfied', 'fail')
    only(None, never, 'no condition is satisfied without looking at its kind', 'no-case')

    thr = [s for l in A.lits() for s in subterms(l[0]) if s.op == 'fld' and s.a[1] == '0' and s.a[0].op == 'as' and s.a[0].a[1] == 'NofT']
    vec = [s for l in A.lits() for s in subterms(l[0]) if s.op == 'fld' and s.a[1] == '1' and s.a[0].op == 'as' and s.a[0].a[1] == 'NofT']

    def enough(e):
        # not (count < t) as it is normalised, or t <= count
        if e[2] is None or not thr:
            return False
        t = e[2][0]
        if t.op == 'lt' and e[2][1] is False and t.a[1] is thr[0] and counts(t.a[0]):
            return True
        return False

    def counts(x):
        if is_const(x):
            return not mentions(x, lambda s: s.op == 'i' and s.a[0] > 0)
        return True
    only('NofT', enough, 'an n-of-t condition is satisfied only if the count of satisfied members reaches the threshold', 'noft-threshold')
    # The counter: incremented at most once per member, by one, only if the member is satisfied, starting at zero.
    cnts = {l[0].a[0] for l in A.lits() if l[0].op == 'lt' and thr and l[0].a[1] is thr[0]}
    c.floor('counter', len(cnts), 1, 'comparison of a counter with the threshold')
    for n in cnts:
        ok = counter_ok(n, vec[0] if vec else None, S, D)
        c.ob('noft-counter', ok, f'the counter starts at 0 and grows by one per satisfied member: {show(n, 5)}')
    # Satisfied member => counted only after the check was true in the same iteration.
    more = lambda e: e[2] is not None and e[2][0].op == 'more'
    adds = [e for e in A.evedges if e[3].kind == 'panic' and e[3].name.startswith('overflow:Add')]
    good = sub(lambda x: path_of(x)[:1] == ('cond',) and '[]' in path_of(x))
    if adds:
        c.guarded('noft-counted', A, adds, good, 'a member is counted only if it is satisfied', reset=more)
    else:
        c.ob('noft-counted', any(bag_counts(n, S, D) for n in cnts) or any(mentions(n, lambda s: s.op == 'call' and s.a[0].endswith('verify_cond')) for n in cnts),
             'a member is counted only if it is satisfied')
    # The caller's condition is the one in the signature.
    for f in ('ConditionSignature::verify_digest', 'ConditionSignature::verify_msg'):
        V = c.an(c.fn(f), opaque=('ConditionSignature::verify_cond',))
        ca = V.calls('ConditionSignature::verify_cond')
        c.floor(f'delegates-{f}', len(ca), 1, f'{f} asks the condition checker')
        for e in ca:
            c.ob(f'own-condition-{f}', e[3].args[1] is fld(S, 'condition') and e[3].args[0] is S, f'{f} checks the condition carried by the signature')
        rs = [r for r in ok_rets(V)]
        c.guarded(f'result-{f}', V, rs, lambda e: e[2] is not None and e[2][1] is True and sig_check(e[2][0]) is not None,
                  f'{f} is true only if the condition checker says so')


def counter_ok(n, vec, S, D):
    if n.op == 'loop':
        base, ups = n.a[0], n.a[1]
        return all(x.op == 'i' and x.a[0] in (0, 1) for x in alts(base)) and any(x.op == 'i' and x.a[0] == 0 for x in alts(base)) and \
            all(u.op == 'op' and u.a[0] == 'Add' and all(x.op == 'i' and x.a[0] == 1 for x in u.a[1]) for u in ups)
    if n.op in ('len', 'call'):
        return n.op == 'len' or n.a[0].split('::')[-1] in ('len', 'count', 'sum')
    if n.op == 'i':
        return n.a[0] == 0
    if n.op == 'phi':
        return all(counter_ok(x, vec, S, D) for x in n.a[0])
    if n.op == 'cast':
        return counter_ok(n.a[0], vec, S, D)
    return False


def bag_counts(n, S, D):
    return mentions(n, lambda s: s.op == 'bag' and all(any(sig_check(l[0]) is not None and l[1] for l in conds) for _, conds in s.a[1]))


@rule('C04', 'Only members of a condition add signatures to it')
def C04(c):
    """Dominance on every path: each insertion into a signature collection is preceded by the membership test of that signer,
    is stored under the signer's id, and holds that signer's signature of the digest."""
    n = 0
    for fn in c.F.fns.values():
        if '::test' in fn.path or fn.derived or fn.crate == 'flbrowser':
            continue
        if not (fn.impl and tyname(fn.impl).endswith('access::ConditionSignature') and fn.kind == 'assoc' and fn.pub):
            continue
        A = c.an(fn, opaque=('Condition::has_verifier', 'ConditionSignature::verify_cond', 'Condition::hash'))
        ins = [e for e in A.evedges if e[3].kind == 'call' and e[3].name.split('::')[-1] in ('insert', 'entry', 'extend') and
               e[3].addrs and any(x.endswith('signatures') for x in (addr_s(e[3]),))]
        for e in ins:
            n += 1
            k, v = (e[3].args + (UNDEF, UNDEF))[1:3]
            signer = who(k)
            c.guarded(f'member:{fn.name}', A, [e], lambda g: g[2] is not None and g[2][1] is True and is_call(g[2][0], 'Condition::has_verifier')
                      and path_of(g[2][0].a[1])[-1] == 'condition' and g[2][0].a[2] is k,
                      'a signature is added only after the signer was found in the condition', reset=lambda g: g[2] is not None and g[2][0].op == 'more')
            u = un_ok(v)
            c.ob(f'own-signature:{fn.name}', signer is not None and u is not None and u.op == 'call' and u.a[0].split('::')[-1] == 'sign' and u.a[1] is signer,
                 f'what is stored under a signer\'s id is that signer\'s signature: {show(v, 4)}')
    c.sites += n
    c.floor('insertions', n, 2, 'insertions of signatures')
    # Membership itself.
    H = c.an(c.fn('Condition::has_verifier'))
    S, vid = T('sym', 'self'), T('sym', 'vid')
    tr = [e for e in H.rets() if ret_val(e) is not FALSE]

    def ok(e):
        if e[2] is None or e[2][1] is not True:
            return False
        t = e[2][0]
        if t.op == 'eq':
            a, b = t.a
            return (a is vid and is_id(b)) or (b is vid and is_id(a))
        if is_call(t, 'Condition::has_verifier'):
            return t.a[2] is vid and path_of(t.a[1])[0] == 'self' and t.a[1] is not S
        if t.op == 'exists':
            return True
        return t.op == 'is' and t.a[0] is S and t.a[1] == 'Pass'

    def is_id(x):
        return x.op == 'call' and x.a[0].split('::')[-1] == 'get_id' and path_of(x.a[1])[0] == 'self'
    c.guarded('membership', H, tr, ok, 'a verifier is a member only if its id equals a verifier\'s in the condition (or the condition is Pass)')


def addr_s(ev):
    a = ev.addrs[0] if ev.addrs else None
    if a is None:
        return ''
    return show(a) if is_t(a) else str(a)


def who(k):
    return k.a[1] if k.op == 'call' and k.a[0].split('::')[-1] == 'get_id' else None


@rule('C05', 'A data update is accepted only with a signature over that update')
def C05(c):
    """Dominance on every path of Flo::update_data plus the shape of the Flo it returns."""
    S, U = T('sym', 'self'), T('sym', 'update')
    A = c.an(c.fn('flo::Flo::update_data'), opaque=SIGOPQ)
    sinks = ok_rets(A)
    c.floor('accepting', len(sinks), 1, 'accepting returns')
    for s in sinks:
        flo = inner(ret_val(s))
        dig = set()
        sig = fld(flo, 'data_signature')

        def eqd(e):
            if e[2] is None or e[2][1] is not True or e[2][0].op != 'eq':
                return False
            a, b = e[2][0].a
            for x, y in ((a, b), (b, a)):
                if data_digest(y, flo):
                    dig.add(x)
                    return True
            return False

        def ver(e):
            x = sig_check(e[2][0]) if e[2] is not None and e[2][1] is True else None
            return x is not None and x[0] is sig and x[1] is fld(sig, 'condition') and (x[2] in dig or data_digest(x[2], flo))
        direct = any(ver(e) and data_digest(sig_check(e[2][0])[2], flo) for e in A.litedges)
        if not direct:
            c.guarded('digest', A, [s], eqd, 'the verified digest is the digest of the new version')
        for e in A.litedges:
            eqd(e)
        c.guarded('signature', A, [s], ver, 'the new data signature was verified over the digest of the new version')
        v = fld(flo, 'data_version')
        c.ob('version', v.op == 'bin' and v.a[0] == 'Add' and fld(S, 'data_version') in v.a[1:] and T('i', 1) in v.a[1:],
             f'the new version\'s number is the old one plus one: {show(v, 4)}')
        c.ob('data', mentions(fld(flo, 'data'), lambda x: path_of(x)[:1] == ('update',)), 'the new data is the update\'s')
        for n in ('realm', 'flo_type', 'flo_config', 'nonce', 'cond_genesis', 'cond_update'):
            c.ob(f'kept:{n}', fld(flo, n) is fld(S, n), f'a data update leaves `{n}` as it was')


@rule('C06', 'A condition update is accepted only with both signatures')
def C06(c):
    """Dominance on every path of Flo::update_cond: the old condition signed the new one, the new one signed the data."""
    S = T('sym', 'self')
    A = c.an(c.fn('flo::Flo::update_cond'), opaque=SIGOPQ)
    sinks = ok_rets(A)
    c.floor('accepting', len(sinks), 1, 'accepting returns')
    for s in sinks:
        flo = inner(ret_val(s))
        upd = fld(flo, 'cond_update')
        added = [x for x in subterms(upd) if x.op == 'agg' and x.a[0].endswith('CondVersion')]
        c.ob('one-update', len(added) == 1 and mentions(upd, lambda x: x is fld(S, 'cond_update')), 'exactly one update is appended')
        if len(added) != 1:
            continue
        cv = added[0]
        sig, dsig = fld(cv, 'signatures'), fld(flo, 'data_signature')

        def udig(t):
            hp = hash_parts(t)
            if hp is None:
                return False
            cs = [core(p) for p in hp[1]]
            return core(fld(cv, 'cond')) in cs and any(mentions(x, lambda y: y is fld(S, 'cond_update')) and 'len' in show(x, 6) for x in cs) and \
                any(binds_id(p, S) for p in hp[1] if core(p) is not core(fld(cv, 'cond')) and 'len' not in show(p, 6))

        def sg(which, dig):
            def g(e):
                x = sig_check(e[2][0]) if e[2] is not None and e[2][1] is True else None
                return x is not None and x[0] is which and x[1] is fld(which, 'condition') and dig(x[2])
            return g
        c.guarded('cond-signature', A, [s], sg(sig, udig), 'the stored update\'s signature was verified over id, number and new condition')
        c.guarded('data-signature', A, [s], sg(dsig, lambda d: data_digest2(d, flo, S)), 'the stored data signature was verified over the data under the new number of updates')
        for n in ('realm', 'flo_type', 'flo_config', 'nonce', 'cond_genesis', 'data', 'data_version'):
            c.ob(f'kept:{n}', fld(flo, n) is fld(S, n), f'a condition update leaves `{n}` as it was')


def data_digest2(t, flo, old):
    hp = hash_parts(t)
    if hp is None:
        return False
    cs = [core(p) for p in hp[1]]
    lens = [x for x in cs if 'len' in show(x, 3)]
    return core(fld(flo, 'data')) in cs and core(fld(flo, 'data_version')) in cs and \
        any(mentions(x, lambda y: y is fld(flo, 'cond_update')) or (x.op == 'bin' and x.a[0] == 'Add') for x in lens) and \
        any(binds_id(p, flo) or binds_id(p, old) for p in hp[1] if core(p) not in lens and core(p) not in (core(fld(flo, 'data')), core(fld(flo, 'data_version'))))


@rule('C07', 'A condition matches a link only if they have the same structure')
def C07(c):
    """Case analysis of Condition::equal_link: per kind of link, the literals that hold on every path answering true."""
    fn = c.fn('Condition::equal_link')
    A = c.an(fn, opaque=('Condition::to_link', 'BadgeLink::fits_version'))
    S, L = T('sym', 'self'), T('sym', 'cond_link')
    acc = [e for e in A.rets() if ret_val(e) is not FALSE]
    c.sites += len(acc)
    kinds = ['Verifier', 'Badge', 'NofT', 'Fail', 'Pass']
    tgt = {id(e[3]) for e in acc}
    c.floor('accepting', len(acc), 1, 'accepting returns')

    def isv(e, who, v):
        return e[2] is not None and e[2][1] is True and e[2][0].op == 'is' and e[2][0].a[0] is who and e[2][0].a[1] == v

    def only(k, key, guard, what, reset=None):
        def step(q, e):
            kk, g = q
            for v in kinds:
                if isv(e, L, v):
                    kk = v
            if reset is not None and reset(e):
                g = False
            if guard(e):
                g = True
            return kk, g
        p = A.automaton((None, False), step, lambda q, e: id(e[3]) in tgt and q[0] in (k, None) and not q[1])
        c.ob(key, p is None, what, p)
    for k in kinds:
        c.floor(f'case-{k}', len([e for e in A.edges if isv(e, L, k)]), 1, f'the case of a link of kind {k}')
        only(k, f'same-kind-{k}', lambda e, k=k: isv(e, S, k), f'a link of kind {k} matches only a condition of kind {k}')

    def eq(p, q):
        def g(e):
            if e[2] is None or e[2][1] is not True or e[2][0].op != 'eq':
                return False
            a, b = e[2][0].a
            return (p(a) and q(b)) or (p(b) and q(a))
        return g
    of = lambda root, v, i=None: (lambda t: mentions(t, lambda s: s.op == 'as' and s.a[0] is root and s.a[1] == v) and (i is None or
                                  mentions(t, lambda s: s.op == 'fld' and s.a[1] == i and s.a[0].op == 'as' and s.a[0].a[0] is root)))
    only('Verifier', 'verifier-id', eq(lambda t: is_call(t, 'get_id', 'VerifierTrait::get_id') and of(S, 'Verifier')(t), of(L, 'Verifier')),
         'a verifier matches only the link with its id')
    only('Badge', 'badge-spec', eq(of(S, 'Badge', '0'), of(L, 'Badge', '0')), 'a badge matches only the link with the same version specification')
    only('NofT', 'noft-threshold', eq(of(S, 'NofT', '0'), of(L, 'NofT', '0')), 'an n-of-t matches only the link with the same threshold')
    only('NofT', 'noft-length', eq(lambda t: 'len' in show(t, 2)[:5] and of(S, 'NofT', '1')(t), lambda t: 'len' in show(t, 2)[:5] and of(L, 'NofT', '1')(t)),
         'an n-of-t matches only the link with the same number of members')

    # Each pair of members matches: on an accepting path, each iteration has a positive recursive comparison.
    def paired(t):
        return is_call(t, 'Condition::equal_link') and of(S, 'NofT')(t.a[1]) and of(L, 'NofT')(t.a[2]) and t.a[1] is not S

    def allm(e):
        if e[2] is None:
            return False
        t, pol = e[2]
        if t.op == 'exists' and pol is False:
            return any(paired(l[0]) and l[1] is False for d in t.a[1] for l in d)
        return pol is True and paired(t)

    def step(q, e):
        kk, it, done = q
        for v in kinds:
            if isv(e, L, v):
                kk = v
        if e[2] is not None and e[2][0].op == 'more':
            src = e[2][0].a[0]
            if e[2][1] is True:
                if it in ('no', 'ok') or it is src:
                    it, done = src, False
            elif it in ('no', 'ok'):
                done = True
        if allm(e):
            if e[2][0].op == 'exists':
                done = True
            it = 'ok'
        return kk, it, done
    p = A.automaton((None, 'no', False), step, lambda q, e: (id(e[3]) in tgt and q[0] == 'NofT' and not q[2]) or
                    (e[2] is not None and e[2][0].op == 'more' and q[0] == 'NofT' and q[1] is e[2][0].a[0]))
    c.ob('noft-members', p is None, 'an n-of-t matches only if its members match pairwise', p)


@rule('C08', 'Version specifications accept exactly the versions they name')
def C08(c):
    """Decision table of VersionSpec::accepts over the ordering of the two versions (finite), plus its users."""
    A = c.an(c.fn('VersionSpec::accepts'))
    S, V = T('sym', 'self'), T('sym', 'version')
    table = {'Minimal': {'lt': False, 'eq': True, 'gt': True}, 'Exact': {'lt': False, 'eq': True, 'gt': False},
             'Maximal': {'lt': True, 'eq': True, 'gt': False}}
    for k, row in table.items():
        b = T('fld', T('as', S, k), '1')
        for o, want in row.items():
            got = set()

            def step(q, e, k=k, b=b, o=o):
                if e[2] is not None:
                    t, pol = e[2]
                    if t.op == 'is' and t.a[0] is S:
                        if (t.a[1] == k) != pol:
                            return None
                    if t.op == 'lt' and set(t.a) == {V, b}:
                        truth = (o == 'lt') if t.a[0] is V else (o == 'gt')
                        if truth != pol:
                            return None
                    if t.op == 'eq' and set(t.a) == {V, b}:
                        if (o == 'eq') != pol:
                            return None
                return q

            def bad(q, e):
                if isret(e):
                    got.add(ret_val(e))
                return False
            A.automaton(0, step, bad)
            c.sites += 1
            c.ob(f'{k}-{o}', got == {C(want)}, f'{k}(v) {"accepts" if want else "refuses"} a version {dict(lt="below", eq="equal to", gt="above")[o]} v: {[show(x) for x in got]}')
    # A badge fits only with the id and an accepted version.
    F = c.an(c.fn('BadgeLink::fits_version'), opaque=('VersionSpec::accepts', 'VersionSpec::get_id', 'VersionSpec::id'))
    tr = [e for e in F.rets() if ret_val(e) is not FALSE]
    c.guarded('badge-version', F, tr, lambda e: lit(e, lambda t: is_call(t, 'VersionSpec::accepts') and t.a[1] is T('sym', 'ver') and t.a[2] is fld(S, 'version')),
              'a badge fits only if the specification accepts the badge\'s version')
    c.guarded('badge-id', F, tr, lambda e: lit(e, lambda t: t.op == 'eq' and fld(S, 'id') in t.a and has_call(T('x', *t.a), 'VersionSpec::get_id', 'VersionSpec::id')),
              'a badge fits only if the ids are equal')
    W = c.an(c.fn('flo::FloWrapper::fits_version'), opaque=('VersionSpec::accepts', 'VersionSpec::get_id', 'VersionSpec::id', 'Flo::flo_id'))
    tr = [e for e in W.rets() if ret_val(e) is not FALSE]
    c.guarded('flo-version', W, tr, lambda e: lit(e, lambda t: is_call(t, 'VersionSpec::accepts') and has_field(t.a[2], 'data_version')),
              'a Flo fits only if the specification accepts the Flo\'s version')
    c.guarded('flo-id', W, tr, lambda e: lit(e, lambda t: t.op == 'eq' and has_call(T('x', *t.a), 'Flo::flo_id') and has_call(T('x', *t.a), 'VersionSpec::get_id', 'VersionSpec::id')),
              'a Flo fits only if the ids are equal')
