"""V01: what is written is read back whole. V02: stored values of older versions are taken over."""
import re
from check import *
from terms import *
from query import *
from facts import strip_generics

SER = {'serde_yaml::to_string': 'yaml', 'serde_json::to_string': 'json', 'rmp_serde::to_vec': 'rmp', 'serde_json::to_vec': 'json', 'serde_yaml::to_writer': 'yaml'}
DES = {'serde_yaml::from_str': 'yaml', 'serde_json::from_str': 'json', 'rmp_serde::from_slice': 'rmp', 'serde_json::from_slice': 'json', 'serde_yaml::from_slice': 'yaml',
       'serde_yaml::from_reader': 'yaml', 'rmp_serde::from_read': 'rmp'}


_calls = {}


def calls(f):
    """(callee, generic arguments, call) of all the calls in a function."""
    if f.key not in _calls:
        _calls[f.key] = list(calls_of(f))
    return _calls[f.key]


def calls_of(f):
    for b in f.blocks:
        t = b['t']
        if t[0] == 'call' and t[1][0] == 'f':
            x = t[1][1]
            yield strip_generics(x['fn']), [f.tys[g] if isinstance(g, int) else str(g) for g in x.get('ga') or []], t


def tname(t):
    t = re.sub(r"'\w+ ", '', t).lstrip('&').strip()
    return strip_generics(t)


def generic(t):
    return bool(re.fullmatch(r'[A-Z]\w{0,3}|Self|impl .*', t))


def uses(c):
    """{(format, type)} written and read by code which is not a test, through generic wrappers."""
    out = []
    all_ = [(f, n, ga, t) for f in c.F.fns.values() if not (f.derived or '::test' in f.path or '::_::' in f.path) for n, ga, t in calls(f)]
    for table in (SER, DES):
        wrap = {}
        r = {}
        for _ in range(4):
            for f, n, ga, t in all_:
                if n in table or wrap:
                    fmt = table.get(n) or wrap.get(t[1][1].get('rk')) or wrap.get(t[1][1].get('key'))
                    if not fmt or not ga:
                        continue
                    ty = [tname(g) for g in ga if not re.match(r"'", g)]
                    if not ty:
                        continue
                    if generic(ty[0]):
                        wrap.setdefault(c.F.top(f).key, fmt)
                    else:
                        r.setdefault((fmt, ty[0]), set()).add(c.F.top(f).path)
        out.append(r)
    return out


def derived_pairs(c):
    """type -> (the derived function writing it, the one reading it)."""
    S, D = {}, {}
    for i in c.F.impls:
        if not i['trait'] or '::test' in i['selfty'] or '__SerializeWith' in i['selfty'] or '__DeserializeWith' in i['selfty']:
            continue
        t = strip_generics(i['trait']).split('::')[-1]
        for nm, k in i['items']:
            if k in c.F.fns and t == 'Serialize' and nm == 'serialize':
                S[strip_generics(i['selfty'])] = c.F.fns[k]
            if k in c.F.fns and t == 'Deserialize' and nm == 'deserialize':
                D[strip_generics(i['selfty'])] = c.F.fns[k]
    return S, D


def consts(f):
    return set(re.findall(r"'v': '([^']*)'", repr(f.blocks)))


# Fields which are no data: what they hold is given when the value is created, or derived from the other fields.
NOT_DATA = {('CryptoStorage', 'ds'), ('NodeInfo', 'id'), ('NodeInfoV2', '_id'), ('NodeInfoV3', 'id')}


def fields(c):
    S, D = derived_pairs(c)
    visitors = {}
    for f in c.F.fns.values():
        m = re.match(r'<(.*)::(__FieldVisitor|__Visitor)(<.*>)? as .*>::(visit_str|visit_map|visit_seq)$', f.path)
        if m:
            visitors.setdefault(m.group(1), {})[m.group(4)] = f
    special = {'__SerializeWith': [], '__DeserializeWith': []}
    for f in c.F.fns.values():
        for k in special:
            if k in f.path:
                special[k].append(f)
    n = 0
    skipping = set()
    for t, fs in sorted(S.items()):
        fd = D.get(t)
        adt = c.F.adts.get(t)
        if fd is None or adt is None or not fs.derived or t.endswith('::InternalBitFlags'):
            continue
        n += 1
        short = '::'.join(t.split('::')[-2:])
        vis = visitors.get(fd.path, {})
        W, count = [], 0
        preds = set()
        for name, ga, call in calls(fs):
            last = name.split('::')[-1]
            ks = [str(a[1].get('v')) for a in call[2] if a[0] == 'k' and isinstance(a[1], dict) and 'v' in a[1]]
            if last in ('serialize_field', 'serialize_entry', 'serialize_element'):
                count += 1
                W += ks[:1]
            elif last in ('serialize_unit_variant', 'serialize_newtype_variant', 'serialize_tuple_variant', 'serialize_struct_variant'):
                W += ks[2:3]
                count += last == 'serialize_newtype_variant'
            elif last in ('serialize_newtype_struct',):
                count += 1
            elif last == 'skip_field':
                skipping.add(t)
            elif last in ('serialize',) and name.split('::')[-2:-1] == ['Serialize']:
                count += 1
            elif last.startswith('is_') or last.startswith('skip'):
                preds.add(name)
        vs = adt['variants']
        isenum = len(vs) > 1 or adt.get('kind') == 'enum' or any(w in ('serialize_unit_variant',) for w in ())
        names = [x['name'] for v in vs for x in v['fields']]
        data = [x for x in names if (t.split('::')[-1], x) not in NOT_DATA]
        conv = any(name.endswith('::into') or name.endswith('From::from') for name, _, _ in calls(fs))
        if conv and not W:
            # Written as another type, which is looked at by itself.
            continue
        body = repr(fs.blocks)
        unread = [] if isenum else sorted(x for x in data if f"'.{x}'" not in body)
        c.ob(f'fields:{short}', count >= len(data) and not unread, f'all the data of {short} is written: {unread if not isenum else len(data)}, {count} written')
        if isenum:
            c.ob(f'variants:{short}', len(set(W) & {v['name'] for v in vs} | {w for w in W}) >= len(vs) and len([w for w in W]) >= len(vs), f'all the variants of {short} are written under their names: {sorted(v["name"] for v in vs)} as {sorted(W)}')
        if W:
            R = consts(vis['visit_str']) if 'visit_str' in vis else set()
            c.ob(f'names:{short}', set(W) <= R, f'what is written of {short} is read under the same names: {sorted(set(W) - R)}')
        attrs = ' '.join(x['attrs'] for v in vs for x in v['fields'])
        if t in skipping:
            c.ob(f'left-out:{short}', preds <= {'std::option::Option::is_none'} or 'default' in attrs and all(p.split('::')[-1] in ('is_none', 'is_empty') for p in preds),
                 f'only what is read as missing is left out of {short}: {sorted(preds)}')
        # Fields written in a special way are read in the same way.
        how = lambda fns, m: sorted((n2, ga[0] if ga else '') for f in fns for n2, ga, _ in calls(f) if n2.split('::')[-1] == m and 'serde_with' in n2)
        wr = how([f for f in special['__SerializeWith'] if f.path.startswith('<' + fs.path + '::__SerializeWith')], 'serialize')
        rd = how([f for f in special['__DeserializeWith'] if f.path.startswith(('<<' + fd.path, '<' + fd.path))], 'deserialize')
        c.ob(f'same-way:{short}', {g for _, g in wr} == {g for _, g in rd}, f'what is written of {short} in a special way is read in the same way: {sorted({g for _, g in wr} ^ {g for _, g in rd})}')
    c.floor('types', n, 80, 'types which are written and read')
    return skipping


@rule('V01', 'What is written is read back whole')
def V01(c):
    """All the types with derived serialisation, and all the places writing or reading them."""
    skipping = fields(c)
    W, R = uses(c)
    strip = lambda t: t.removeprefix('mut ')
    fw, fr = {}, {}
    for (fmt, t), fs in W.items():
        fw.setdefault(strip(t), {}).setdefault(fmt, set()).update(fs)
    for (fmt, t), fs in R.items():
        fr.setdefault(strip(t), {}).setdefault(fmt, set()).update(fs)
    n = 0
    for t in sorted(set(fw) & set(fr)):
        n += 1
        c.sites += 2
        bad = [f'read as {f} in {min(fr[t][f])}' for f in fr[t] if f not in fw[t]] + [f'written as {f} in {min(fw[t][f])}' for f in fw[t] if f != 'rmp' and f not in fr[t]]
        c.ob(f'format:{t.split("::")[-2]}::{t.split("::")[-1]}', not bad, f'{t} is read in the format it is written in: {bad}')
    c.floor('formats', n, 14, 'types written and read')
    # Types with fields left out have no place in a format without field names.
    reach = {t for t in fw if 'rmp' in fw[t]}
    todo = list(reach)
    while todo:
        a = c.F.adts.get(todo.pop())
        for x in (y for v in (a['variants'] if a else []) for y in v['fields']):
            for u in x['adts']:
                if u not in reach:
                    reach.add(u)
                    todo.append(u)
    c.ob('positions', not (reach & skipping), f'nothing is left out of values written by position: {sorted(reach & skipping)}')
    # The generic functions: both directions in one place use the same format.
    grp = {}
    for table, d in ((SER, 'w'), (DES, 'r')):
        for f in c.F.fns.values():
            if f.derived or '::test' in f.path:
                continue
            for nm, ga, _ in calls(f):
                if nm in table and ga and generic(tname(ga[0])):
                    grp.setdefault(c.F.top(f).path.rsplit('::', 1)[0], {}).setdefault(d, set()).add(table[nm])
    k = 0
    for p, g in sorted(grp.items()):
        if len(g) == 2:
            k += 1
            c.ob(f'both-ways:{p.split("::")[-1]}', g['w'] == g['r'], f'{p} reads what it writes: {g}')
    c.floor('both-ways', k, 2, 'pairs of generic functions')
    # The messages between the nodes: one type for the messages of a module.
    mods = {}
    for f in c.F.fns.values():
        if f.derived or '::test' in f.path:
            continue
        for nm, ga, _ in calls(f):
            m = nm.split('::')[-1]
            if m in ('wrap_yaml', 'unwrap_yaml') and ga and not generic(tname(ga[0])):
                A = c.an(c.F.top(f), opaque=('flmodules::', 'flarch::', 'flcrypto::'))
                names = {show(core(e[3].args[m == 'unwrap_yaml']), 3) for e in A.evedges if iscall(e, f'NetworkWrapper::{m}')}
                for x in names:
                    mods.setdefault(x, {}).setdefault(m, set()).add(strip(tname(ga[0])))
    c.floor('modules', len(mods), 6, 'modules sending messages to other nodes')
    for x, g in sorted(mods.items()):
        w, r = g.get('wrap_yaml', set()), g.get('unwrap_yaml', set())
        c.ob(f'messages:{x}', w <= r or not w, f'all the messages of module {x} are read by it: {sorted(w - r)}')



OLD = re.compile(r'(V\d+|Version|Save)$')
base = lambda t: OLD.sub('', t.split('::')[-1])
NOT_CONVERTED = ('Modules', 'U256')


def conversions(c):
    """The functions turning a value of an older version into a newer one: (function, type it takes, type it gives)."""
    for f in c.F.fns.values():
        if '::test' in f.path or f.args != 1 or not f.path.startswith(('fl', '<fl')) or f.name in ('clone', 'borrow', 'to_owned'):
            continue
        a, r = tname(f.lty(1)), tname(f.lty(0))
        if a in c.F.adts and r in c.F.adts and a != r and base(a) == base(r) and base(a) not in NOT_CONVERTED:
            yield f, a, r


def reachable(c, t):
    """All the types a value of this type holds."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x not in seen and x in c.F.adts:
            seen.add(x)
            todo += [u for v in c.F.adts[x]['variants'] for y in v['fields'] for u in y['adts']]
    return seen


def taken(t, name):
    """Nothing but the field of this name of the older version."""
    while True:
        if t.op == 'cast' or (t.op == 'call' and t.a[0] == 'cast'):
            if not any(w in repr(t.a[-1]) + repr(t.a[1] if len(t.a) > 1 else '') for w in ('i64', 'f64', 'u64')):
                return False
            t = t.a[1] if t.op == 'call' else t.a[0]
        elif t.op == 'old':
            t = t.a[0]
        elif t.op == 'fld' and t.a[1] == '0':
            t = t.a[0]
        elif t.op == 'agg' and t.a[1] is None and t.a[2] == ('0',):
            t = t.a[3][0]
        elif core(t) is not t:
            t = core(t)
        else:
            break
    if t.op == 'phi':
        return all(taken(x, name) for x in alts(t))
    if t.op == 'agg':
        # Looked at by itself.
        return t.a[1] is None and t.a[0] not in ('tuple', 'array')
    if t.op == 'bag':
        return mentions(t, lambda x: x.op == 'fld' and x.a[1] == name)
    return t.op == 'fld' and t.a[1] == name


def bits(t):
    """The capabilities: those of the older version, or the default ones if they cannot be represented."""
    xs = alts(t)
    own = [x for x in xs if taken_bits(x)]
    return bool(own) and all(x in own or not mentions(x, lambda y: y.op == 'fld' and y.a[1] == 'modules') for x in xs)


def taken_bits(t):
    t = core(t)
    while t.op == 'fld' and t.a[1] == '0' or t.op == 'as' or t.op == 'old':
        t = core(t.a[0])
    return t.op == 'call' and t.a[0].split('::')[-1] == 'from_bits' and is_call(core(t.a[1]), 'bits') and taken(core(core(t.a[1]).a[1]), 'modules')


@rule('V02', 'What older versions of a node stored is taken over')
def V02(c):
    """The conversions from all older formats, and the places reading and writing the formats with versions."""
    n = 0
    opq = ('flmodules::Modules', 'flmodules::gossip_events::core::Event::get_id')
    for f, a, r in conversions(c):
        n += 1
        A = c.an(f, opaque=opq)
        short = f'{a.split("::")[-1]}->{r.split("::")[-1]}'
        held = {}
        for t in reachable(c, a):
            held.setdefault(base(t), set()).update(x['name'] for v in c.F.adts[t]['variants'] for x in v['fields'])
        adt = c.F.adts[a]['variants']
        vs = [x['name'] for x in adt]
        # A version without any data.
        void = {x['name'] for x in adt if len(adt) > 1 and all(c.F.adts[u]['variants'] and not c.F.adts[u]['variants'][0]['fields']
                                                               for y in x['fields'] for u in y['adts'] if u in c.F.adts)}
        seen = set(void)
        for e in A.rets():
            v = ret_val(e)
            for t in subterms(v):
                if t.op == 'as':
                    seen.add(t.a[1])
                if t.op != 'agg' or t.a[0] not in c.F.adts or t.a[1] is not None or base(t.a[0]) in NOT_CONVERTED:
                    continue
                nm = t.a[0].split('::')[-1]
                if void and not mentions(t, lambda x: x.op == 'as'):
                    continue
                for name, val in zip(t.a[2], t.a[3]):
                    if (nm, name) in NOT_DATA or name not in held.get(base(nm), ()):
                        continue
                    ok = bits(val) if name == 'modules' and not taken(val, name) else taken(val, name)
                    c.ob(f'field:{short}:{nm}.{name}', ok, f'{name} of {nm} is what the older version holds: {show(val, 5)}')
            for t in subterms(v):
                if t.op == 'bag':
                    c.ob(f'all:{short}', unfiltered(t), f'nothing is left out: {show(t, 4)}')
        if len(vs) > 1:
            c.ob(f'variants:{short}', set(vs) <= seen, f'every version is converted: {vs}, {sorted(seen)}')
    c.floor('conversions', n, 8, 'conversions of older versions')

    # The formats with versions: what is written is the whole value, what is read ends up in it.
    k = 0
    saves = [t for t in c.F.adts if t.split('::')[-1].endswith('Save') and '::test' not in t]
    for t in sorted(saves):
        last = c.F.adts[t]['variants'][-1]
        now = next((u for u in last['fields'][0]['adts']), None) if last['fields'] else None
        for f in c.F.fns.values():
            if f.derived or '::test' in f.path or not f.path.startswith(f'{now}::') or f.kind != 'assoc':
                continue
            rd = any(n2 in DES and ga and tname(ga[0]) == t for g in [f] + callees(c, f) for n2, ga, _ in calls(g))
            wr = any(n2 in SER and ga and tname(ga[0]) == t for n2, ga, _ in calls(f))
            short = '::'.join(f.path.split('::')[-2:])
            if wr:
                k += 1
                A = c.an(f, opaque=opq)
                es = [e for e in A.evedges if e[3].kind == 'call' and any(e[3].name.endswith(x) for x in SER)]
                c.ob(f'written:{short}', es and all(variant(e[3].args[0], last['name']) and path_of(core(inner(e[3].args[0]))) == ('self',) for e in es),
                     f'the whole value is written, as the newest version: {[show(e[3].args[0], 4) for e in es]}')
            elif rd:
                k += 1
                A = c.an(f, opaque=opq + tuple(g.path for g, a, r in conversions(c)))
                got = lambda x: mentions(x, lambda y: is_call(y, *[z.split('::', 1)[1] for z in DES]))
                names = {x['name'] for v in c.F.adts[now]['variants'] for x in v['fields']}
                own = lambda x: mentions(x, lambda y: y.op == 'fld' and y.a[1] in names and path_of(y)[:1] == ('self',))
                put = [e for e in A.evedges if e[3].kind == 'call' and e[3].args and place(e) in names and any(got(x) for x in e[3].args[1:]) or
                       e[3].kind == 'write' and (place(e) in names or path_of(e[3].args[0])[:1] == ('self',)) and got(e[3].args[1]) and own(e[3].args[1])]
                c.ob(f'taken-over:{short}', put, 'what was read is taken over')
                more = lambda e, pol: lit(e, lambda y: y.op == 'more' and got(y.a[0]), pol)
                c.guarded(f'read:{short}', A, ok_rets(A), lambda e: e in put or more(e, False), 'what was read is taken over before Ok is returned')
                c.followed(f'each:{short}', A, [e for e in A.litedges if more(e, True)], lambda e: e in put, [e for e in A.litedges if more(e, None)] + A.rets(),
                           'everything read is taken over', least=0)
    c.floor('versions', k, 3, 'places reading and writing formats with versions')
    # The first format had no version.
    for f in c.F.fns.values():
        if f.path.endswith('EventsStorageSave::from_str'):
            c.ob('unversioned', any(n2 in DES and ga and tname(ga[0]).endswith('EventsStorageV1') for g in [f] + callees(c, f) for n2, ga, _ in calls(g)),
                 'events written without version are still read')


def callees(c, f, d=3):
    """The functions called by f, and the closures in it, some levels deep."""
    out, todo = [], [(f, d)]
    while todo:
        g, n = todo.pop()
        for x in c.F.children.get(g.key, ()):
            if x not in out:
                out.append(x)
                todo.append((x, n))
        if n:
            for _, _, t in calls(g):
                x = c.F.fns.get(t[1][1].get('rk')) or c.F.fns.get(t[1][1].get('key'))
                if x is not None and x not in out and x is not f:
                    out.append(x)
                    todo.append((x, n - 1))
    return out


def unfiltered(t):
    """A collection all the elements of another one end up in."""
    return all(not cs for _, cs in t.a[1]) and not mentions(t, lambda x: x.op == 'part')
