"""Models of the standard-library operations the workspace uses (value flow and branching only)."""
from terms import *
from engine import *
from facts import strip_generics

TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


OVERRIDABLE = {'std::clone::Clone::clone', 'std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne', 'std::default::Default::default',
               'std::convert::From::from', 'std::convert::Into::into', 'std::convert::AsRef::as_ref',
               'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::cmp::PartialOrd::lt',
               'std::cmp::Ord::cmp', 'std::string::ToString::to_string', 'std::iter::Iterator::next', 'std::ops::Fn::call',
               'std::iter::IntoIterator::into_iter', 'std::future::Future::poll', 'std::ops::Index::index'}


def overridable(n):
    return n in OVERRIDABLE


def R(st, v):
    return [(v, st)]


# ------------------------------------------------------------------ identity-like
@reg('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut')
def deref(E, st, args, cx):
    a = args[0]
    if a.op == 'ref':
        # The guard of a lock is the reference to what is locked.
        w = E.read(st, a.a[0], a.a[1])
        if w.op == 'ref' and a.a[0][0] == 'L':
            return R(st, w)
    return R(st, a)


@reg('std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut',
     'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut',
     'std::future::IntoFuture::into_future', 'std::pin::Pin::new_unchecked', 'std::pin::Pin::new', 'std::boxed::Box::new',
     'std::boxed::Box::pin', 'std::sync::Arc::new', 'std::rc::Rc::new', 'std::sync::Mutex::new', 'futures::lock::Mutex::new',
     'std::cell::RefCell::new', 'std::hint::must_use', 'anyhow::__private::must_use', 'futures::lock::Mutex::lock', 'tokio::sync::Mutex::lock',
     'std::vec::Vec::as_slice', 'std::string::String::as_str', 'std::string::String::as_bytes', 'core::str::as_bytes', 'std::vec::Vec::as_mut_slice',
     'std::pin::Pin::as_mut', 'std::pin::Pin::get_mut', 'std::sync::Arc::as_ref', 'std::boxed::Box::as_mut', 'std::boxed::Box::as_ref',
     'std::rc::Rc::as_ref', 'tokio::sync::Mutex::new', 'std::cell::RefCell::borrow_mut', 'std::cell::RefCell::borrow',
     'core::slice::as_slice', 'std::mem::ManuallyDrop::new', 'std::convert::identity', 'std::cell::Cell::new',
     'std::sync::RwLock::new', 'std::sync::Arc::make_mut', 'std::sync::Arc::get_mut_unchecked', 'std::vec::Vec::into_boxed_slice',
     'tokio::sync::RwLock::new', 'tokio::sync::RwLock::read', 'tokio::sync::RwLock::write')
def ident(E, st, args, cx):
    return R(st, args[0])


@reg('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::slice::to_vec', 'core::slice::to_vec', 'std::convert::AsRef::as_ref',
     'std::option::Option::cloned', 'std::option::Option::copied', 'std::iter::Iterator::cloned', 'std::iter::Iterator::copied',
     'std::option::Option::as_deref', 'std::string::String::into_bytes', 'std::vec::Vec::to_vec', 'core::str::to_string', 'std::string::String::to_string',
     'std::string::ToString::to_string@str', 'bytes::Bytes::to_vec', 'std::iter::Iterator::by_ref', 'std::iter::Iterator::fuse',
     'std::sync::Arc::clone', 'std::rc::Rc::clone', 'std::slice::into_vec', 'std::boxed::Box::into_inner', 'std::sync::Arc::unwrap_or_clone',
     'itertools::Itertools::unique', 'std::convert::Into::into@same')
def clone(E, st, args, cx):
    a = args[0]
    v = E.val(st, a)
    if v.op in ('clo', 'iter'):
        return R(st, v)
    return R(st, E.deep(st, v) if refs(v) and v.op != 'iter' else v)


TABLE['std::convert::AsRef::as_ref'] = ident


@reg('std::string::ToString::to_string')
def to_string(E, st, args, cx):
    t = cx.ga[0] if cx.ga else ''
    if t in ('str', 'std::string::String', '&str', '&std::string::String'):
        return clone(E, st, args, cx)
    return R(st, T('call', 'to_string', E.deep(st, args[0])))


@reg('std::convert::Into::into', 'std::convert::From::from', 'std::convert::TryInto::try_into', 'std::convert::TryFrom::try_from')
def into(E, st, args, cx):
    v = args[0]
    if len(cx.ga) >= 2:
        if cx.tr and cx.tr.endswith('Into') or (cx.tr and cx.tr.endswith('TryInto')):
            src, dst = cx.ga[0], cx.ga[1]
        else:
            dst, src = cx.ga[0], cx.ga[1]
        tryy = cx.tr and 'Try' in cx.tr
        if src == dst:
            return R(st, v)
        if not tryy:
            k = E.F.from_impl.get(f'<{dst} as std::convert::From<{src}>>')
            if k is None and dst.startswith(OPT):
                return R(st, Some(v))
            if k and k in E.F.fns:
                return E.call_fn(st, E.F.fns[k], args, cx)
            strs = ('std::string::String', '&str', 'str', '&std::string::String', 'std::boxed::Box<str>')
            if src in strs and dst in strs:
                return clone(E, st, args, cx)
            if dst.startswith(('std::vec::Vec', 'std::sync::Arc', 'std::boxed::Box', 'std::rc::Rc', 'bytes::Bytes', 'anyhow::Error')):
                return clone(E, st, args, cx)
            if dst in ('usize', 'u64', 'u32', 'u128', 'i64', 'f64', 'i128', 'u16'):
                return R(st, T('cast', E.val(st, v), dst))
        else:
            for (i, k) in E.F.trait_impl.get(('std::convert::TryFrom', 'try_from'), []):
                if i['tref'] == f'<{dst} as std::convert::TryFrom<{src}>>' and k in E.F.fns:
                    return E.call_fn(st, E.F.fns[k], args, cx)
    return None


@reg('std::default::Default::default')
def default(E, st, args, cx):
    t = cx.dty
    d = {'bool': FALSE, 'usize': C(0), 'u64': C(0), 'u32': C(0), 'u8': C(0), 'std::string::String': T('c', '')}.get(t)
    if d is not None:
        return R(st, d)
    if t.startswith(OPT):
        return R(st, NONE)
    if t.startswith(('std::vec::Vec', 'std::collections::')):
        return R(st, T('coll0', 'empty'))
    if cx.rk in E.F.fns:
        return E.call_fn(st, E.F.fns[cx.rk], args, cx)
    return None


@reg('std::vec::Vec::new', 'std::collections::HashMap::new', 'std::collections::HashSet::new', 'std::collections::BTreeMap::new', 'std::string::String::new',
     'std::collections::VecDeque::new', 'std::vec::Vec::with_capacity', 'std::collections::BTreeSet::new', 'std::collections::HashMap::with_capacity')
def newcoll(E, st, args, cx):
    if args:
        E.ev_call(st, cx.res, args, cx)
    return R(st, T('coll0', 'empty'))


@reg('std::boxed::Box::new_uninit')
def uninit(E, st, args, cx):
    return R(st, UNDEF)


@reg('std::boxed::box_assume_init_into_vec_unsafe', 'std::boxed::Box::assume_init', 'std::intrinsics::write_box_via_move')
def assume_init(E, st, args, cx):
    v = E.val(st, args[0])
    while v.op == 'upd' and v.a[0].op == 'undef' and len(v.a[1]) == 1:
        v = v.a[1][0][1]
    return R(st, v)


# ------------------------------------------------------------------ futures
@reg('std::future::Future::poll', 'futures::Future::poll', 'std::future::get_context', 'futures::FutureExt::poll_unpin')
def poll(E, st, args, cx):
    return [(enum1(POLL, 'Ready', v), s) for v, s in E.poll(st, args[0], cx)]


TABLE['std::future::get_context'] = ident


# ------------------------------------------------------------------ ?, Option and Result
@reg('std::ops::Try::branch')
def branch(E, st, args, cx):
    ty = cx.ga[0] if cx.ga else ''
    out = []
    if ty.startswith(OPT):
        for n, p, s in E.split(st, args[0], ('Some', 'None')):
            out.append((enum1(CF, 'Continue', p), s) if n == 'Some' else (enum1(CF, 'Break', NONE), s))
    else:
        for n, p, s in E.split(st, args[0], ('Ok', 'Err')):
            if n == 'Ok':
                out.append((enum1(CF, 'Continue', p if p is not None else UNIT), s))
            elif n == 'Err':
                out.append((enum1(CF, 'Break', Err(p if p is not None else UNIT)), s))
            else:
                out.append((enum1(CF, n, p), s))
    return out


@reg('std::ops::FromResidual::from_residual')
def from_residual(E, st, args, cx):
    return R(st, E.val(st, args[0]))


@reg('std::ops::Try::from_output')
def from_output(E, st, args, cx):
    return R(st, Ok(args[0]))


def kindof(cx, name):
    return ('Some', 'None') if 'Option' in name else ('Ok', 'Err')


def opt(name):
    return 'std::option::Option::' + name


def res(name):
    return 'std::result::Result::' + name


def refpayload(E, st, a, n):
    """The payload of an Option/Result behind a reference, as a reference (so that writes reach it)."""
    if a.op == 'ref':
        return T('ref', a.a[0], a.a[1] + ('@' + n, '.0'), a.a[2])
    v = E.project(a, '@' + n)
    return E.project(v, '.0') if v is not None else UNDEF


def each(E, st, a, name, keepref=True):
    """Splits; payloads are references if the argument is one."""
    good, bad = ('Some', 'None') if name == 'o' else ('Ok', 'Err')
    r = a
    # Follow references to references.
    k = 0
    while r.op == 'ref' and k < 6:
        w = E.read(st, r.a[0], r.a[1])
        if w.op == 'ref':
            r = w
            k += 1
        else:
            break
    for n, p, s in E.split(st, a, (good, bad)):
        if r.op == 'ref' and keepref and p is not None:
            p = refpayload(E, s, r, n)
        yield n, p, s


@reg(opt('as_ref'), opt('as_mut'), res('as_ref'), res('as_mut'), opt('as_deref_mut'), opt('as_slice'))
def as_ref(E, st, args, cx):
    k = 'o' if 'Option' in cx.res else 'r'
    out = []
    for n, p, s in each(E, st, args[0], k):
        out.append((enum1(OPT if k == 'o' else RES, n, p) if p is not None else (NONE if k == 'o' else agg(RES, n, (), ())), s))
    return out


@reg(opt('is_some'), opt('is_none'), res('is_ok'), res('is_err'), 'std::task::Poll::is_ready')
def is_x(E, st, args, cx):
    m = cx.res.split('::')[-1]
    want = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err', 'is_ready': 'Ready'}[m]
    vs = ('Some', 'None') if m in ('is_some', 'is_none') else (('Ok', 'Err') if m != 'is_ready' else ('Ready', 'Pending'))
    return [(C(n == want), s) for n, p, s in E.split(st, args[0], vs)]


@reg(opt('is_some_and'), res('is_ok_and'), opt('is_none_or'), res('is_err_and'))
def is_and(E, st, args, cx):
    m = cx.res.split('::')[-1]
    k = 'o' if 'Option' in cx.res else 'r'
    good = {'is_some_and': 'Some', 'is_ok_and': 'Ok', 'is_none_or': 'Some', 'is_err_and': 'Err'}[m]
    out = []
    for n, p, s in each(E, st, args[0], k):
        if n == good:
            out += E.call_value(s, args[1], [p], cx)
        else:
            out.append((C(m == 'is_none_or'), s))
    return out


@reg(opt('map'), res('map'), res('map_err'), opt('and_then'), res('and_then'), opt('map_or'), res('map_or'), opt('map_or_else'), res('map_or_else'),
     opt('filter'), opt('or_else'), res('or_else'), opt('unwrap_or_else'), res('unwrap_or_else'), opt('ok_or_else'), opt('inspect'), res('inspect'), res('inspect_err'),
     opt('is_none_or'))
def optmap(E, st, args, cx):
    m = cx.res.split('::')[-1]
    o = 'Option' in cx.res
    adt = OPT if o else RES
    out = []
    for n, p, s in each(E, st, args[0], 'o' if o else 'r'):
        good = n in ('Some', 'Ok')
        if m == 'map':
            if good:
                out += [(enum1(adt, n, v), s2) for v, s2 in E.call_value(s, args[1], [p], cx)]
            else:
                out.append((NONE if o else enum1(adt, n, p), s))
        elif m == 'map_err':
            if good:
                out.append((enum1(adt, n, p), s))
            else:
                out += [(Err(v), s2) for v, s2 in E.call_value(s, args[1], [p], cx)]
        elif m == 'and_then':
            if good:
                out += E.call_value(s, args[1], [p], cx)
            else:
                out.append((NONE if o else enum1(adt, n, p), s))
        elif m == 'map_or':
            if good:
                out += E.call_value(s, args[2], [p], cx)
            else:
                out.append((args[1], s))
        elif m == 'map_or_else':
            if good:
                out += E.call_value(s, args[2], [p], cx)
            else:
                out += E.call_value(s, args[1], [] if o else [p], cx)
        elif m == 'filter':
            if good:
                for v, s2 in E.call_value(s, args[1], [p], cx):
                    for pol, s3 in E.split_bool(s2, v):
                        out.append((Some(p) if pol else NONE, s3))
            else:
                out.append((NONE, s))
        elif m in ('or_else',):
            if good:
                out.append((enum1(adt, n, p), s))
            else:
                out += E.call_value(s, args[1], [] if o else [p], cx)
        elif m == 'unwrap_or_else':
            if good:
                out.append((p, s))
            else:
                out += E.call_value(s, args[1], [] if o else [p], cx)
        elif m == 'ok_or_else':
            if good:
                out.append((Ok(p), s))
            else:
                out += [(Err(v), s2) for v, s2 in E.call_value(s, args[1], [], cx)]
        elif m in ('inspect', 'inspect_err'):
            if good == (m == 'inspect'):
                out += [(enum1(adt, n, p), s2) for v, s2 in E.call_value(s, args[1], [p], cx)]
            else:
                out.append((enum1(adt, n, p) if p is not None else NONE, s))
    return out


@reg(opt('unwrap_or'), res('unwrap_or'), opt('unwrap_or_default'), res('unwrap_or_default'), opt('ok_or'), res('ok'), res('err'), opt('or'), res('or'),
     opt('and'), res('and'), opt('xor'), opt('flatten'), opt('zip'), opt('transpose'), res('transpose'))
def optval(E, st, args, cx):
    m = cx.res.split('::')[-1]
    o = 'Option' in cx.res
    adt = OPT if o else RES
    if m in ('xor', 'zip'):
        return None
    out = []
    if m == 'transpose':
        for n, p, s in each(E, st, args[0], 'o' if o else 'r', False):
            if n == 'None':
                out.append((Ok(NONE), s))
            elif n == 'Err':
                out.append((Some(Err(p)), s))
            else:
                for n2, p2, s2 in each(E, s, p, 'r' if o else 'o', False):
                    out.append(({'Ok': lambda: Ok(Some(p2)), 'Err': lambda: Err(p2), 'Some': lambda: Some(Ok(p2)), 'None': lambda: NONE}[n2](), s2))
        return out
    for n, p, s in each(E, st, args[0], 'o' if o else 'r'):
        good = n in ('Some', 'Ok')
        if m == 'unwrap_or':
            out.append((p if good else args[1], s))
        elif m == 'unwrap_or_default':
            if good:
                out.append((p, s))
            else:
                d = default(E, s, [], cx)
                out += d if d else [(T('call', 'default', T('c', cx.dty)), s)]
        elif m == 'ok_or':
            out.append((Ok(p) if good else Err(args[1]), s))
        elif m == 'ok':
            out.append((Some(p) if good else NONE, s))
        elif m == 'err':
            out.append((NONE if good else Some(p), s))
        elif m == 'or':
            out.append((enum1(adt, n, p) if good else args[1], s))
        elif m == 'and':
            out.append((args[1] if good else (NONE if o else enum1(adt, n, p)), s))
        elif m == 'flatten':
            out.append((p if good else NONE, s))
    return out


@reg(opt('unwrap'), res('unwrap'), opt('expect'), res('expect'), res('unwrap_err'), res('expect_err'))
def unwrap(E, st, args, cx):
    m = cx.res.split('::')[-1]
    out = []
    for n, p, s in each(E, st, args[0], 'o' if 'Option' in cx.res else 'r'):
        good = n in ('Some', 'Ok')
        if good != m.endswith('_err'):
            out.append((p if p is not None else UNIT, s))
        else:
            E.emit(s, Ev('panic', m, (E.deep(st, args[0]),), (), cx.span, cx.fn, cx.exp))
    return out


@reg(opt('take'), opt('replace'), 'std::mem::take', 'std::mem::replace')
def take(E, st, args, cx):
    a = args[0]
    if a.op != 'ref':
        return None
    v = E.val(st, a)
    if 'replace' in cx.res:
        new = args[1] if 'mem' in cx.res else Some(args[1])
    else:
        new = NONE if 'Option' in cx.res or cx.dty.startswith(OPT) else T('coll0', 'empty')
    E.ev_call(st, cx.res, args, cx)
    E.write(st, a.a[0], a.a[1], new)
    return R(st, v)


@reg(opt('insert'), opt('get_or_insert'), opt('get_or_insert_with'))
def opt_insert(E, st, args, cx):
    a = args[0]
    if a.op != 'ref':
        return None
    while True:
        w = E.read(st, a.a[0], a.a[1])
        if w.op == 'ref':
            a = w
        else:
            break
    m = cx.res.split('::')[-1]
    E.ev_call(st, cx.res, args, cx)
    out = []
    ref = T('ref', a.a[0], a.a[1] + ('@Some', '.0'), True)
    if m == 'insert':
        E.write(st, a.a[0], a.a[1], Some(args[1]))
        return R(st, ref)
    for n, p, s in E.split(st, a, ('Some', 'None')):
        if n == 'Some':
            out.append((ref, s))
        else:
            vs = [(args[1], s)] if m == 'get_or_insert' else E.call_value(s, args[1], [], cx)
            for v, s2 in vs:
                E.write(s2, a.a[0], a.a[1], Some(v))
                out.append((ref, s2))
    return out


@reg('core::bool::then', 'core::bool::then_some')
def then(E, st, args, cx):
    out = []
    for pol, s in E.split_bool(st, args[0]):
        if not pol:
            out.append((NONE, s))
        elif cx.res.endswith('then'):
            out += [(Some(v), s2) for v, s2 in E.call_value(s, args[1], [], cx)]
        else:
            out.append((Some(args[1]), s))
    return out


# ------------------------------------------------------------------ comparisons
def _ws_eq(E, cx):
    f = E.F.fns.get(cx.rk)
    return f


@reg('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def eq(E, st, args, cx):
    # A hand-written comparison behind references: <&A as PartialEq<&B>>::eq.
    t = cx.ga[0] if cx.ga else ''
    base = t.lstrip('&')
    for (i, k) in E.F.trait_impl.get(('std::cmp::PartialEq', 'eq'), []):
        if not i['derived'] and i['selfty'] == base and k in E.F.fns:
            rs = E.call_fn(st, E.F.fns[k], args, cx)
            if cx.res.endswith('ne') or (cx.rk and cx.tr and cx.res.endswith('::ne')):
                return [(mknot(E.val(s, v)), s) for v, s in rs]
            return rs
    r = mkeq(E.deep(st, args[0]), E.deep(st, args[1]))
    return R(st, mknot(r) if cx.res.split('::')[-1] == 'ne' else r)


@reg('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def cmp(E, st, args, cx):
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[cx.res.split('::')[-1]]
    return R(st, mkbin(op, E.deep(st, args[0]), E.deep(st, args[1])))


@reg('std::ops::Not::not')
def not_(E, st, args, cx):
    return R(st, mknot(E.val(st, args[0])))


ARITH = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}
for _t, _m in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem')):
    def _f(E, st, args, cx, _m=_m):
        if cx.dty in ('usize', 'u64', 'u32', 'i64', 'i32', 'u8', 'f32', 'f64', 'i128', 'u128', 'u16'):
            return R(st, mkbin(ARITH[_m], E.val(st, args[0]), E.val(st, args[1])))
        return None
    TABLE[f'std::ops::{_t}::{_m}'] = _f

for _t, _m in (('AddAssign', 'add_assign'), ('SubAssign', 'sub_assign')):
    def _g(E, st, args, cx, _m=_m):
        a = args[0]
        v = E.val(st, args[0])
        nv = mkbin(ARITH[_m[:3]], v, E.val(st, args[1]))
        if a.op == 'ref':
            E.write(st, a.a[0], a.a[1], nv)
        return R(st, UNIT)
    TABLE[f'std::ops::{_t}::{_m}'] = _g


@reg('core::num::wrapping_add', 'core::num::saturating_add', 'core::num::wrapping_sub', 'core::num::saturating_sub',
     'core::num::overflowing_add', 'core::num::pow')
def num(E, st, args, cx):
    m = cx.res.split('::')[-1]
    if m.endswith('_add') and m != 'overflowing_add':
        return R(st, mkbin('Add', E.val(st, args[0]), E.val(st, args[1])))
    if m == 'saturating_sub':
        return R(st, T('bin', 'SatSub', E.val(st, args[0]), E.val(st, args[1])))
    return None


# ------------------------------------------------------------------ collections
def pure(name, *aliases):
    def h(E, st, args, cx, name=name):
        return R(st, T('call', name, *[E.deep(st, a) for a in args]))
    for a in aliases:
        TABLE[a] = h


COLLS = ('std::collections::HashMap', 'std::collections::HashSet', 'std::collections::BTreeMap', 'std::collections::BTreeSet',
         'std::vec::Vec', 'std::collections::VecDeque', 'core::slice', 'std::string::String', 'core::str', 'bytes::Bytes')
for c in COLLS:
    pure('len', c + '::len')
    pure('first', c + '::first')
    pure('last', c + '::last')
    pure('join', c + '::join')
pure('join', 'std::slice::join')
pure('concat', 'std::slice::concat')


def is_empty(E, st, args, cx):
    v = E.deep(st, args[0])
    if empty_coll(v):
        return R(st, TRUE)
    return R(st, mkeq(T('call', 'len', v), C(0)))


for c in COLLS:
    TABLE[c + '::is_empty'] = is_empty


def get(E, st, args, cx):
    v, k = E.deep(st, args[0]), E.deep(st, args[1])
    if v.op == 'ins' and v.a[1] is k:
        return R(st, Some(v.a[2]))
    return R(st, T('get', v, k))


for c in COLLS:
    TABLE[c + '::get'] = get


def contains(E, st, args, cx):
    v, k = E.deep(st, args[0]), E.deep(st, args[1])
    if 'Map' in cx.res:
        return R(st, T('is', T('get', v, k), 'Some'))
    if v.op == 'agg' and v.a[0] == 'array':
        out = []
        s = st
        for x in v.a[3]:
            q = E.fork(s, (mkeq(x, k), True))
            if q:
                out.append((TRUE, q))
            s = E.fork(s, (mkeq(x, k), False)) if s else None
            if s is None:
                return out
        return out + [(FALSE, s)]
    if empty_coll(v):
        return R(st, FALSE)
    return R(st, T('contains', v, k))


for c in COLLS:
    TABLE[c + '::contains'] = contains
    TABLE[c + '::contains_key'] = contains


def get_mut(E, st, args, cx):
    v, k = E.deep(st, args[0]), E.deep(st, args[1])
    a = real_ref(E, st, args[0])
    out = []
    for n, p, s in E.split(st, T('get', v, k), ('Some', 'None')):
        if n == 'Some':
            out.append((Some(T('ref', a.a[0], a.a[1] + (('at', k),), True) if a is not None else T('at', v, k)), s))
        else:
            out.append((NONE, s))
    return out


for c in COLLS:
    TABLE[c + '::get_mut'] = get_mut


def real_ref(E, st, a):
    while a.op == 'ref':
        w = E.read(st, a.a[0], a.a[1])
        if w.op == 'ref':
            a = w
        else:
            return a
    return None


@reg('std::ops::Index::index', 'std::ops::IndexMut::index_mut', 'core::slice::get_unchecked')
def index(E, st, args, cx):
    a = real_ref(E, st, args[0])
    k = E.deep(st, args[1])
    E.ev_call(st, 'index', args, cx)
    if a is not None and k.op != 'agg':
        return R(st, T('ref', a.a[0], a.a[1] + (('at', k),), True))
    if k.op == 'agg':
        return R(st, T('call', 'slice', E.deep(st, args[0]), k))
    return R(st, T('at', E.deep(st, args[0]), k))


def conds(st, t):
    es = elems(t)
    if not es:
        return frozenset()
    return frozenset(l for l in st.know if elems(l[0]) & es)


def bag_add(E, st, coll, item):
    base, items = (coll.a[0], coll.a[1]) if coll.op == 'bag' else (coll, frozenset())
    e = (item, conds(st, item))
    if len(items) >= 12 and e not in items:
        return T('wid', 'bagcap')
    return T('bag', base, items | {e})


def coll_write(E, st, args, cx, nv):
    a = real_ref(E, st, args[0])
    if a is not None:
        E.write(st, a.a[0], a.a[1], nv)


def push(E, st, args, cx):
    E.ev_call(st, cx.res, args, cx)
    v = E.val(st, args[0])
    coll_write(E, st, args, cx, bag_add(E, st, v, E.deep(st, args[-1])))
    return R(st, UNIT)


for c in ('std::vec::Vec::push', 'std::collections::VecDeque::push_back', 'std::collections::VecDeque::push_front', 'std::vec::Vec::insert',
          'std::string::String::push', 'std::string::String::push_str'):
    TABLE[c] = push


def insert(E, st, args, cx):
    E.ev_call(st, cx.res, args, cx)
    v = E.val(st, args[0])
    if 'Set' in cx.res:
        coll_write(E, st, args, cx, bag_add(E, st, v, E.deep(st, args[1])))
        return R(st, mknot(T('contains', E.deep(st, v), E.deep(st, args[1]))))
    k, x = E.deep(st, args[1]), E.deep(st, args[2])
    if empty_coll(v) or v.op == 'bag':
        coll_write(E, st, args, cx, bag_add(E, st, v, tup(k, x)))
    else:
        coll_write(E, st, args, cx, T('ins', v, k, x))
    return R(st, T('get', E.deep(st, v), k))


for c in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
    TABLE[f'std::collections::{c}::insert'] = insert


def remove(E, st, args, cx):
    E.ev_call(st, cx.res, args, cx)
    v, k = E.deep(st, args[0]), E.deep(st, args[1])
    coll_write(E, st, args, cx, T('rem', v, k))
    if 'Vec' in cx.res:
        return R(st, T('at', v, k))
    if 'Set' in cx.res:
        return R(st, T('contains', v, k))
    return R(st, T('get', v, k))


for c in ('std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::HashSet', 'std::vec::Vec'):
    TABLE[c + '::remove'] = remove
TABLE['std::vec::Vec::swap_remove'] = remove


@reg('std::collections::HashMap::remove_entry', 'std::collections::HashMap::drain', 'std::vec::Vec::drain')
def drain(E, st, args, cx):
    E.ev_call(st, cx.res, args, cx)
    v = E.deep(st, args[0])
    coll_write(E, st, args, cx, T('mut', v, cx.res, tuple(E.deep(st, a) for a in args[1:])))
    return R(st, T('iter', v, 'pairs' if 'Map' in cx.res else 'val', ()))


@reg('std::vec::Vec::clear', 'std::collections::HashMap::clear', 'std::collections::HashSet::clear')
def clear(E, st, args, cx):
    E.ev_call(st, cx.res, args, cx)
    coll_write(E, st, args, cx, T('coll0', 'empty'))
    return R(st, UNIT)


@reg('std::vec::Vec::pop', 'std::collections::VecDeque::pop_front', 'std::collections::VecDeque::pop_back')
def pop(E, st, args, cx):
    E.ev_call(st, cx.res, args, cx)
    v = E.deep(st, args[0])
    coll_write(E, st, args, cx, T('mut', v, 'pop', ()))
    return R(st, T('call', 'pop', v))


# Entry API: an entry is (map reference, key).
@reg('std::collections::HashMap::entry', 'std::collections::BTreeMap::entry')
def entry(E, st, args, cx):
    a = real_ref(E, st, args[0])
    if a is None:
        return None
    return R(st, T('entry', a, E.deep(st, args[1])))


def _entry(E, st, v):
    v = E.val(st, v)
    if v.op != 'entry':
        return None
    return v


for _e in ('std::collections::hash_map::Entry', 'std::collections::btree_map::Entry'):
    def _oi(E, st, args, cx):
        e = _entry(E, st, args[0])
        if e is None:
            return None
        a, k = e.a
        m = E.val(st, a)
        name = cx.res.split('::')[-1]
        out = []
        ref = T('ref', a.a[0], a.a[1] + (('at', k),), True)
        for n, p, s in E.split(st, T('get', E.deep(st, m), k), ('Some', 'None')):
            if n == 'Some':
                out.append((ref, s))
            else:
                if name == 'or_insert':
                    vs = [(args[1], s)]
                elif name == 'or_default':
                    vs = [(T('call', 'default', T('c', cx.dty)), s)]
                    if 'Vec' in cx.dty or 'Hash' in cx.dty:
                        vs = [(T('coll0', 'empty'), s)]
                else:
                    vs = E.call_value(s, args[1], [], cx)
                for v, s2 in vs:
                    E.ev_call(s2, 'std::collections::HashMap::insert', [a, k, v], cx)
                    E.write(s2, a.a[0], a.a[1], T('ins', m, k, E.deep(s2, v)))
                    out.append((ref, s2))
        return out
    for _n in ('or_insert', 'or_insert_with', 'or_default'):
        TABLE[f'{_e}::{_n}'] = _oi

    def _am(E, st, args, cx):
        e = _entry(E, st, args[0])
        if e is None:
            return None
        a, k = e.a
        out = []
        for n, p, s in E.split(st, T('get', E.deep(st, E.val(st, a)), k), ('Some', 'None')):
            if n == 'Some':
                ref = T('ref', a.a[0], a.a[1] + (('at', k),), True)
                out += [(e, s2) for _, s2 in E.call_value(s, args[1], [ref], cx)]
            else:
                out.append((e, s))
        return out
    TABLE[f'{_e}::and_modify'] = _am


@reg('std::vec::Vec::append', 'std::vec::Vec::extend_from_slice', 'std::collections::VecDeque::append')
def append(E, st, args, cx):
    E.ev_call(st, cx.res, args, cx)
    v, w = E.val(st, args[0]), E.deep(st, args[1])
    coll_write(E, st, args, cx, cat(v, w))
    if cx.res.endswith('append'):
        coll_write(E, st, args[1:], cx, T('coll0', 'empty'))
    return R(st, UNIT)


def cat(v, w):
    if empty_coll(v):
        return w
    if empty_coll(w):
        return v
    items = as_items(w)
    base, its = (v.a[0], v.a[1]) if v.op == 'bag' else (v, frozenset())
    if items is None:
        items = frozenset([(T('elem', w), frozenset())])
    if len(its | items) > 12:
        return T('wid', 'cat')
    return T('bag', base, its | items)


def as_items(w):
    if w.op == 'bag' and empty_coll(w.a[0]):
        return w.a[1]
    if w.op == 'agg' and w.a[0] == 'array':
        return frozenset((x, frozenset()) for x in w.a[3])
    if empty_coll(w):
        return frozenset()
    return None


# ------------------------------------------------------------------ iterators
def mkiter(E, st, a, mode):
    """An iterator over a collection given by reference or value."""
    v = E.val(st, a)
    if v.op == 'iter':
        return v
    if mode in ('mut', 'valsmut', 'pairsmut'):
        r = real_ref(E, st, a)
        if r is not None:
            return T('iter', r, mode, ())
        mode = {'mut': 'val', 'valsmut': 'vals', 'pairsmut': 'pairs'}[mode]
    v = E.deep(st, a)
    return T('iter', v, mode, ())


for c in COLLS:
    m = 'pairs' if 'Map' in c else 'val'
    TABLE[c + '::iter'] = lambda E, st, args, cx, m=m: R(st, mkiter(E, st, args[0], m))
    TABLE[c + '::iter_mut'] = lambda E, st, args, cx, m=m: R(st, mkiter(E, st, args[0], 'pairsmut' if m == 'pairs' else 'mut'))
    TABLE[c + '::keys'] = lambda E, st, args, cx: R(st, mkiter(E, st, args[0], 'keys'))
    TABLE[c + '::into_keys'] = TABLE[c + '::keys']
    TABLE[c + '::values'] = lambda E, st, args, cx: R(st, mkiter(E, st, args[0], 'vals'))
    TABLE[c + '::into_values'] = TABLE[c + '::values']
    TABLE[c + '::values_mut'] = lambda E, st, args, cx: R(st, mkiter(E, st, args[0], 'valsmut'))
for _n in ('chunks', 'windows', 'split', 'chars', 'bytes', 'lines', 'chunks_exact', 'split_whitespace', 'char_indices', 'difference',
           'intersection', 'union'):
    for c in ('core::slice', 'core::str', 'std::collections::HashSet'):
        TABLE[f'{c}::{_n}'] = lambda E, st, args, cx, _n=_n: R(st, T('iter', T('call', _n, *[E.deep(st, a) for a in args]), 'val', ()))


@reg('std::iter::IntoIterator::into_iter')
def into_iter(E, st, args, cx):
    t = cx.ga[0] if cx.ga else ''
    m = 'val'
    if 'HashMap<' in t.split('Vec<')[0] or 'BTreeMap<' in t.split('Vec<')[0]:
        if t.lstrip("&'_ mut").startswith('std::collections'):
            m = 'pairs'
    if t.startswith('&mut') or (t.startswith('&') and ' mut ' in t[:12]):
        m = 'pairsmut' if m == 'pairs' else 'mut'
    if t.startswith(OPT):
        out = []
        for n, p, s in E.split(st, args[0], ('Some', 'None')):
            out.append((T('iter', agg('array', None, ['0'], [p]), 'val', ()) if n == 'Some' else T('iter', T('coll0', 'empty'), 'val', ()), s))
        return out
    return R(st, mkiter(E, st, args[0], m))


@reg('std::option::Option::into_iter', 'std::option::Option::iter')
def opt_iter(E, st, args, cx):
    out = []
    for n, p, s in each(E, st, args[0], 'o'):
        out.append((T('iter', agg('array', None, ['0'], [p]), 'val', ()) if n == 'Some' else T('iter', T('coll0', 'empty'), 'val', ()), s))
    return out


@reg('std::iter::once')
def once(E, st, args, cx):
    return R(st, T('iter', agg('array', None, ['0'], [args[0]]), 'val', ()))


@reg('std::iter::empty')
def it_empty(E, st, args, cx):
    return R(st, T('iter', T('coll0', 'empty'), 'val', ()))


def stage(kind):
    def h(E, st, args, cx):
        it = mkiter(E, st, args[0], 'val')
        extra = tuple(mkiter(E, st, a, 'val') if kind in ('chain', 'zip') else a for a in args[1:])
        return R(st, T('iter', it.a[0], it.a[1], it.a[2] + ((kind,) + extra,)))
    return h


for _k in ('map', 'filter', 'filter_map', 'flat_map', 'flatten', 'enumerate', 'skip', 'take', 'chain', 'zip', 'take_while', 'skip_while',
           'map_while', 'step_by', 'peekable', 'inspect'):
    TABLE['std::iter::Iterator::' + _k] = stage(_k)
ORDERS = ('sorted', 'sorted_by', 'sorted_by_key', 'sorted_unstable', 'sorted_unstable_by', 'sorted_unstable_by_key', 'sorted_by_cached_key', 'rev')


def order_stage(kind):
    def h(E, st, args, cx):
        it = E.val(st, args[0])
        if it.op != 'iter':
            it = mkiter(E, st, args[0], 'val')
        return R(st, T('iter', it.a[0], it.a[1], it.a[2] + ((kind,) + tuple(args[1:]),)))
    return h


for _k in ORDERS:
    TABLE[('std::iter::Iterator::' if _k == 'rev' else 'itertools::Itertools::') + _k] = order_stage(_k)


def cuts(E, st, src, mode, stages, cx):
    """What is left out of a sequence, and the order it is in: ('cut', kind, count), ('ord', direction, key)."""
    out = []
    for i, s in enumerate(stages):
        if s[0] in PARTIAL:
            out.append(T('cut', s[0], E.deep(st, s[1]) if len(s) > 1 and s[0] in ('skip', 'take', 'step_by') else T('none')))
        elif s[0] == 'rev':
            out.append(T('ord', 'rev', T('none')))
        elif s[0] in ORDERS:
            o = T('ord', 'asc', T('none'))
            for item, cs in base_items(E, st, src, mode)[:1]:
                for k, x, s2 in run_stages(E, st.copy(), item, tuple(y for y in stages[:i] if y[0] not in ORDERS), cx):
                    if k == 'item':
                        o = ordering(E, s2, x, s[0], s[1:], cx)
                        break
            out.append(o)
    return tuple(out)


def ordering(E, st, x, kind, args, cx):
    """What a sort with this closure sorts by."""
    key, d = T('none'), 'asc'
    if not args:
        key = E.deep(st, x)
    elif kind.endswith('_key'):
        for v, s3 in E.call_value(st, args[0], [x], cx)[:1]:
            key = E.deep(s3, v)
            if key.op == 'agg' and str(key.a[0]).endswith('Reverse'):
                key, d = key.a[3][0], 'desc'
    else:
        o = T('sym', 'other#')
        for v, s3 in E.call_value(st, args[0], [x, o], cx)[:1]:
            v = E.deep(s3, v)
            rv = 0
            while v.op == 'call' and v.a[0].split('::')[-1] in ('reverse', 'unwrap', 'unwrap_or', 'expect') and len(v.a) > 1:
                rv ^= v.a[0].split('::')[-1] == 'reverse'
                v = v.a[1]
            if v.op == 'un' or v.op == 'as':
                v = v.a[0]
            if v.op == 'call' and len(v.a) > 2:
                first = mentions(v.a[1], lambda t: t is o)
                key = v.a[2] if first else v.a[1]
                d = 'desc' if first != bool(rv) else 'asc'
            else:
                key = v
    return T('ord', d, key)


def sort_in_place(E, st, args, cx):
    E.ev_call(st, cx.res, args, cx)
    kind = cx.res.split('::')[-1]
    v = E.deep(st, args[0])
    o = T('ord', 'rev', T('none'))
    if kind != 'reverse':
        o = T('ord', 'asc', T('none'))
        for item, cs in base_items(E, st, v, 'val')[:1]:
            o = ordering(E, st.copy(), item, kind, args[1:], cx)
    coll_write(E, st, args, cx, T('mut', v, cx.res, (o,)))
    return R(st, UNIT)


for _p in ('std::slice::', 'core::slice::'):
    for _k in ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key', 'reverse'):
        TABLE[_p + _k] = sort_in_place


def base_items(E, st, src, mode):
    """[(item, extra literals, state)] for one step of the source of an iterator."""
    if mode in ('mut', 'valsmut', 'pairsmut'):
        r = src
        p = T('ref', r.a[0], r.a[1] + (('el',),), True)
        v = E.val(st, r)
        if mode == 'pairsmut':
            return [(tup(T('key', v), p), ())]
        return [(p, ())]
    v = E.deep(st, src) if src.op == 'ref' else src
    if v.op == 'phi':
        out = []
        for x in sorted(v.a[0], key=lambda x: x.id):
            out += base_items(E, st, x, mode)
        return out
    if empty_coll(v):
        return []
    if v.op == 'bag':
        out = [(x, c) for x, c in sorted(v.a[1], key=lambda e: e[0].id)]
        if mode == 'keys':
            out = [(E.project(x, '.0'), c) for x, c in out]
        elif mode == 'vals':
            out = [(E.project(x, '.1'), c) for x, c in out]
        return out + base_items(E, st, v.a[0], mode)
    if v.op == 'agg' and v.a[0] == 'array':
        return [(x, ()) for x in v.a[3]]
    if mode == 'pairs':
        return [(tup(T('key', v), T('elem', v)), ())]
    if mode == 'keys':
        return [(T('key', v), ())]
    if v.op == 'upd':
        return [(E.project(v, ('el',)), ())]
    return [(T('elem', v), ())]


def age_state(st, src):
    for r, v in list(st.mem.items()):
        if src in elems(v):
            st.mem[r] = age(v, src)
    if any(src in elems(l[0]) for l in st.know):
        st.know = frozenset(l for l in st.know if src not in elems(l[0]))


PARTIAL = ('skip', 'take', 'step_by', 'take_while', 'skip_while', 'map_while')


def iter_next(E, st, it, cx, age_=True):
    """Yields ('item', value, state), ('skip', None, state) and ('end', None, state)."""
    src, mode, stages = it.a
    chains = [s for s in stages if s[0] == 'chain']
    v = E.deep(st, src) if src.op == 'ref' else src
    for x in sorted(elem_srcs(v), key=lambda x: x.id):
        age_state(st, x)
    src0, v0 = v, v
    if any(s[0] in PARTIAL for s in stages):
        v = T('part', v, cuts(E, st, src, mode, stages, cx))
    # End of the sequence.
    s = E.fork(st, (T('more', v), False))
    if s:
        s.know = frozenset(l for l in s.know if l[0].op != 'more')
        yield 'end', None, s
    if v.op == 'part':
        age_state(st, v)
        src = v if mode in ('val', 'keys', 'vals', 'pairs') and v0.op not in ('phi', 'bag', 'upd') and not (v0.op == 'agg' and v0.a[0] == 'array') and not empty_coll(v0) else src
    for item, cs in base_items(E, st, src, mode):
        s = E.fork(st, (T('more', v), True))
        if s is None:
            continue
        s.know = frozenset(l for l in s.know if l[0].op != 'more')
        ok = True
        for l in cs:
            s = E.fork(s, l)
            if s is None:
                ok = False
                break
        if ok:
            yield from run_stages(E, s, item, stages, cx)
    for ci, c in enumerate(stages):
        if c[0] == 'chain':
            for k, x, s in iter_next(E, st.copy(), c[1], cx):
                if k == 'item':
                    yield from run_stages(E, s, x, stages[ci + 1:], cx)


def elem_srcs(v):
    out = {v}
    if v.op == 'bag':
        for x, _ in v.a[1]:
            out |= elems(x)
        out.add(v.a[0])
    if v.op == 'phi':
        for x in v.a[0]:
            out |= elem_srcs(x)
    return out


def run_stages(E, st, item, stages, cx):
    if not stages:
        yield 'item', item, st
        return
    s0, rest = stages[0], stages[1:]
    k = s0[0]
    if k == 'map':
        for v, s in E.call_value(st, s0[1], [item], cx):
            yield from run_stages(E, s, v, rest, cx)
    elif k in ('filter', 'take_while', 'skip_while'):
        # The closure gets a reference to the item.
        for v, s in E.call_value(st, s0[1], [item], cx):
            for pol, s2 in E.split_bool(s, v):
                if pol or k == 'skip_while':
                    yield from run_stages(E, s2, item, rest, cx)
                else:
                    yield 'skip', None, s2
    elif k in ('filter_map', 'map_while'):
        for v, s in E.call_value(st, s0[1], [item], cx):
            for n, p, s2 in E.split(s, v, ('Some', 'None')):
                if n == 'Some':
                    yield from run_stages(E, s2, p, rest, cx)
                else:
                    yield 'skip', None, s2
    elif k in ('flat_map', 'flatten'):
        outs = E.call_value(st, s0[1], [item], cx) if k == 'flat_map' else [(item, st)]
        for v, s in outs:
            w = E.val(s, v)
            if w.op == 'agg' and w.a[0] in (OPT, RES):
                if w.a[1] in ('Some', 'Ok'):
                    yield from run_stages(E, s, w.a[3][0], rest, cx)
                else:
                    yield 'skip', None, s
                continue
            inner = mkiter(E, s, v, 'val')
            for kk, x, s2 in iter_next(E, s, inner, cx):
                if kk == 'item':
                    yield from run_stages(E, s2, x, rest, cx)
                else:
                    yield 'skip', None, s2
    elif k == 'enumerate':
        yield from run_stages(E, st, tup(T('idx', item), item), rest, cx)
    elif k == 'zip':
        got = False
        for kk, x, s2 in iter_next(E, st, s0[1], cx):
            if kk == 'item':
                yield from run_stages(E, s2, tup(item, x), rest, cx)
    elif k == 'chain':
        yield from run_stages(E, st, item, rest, cx)
    elif k == 'inspect':
        for v, s in E.call_value(st, s0[1], [item], cx):
            yield from run_stages(E, s, item, rest, cx)
    else:
        yield from run_stages(E, st, item, rest, cx)


@reg('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def it_next(E, st, args, cx):
    r = real_ref(E, st, args[0])
    it = E.val(st, args[0])
    if it.op == 'agg' and it.a[0].startswith('std::ops::Range'):
        it = T('iter', it, 'val', ())
    if it.op != 'iter':
        if cx.rk in E.F.fns:
            return None
        it = T('iter', it, 'val', ())
    n0 = st.node
    out = []
    for k, v, s in iter_next(E, st, it, cx):
        if k == 'item':
            out.append((Some(v), s))
        elif k == 'end':
            out.append((NONE, s))
        else:
            E.edge(s.node, n0)
    return out


def consume(E, st, it, cx, name, onitem, onend):
    """Generic consumer. onitem(value, state) yields ('back', st) | ('exit', v, st); onend(state) yields (v, st)."""
    it = E.val(st, it)
    if it.op == 'agg' and it.a[0].startswith('std::ops::Range'):
        it = T('iter', it, 'val', ())
    if it.op != 'iter':
        it = mkiter(E, st, it, 'val')

    def body(s):
        for k, v, s2 in iter_next(E, s, it, cx):
            if k == 'item':
                yield from onitem(v, s2)
            elif k == 'skip':
                yield ('back', s2)
            else:
                for v2, s3 in onend(s2):
                    yield ('exit', v2, s3)
    return E.loop(name, st, body)


def mergeouts(E, outs, name):
    """Joins outcomes that agree on their skeleton."""
    m = {}
    for v, s in outs:
        s.mem[('R',)] = v
        key = E.skel(s, [('R',)] if v.op not in ('agg', 'clo', 'iter', 'ref') else [])
        if key in m:
            j = E.join(m[key], s, (name, 'x'), False)
            E.edge(s.node, m[key].node)
            j.node = m[key].node
            m[key] = j
        else:
            n = E.g.new()
            E.edge(s.node, n)
            m[key] = St(s.mem, s.know, n)
    res_ = []
    for s in m.values():
        v = s.mem.pop(('R',))
        res_.append((v, s))
    return res_


def scoped(E, st, init, fn):
    """Runs fn(root) with a scratch memory root for an accumulator, removed from the results."""
    root = ('A', len(E.stack), getattr(E, 'accn', 0))
    E.accn = getattr(E, 'accn', 0) + 1
    try:
        st.mem[root] = init
        outs = fn(root)
        for v, s in outs:
            s.mem.pop(root, None)
        return outs
    finally:
        E.accn -= 1


@reg('std::iter::Iterator::collect', 'itertools::Itertools::collect_vec', 'std::iter::FromIterator::from_iter')
def collect(E, st, args, cx):
    ty = cx.dty if cx.dty != '?' else (cx.ga[1] if len(cx.ga) > 1 else '')
    it = E.val(st, args[0])
    # A plain copy.
    if it.op == 'iter' and all(x[0] in ORDERS for x in it.a[2]) and it.a[1] in ('val',) and it.a[0].op != 'ref':
        return R(st, it.a[0])
    if it.op == 'iter' and all(x[0] in ORDERS for x in it.a[2]) and it.a[1] == 'pairs' and ('HashMap' in ty or 'BTreeMap' in ty) and it.a[0].op != 'ref':
        return R(st, it.a[0])
    wrap = RES if ty.startswith(RES) else (OPT if ty.startswith(OPT) else None)

    def run(root):
        def onitem(v, s):
            if wrap:
                for n, p, s2 in E.split(s, v, ('Ok', 'Err') if wrap == RES else ('Some', 'None')):
                    if n in ('Ok', 'Some'):
                        s2.mem[root] = bag_add(E, s2, s2.mem[root], E.deep(s2, p))
                        yield ('back', s2)
                    else:
                        yield ('exit', enum1(wrap, n, p) if p is not None else NONE, s2)
            else:
                s.mem[root] = bag_add(E, s, s.mem[root], E.deep(s, v))
                yield ('back', s)

        def onend(s):
            v = s.mem[root]
            yield (enum1(wrap, 'Ok' if wrap == RES else 'Some', v) if wrap else v), s
        return consume(E, st, it, cx, ('collect', cx.fn.npath, cx.bb), onitem, onend)
    return mergeouts(E, scoped(E, st, T('coll0', 'empty'), run), 'collect')


@reg('std::iter::Extend::extend', 'std::vec::Vec::extend')
def extend(E, st, args, cx):
    r = real_ref(E, st, args[0])
    if r is None:
        return None
    E.ev_call(st, cx.res, args, cx)
    it = E.val(st, args[1])
    if it.op == 'iter' and all(x[0] in ORDERS for x in it.a[2]) and it.a[1] in ('val', 'pairs') and it.a[0].op != 'ref':
        coll_write(E, st, args, cx, cat(E.val(st, r), it.a[0]))
        return R(st, UNIT)
    if it.op not in ('iter',):
        coll_write(E, st, args, cx, cat(E.val(st, r), E.deep(st, it)))
        return R(st, UNIT)

    def onitem(v, s):
        E.write(s, r.a[0], r.a[1], bag_add(E, s, E.val(s, r), E.deep(s, v)))
        yield ('back', s)

    def onend(s):
        yield UNIT, s
    return mergeouts(E, consume(E, st, it, cx, ('extend', cx.fn.npath, cx.bb), onitem, onend), 'extend')


@reg('std::iter::Iterator::for_each', 'std::iter::Iterator::try_for_each')
def for_each(E, st, args, cx):
    def onitem(v, s):
        for x, s2 in E.call_value(s, args[1], [v], cx):
            if cx.res.endswith('try_for_each'):
                for n, p, s3 in E.split(s2, x, ('Ok', 'Err')):
                    if n == 'Ok':
                        yield ('back', s3)
                    else:
                        yield ('exit', Err(p), s3)
            else:
                yield ('back', s2)

    def onend(s):
        yield (UNIT if not cx.res.endswith('try_for_each') else Ok(UNIT)), s
    return mergeouts(E, consume(E, st, args[0], cx, ('for_each', cx.fn.npath, cx.bb), onitem, onend), 'for_each')


@reg('std::iter::Iterator::fold')
def fold(E, st, args, cx):
    def run(root):
        def onitem(v, s):
            for x, s2 in E.call_value(s, args[2], [s.mem[root], v], cx):
                s2.mem[root] = x
                yield ('back', s2)

        def onend(s):
            yield s.mem[root], s
        return consume(E, st, args[0], cx, ('fold', cx.fn.npath, cx.bb), onitem, onend)
    return mergeouts(E, scoped(E, st, args[1], run), 'fold')


def itsrc(E, st, a):
    it = E.val(st, a)
    if it.op == 'iter':
        return E.deep(st, it.a[0])
    return it


@reg('std::iter::Iterator::any', 'std::iter::Iterator::all', 'std::iter::Iterator::find', 'std::iter::Iterator::position',
     'std::iter::Iterator::find_map')
def search(E, st, args, cx):
    m = cx.res.split('::')[-1]
    src = itsrc(E, st, args[0])
    know0 = st.know
    hits = set()

    def onitem(v, s):
        for x, s2 in E.call_value(s, args[1], [v], cx):
            if m == 'find_map':
                for n, p, s3 in E.split(s2, x, ('Some', 'None')):
                    if n == 'Some':
                        yield ('exit', Some(p), s3)
                    else:
                        yield ('back', s3)
                continue
            for pol, s3 in E.split_bool(s2, x):
                if m == 'any':
                    if pol:
                        hits.add(frozenset(s3.know - know0))
                        yield ('exit', TRUE, s3)
                    else:
                        yield ('back', s3)
                elif m == 'all':
                    if pol:
                        yield ('back', s3)
                    else:
                        hits.add(frozenset(s3.know - know0))
                        yield ('exit', FALSE, s3)
                elif pol:
                    hits.add(frozenset(s3.know - know0))
                    yield ('exit', Some(v if m == 'find' else T('idx', v)), s3)
                else:
                    yield ('back', s3)

    def onend(s):
        yield (C(m == 'all') if m in ('any', 'all') else NONE), s
    outs = consume(E, st, args[0], cx, (m, cx.fn.npath, cx.bb), onitem, onend)
    outs = mergeouts(E, outs, m)
    if hits and m != 'find_map':
        ex = exists(src, frozenset(hits))
        fin = []
        for v, s in outs:
            pos = v is TRUE if m == 'any' else (v is FALSE if m == 'all' else v.a[1] == 'Some')
            s2 = E.fork(s, (ex, pos))
            if s2:
                fin.append((v, s2))
        return fin
    return outs


def exists(src, dnf):
    """The literal `some element of src satisfies dnf`; membership when it is an equality with the element."""
    ds = [frozenset(l for l in c if l[0].op != 'more') for c in dnf]
    if len(ds) == 1:
        cs = [l for l in ds[0] if not (l[0].op == 'is' and not l[1])]
        if len(cs) == 1 and cs[0][1] and cs[0][0].op == 'eq':
            a, b = cs[0][0].a
            for x, y in ((a, b), (b, a)):
                if x.op == 'elem' and x.a[0] is src and src not in elems(y):
                    return T('contains', src, y)
    return T('exists', src, frozenset(ds))


def aggr(name):
    def h(E, st, args, cx):
        # The value of the aggregate as a function of the items.
        def run(root):
            def onitem(v, s):
                s.mem[root] = bag_add(E, s, s.mem[root], E.deep(s, v))
                yield ('back', s)

            def onend(s):
                yield T('call', name, s.mem[root], *[E.deep(s, a) for a in args[1:] if a.op != 'clo']), s
            return consume(E, st, args[0], cx, (name, cx.fn.npath, cx.bb), onitem, onend)
        it = E.val(st, args[0])
        if it.op == 'iter' and all(x[0] in ORDERS for x in it.a[2]):
            return R(st, T('call', name, E.deep(st, it.a[0]), *[E.deep(st, a) for a in args[1:]]))
        return mergeouts(E, scoped(E, st, T('coll0', 'empty'), run), name)
    return h


for _k in ('count', 'sum', 'min', 'max', 'min_by_key', 'max_by_key', 'min_by', 'max_by', 'last', 'nth', 'product'):
    TABLE['std::iter::Iterator::' + _k] = aggr(_k)


@reg('itertools::concat')
def concat(E, st, args, cx):
    v = E.deep(st, args[0])
    if v.op == 'agg' and v.a[0] == 'array':
        r = T('coll0', 'empty')
        for x in v.a[3]:
            r = cat(r, x)
        return R(st, r)
    if v.op == 'bag' and empty_coll(v.a[0]):
        r = T('coll0', 'empty')
        for x, c in v.a[1]:
            r = cat(r, x)
        return R(st, r)
    return R(st, T('call', 'concat', v))


TABLE['std::slice::concat'] = concat


@reg('std::vec::Vec::retain', 'std::collections::HashMap::retain', 'std::collections::HashSet::retain', 'std::vec::Vec::retain_mut')
def retain(E, st, args, cx):
    E.ev_call(st, cx.res, args, cx)
    r = real_ref(E, st, args[0])
    v = E.deep(st, args[0])
    mode = 'pairs' if 'Map' in cx.res else 'val'

    def run(root):
        def onitem(x, s):
            xs = [E.project(x, '.0'), E.project(x, '.1')] if mode == 'pairs' else [x]
            for b, s2 in E.call_value(s, args[1], xs, cx):
                for pol, s3 in E.split_bool(s2, b):
                    if pol:
                        s3.mem[root] = bag_add(E, s3, s3.mem[root], x)
                    yield ('back', s3)

        def onend(s):
            if r is not None:
                E.write(s, r.a[0], r.a[1], s.mem[root])
            yield UNIT, s
        return consume(E, st, T('iter', v, mode, ()), cx, ('retain', cx.fn.npath, cx.bb), onitem, onend)
    return mergeouts(E, scoped(E, st, T('coll0', 'empty'), run), 'retain')


# ------------------------------------------------------------------ closures called through the Fn traits
@reg('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once', 'std::ops::AsyncFn::async_call')
def fncall(E, st, args, cx):
    a = E.val(st, args[1]) if len(args) > 1 else UNIT
    xs = list(a.a[3]) if a.op == 'agg' else ([] if a is UNIT else [a])
    return E.call_value(st, args[0], xs, cx)


# ------------------------------------------------------------------ panics
def panic(E, st, args, cx):
    n = E.g.new()
    E.edge(st.node, n, None, Ev('panic', cx.res, [E.deep(st, a) for a in args], (), cx.span, cx.fn, cx.exp))
    return []


for _p in ('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_explicit', 'core::panicking::unreachable_display',
           'core::panicking::panic_display', 'std::rt::begin_panic', 'core::panicking::assert_failed', 'core::option::expect_failed',
           'std::rt::panic_fmt', 'core::panicking::panic_str_2015', 'core::panicking::panic_nounwind',
           'core::panicking::panic_default_msg', 'core::panicking::unreachable_default_msg',
           'core::panicking::unimplemented_default_msg', 'core::panicking::todo_default_msg'):
    TABLE[_p] = panic


# ------------------------------------------------------------------ locks
@reg('std::sync::Mutex::lock', 'std::sync::Mutex::try_lock', 'std::sync::RwLock::read', 'std::sync::RwLock::write')
def lock(E, st, args, cx):
    if cx.res.endswith('try_lock'):
        v = T('call', 'try_lock', E.deep(st, args[0]))
        out = []
        for n in ('Ok', 'Err'):
            s = E.fork(st, (T('is', v, n), True))
            if s:
                out.append((enum1(RES, n, args[0] if n == 'Ok' else UNIT), s))
        return out
    return R(st, Ok(args[0]))


@reg('futures::lock::Mutex::try_lock', 'tokio::sync::Mutex::try_lock')
def try_lock(E, st, args, cx):
    v = T('call', 'try_lock', E.deep(st, args[0]))
    out = []
    for n in ('Some', 'None'):
        s = E.fork(st, (T('is', v, n), True))
        if s:
            out.append((Some(args[0]) if n == 'Some' else NONE, s))
    return out


for _n in ('std::fmt::Arguments::new', 'std::fmt::Arguments::from_str', 'core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug',
           'std::fmt::format', 'core::fmt::rt::Argument::new_lower_hex', 'std::fmt::Arguments::from_str_nonconst'):
    pure(_n.split('::')[-1], _n)
