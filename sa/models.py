"""Models of the library functions the crate uses.

Three kinds of entries: identity conversions (the bytes of the result are those
of the argument), precise models, and everything else, which is opaque: the
result is a fresh term which remembers the function and its arguments, what is
reachable through a `&mut` argument becomes unknown, and the call is recorded
in the trace.
"""
from engine import *
import engine as E_

# ---------------------------------------------------------------- tables
# methods whose result holds exactly the bytes/value of its argument
ID_VAL = {  # by value (or reference to the content for &self methods): result = content
    'Clone::clone', 'ToOwned::to_owned', '[T]::to_vec', 'slice::to_vec', 'Into::into', 'From::from', 'Bytes::from_static',
    'ByteString::from_static', 'ByteString::into_bytes', 'ByteString::from_bytes_unchecked', 'BytesMut::freeze', 'Bytes::copy_from_slice',
    'str::to_owned', 'str::to_string', 'String::into_bytes', 'str::into_string', 'Vec::into_boxed_slice', 'String::into_boxed_str',
    '[T]::into_vec', 'Bytes::to_vec', 'ByteString::to_string', 'Option::cloned', 'Option::copied', 'hint::must_use', '__private::must_use',
    'convert::identity', 'IntoFuture::into_future', 'hint::black_box', 'Box::from', 'Vec::from', 'String::from', 'Bytes::from', 'ByteString::from',
    'ManuallyDrop::new', 'Wrapping', 'Instant::clone', 'BytesMut::from', 'Bytes::into', 'str::into_boxed_bytes', 'Arc::unwrap_or_clone',
    'Iterator::by_ref', 'Pin::into_inner', 'Pin::get_mut', 'Pin::new', 'Pin::new_unchecked', 'Pin::as_mut', 'Pin::as_ref', 'Pin::get_unchecked_mut', 'Pin::get_ref', 'Pin::set',
    'Option::as_pin_mut', 'Box::into_pin', 'Iterator::cloned', 'Iterator::copied', 'Iterator::fuse', 'Iterator::peekable', 'BytesMut::from_iter',
    'SliceMut::into_inner', 'IoVecWrapper::into_inner', 'future::ready_', 'Buf::copy_to_bytes_', 'Cow::into_owned', 'String::leak', 'Rc::as_ref', 'Vec::leak',
}
# methods from a reference to a view of the same place
ID_REF = {
    'Borrow::borrow', 'BorrowMut::borrow_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str', 'String::as_bytes', 'str::as_bytes',
    'ByteString::as_bytes', 'ByteString::as_str', 'array::as_slice', '[T; N]::as_slice', '[T; N]::as_mut_slice', 'String::as_mut_str', 'str::as_str', 'str::as_ref', 'Bytes::as_slice', 'Bytes::as_ref',
    'Cell::as_ptr', 'RefCell::get_mut', 'Cell::get_mut', 'Mutex::get_mut', 'BytesMut::as_ref', 'as_bytes_', '[T]::as_ref', 'str::as_mut', 'StepBy', '[T]::as_slice',
    'IndexMap::as_slice', 'Range::clone_', 'UnsafeCell::get',
}
NOOP = {'Vec::shrink_to_fit', 'Vec::shrink_to', 'String::shrink_to_fit', 'Vec::reserve', 'BytesMut::reserve', 'String::reserve', 'Vec::reserve_exact', 'HashMap::reserve', 'VecDeque::reserve', 'IndexMap::reserve', 'IndexMap::shrink_to_fit', 'String::reserve_exact', 'IndexMap::shrink_to'}
SMART = ('alloc::rc::Rc', 'alloc::sync::Arc', 'alloc::boxed::Box', 'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc', 'core::pin::Pin', 'alloc::rcs::boxed::Box')
GUARDS = ('RefMut', 'Ref', 'RwLockReadGuard', 'RwLockWriteGuard', 'MutexGuard', 'MappedMutexGuard', 'OccupiedEntry', 'PinMut', 'LazyLock', 'OnceLock', 'ManuallyDrop_')
PANICS = {'panicking::panic', 'panicking::panic_fmt', 'panicking::panic_display', 'panicking::panic_explicit', 'panicking::unreachable_display',
          'panicking::panic_nounwind', 'panicking::assert_failed', 'panicking::panic_str', 'panicking::panic_str_2015', 'rt::begin_panic', 'panicking::begin_panic',
          'option::expect_failed', 'option::unwrap_failed', 'result::unwrap_failed', 'process::abort', 'process::exit', 'panicking::unreachable_display', 'rt::panic_fmt', 'panicking::panic_any', 'panic::panic_any', 'intrinsics::abort', 'panicking::assert_matches_failed', 'rt::panic_display', 'rt::begin_panic_fmt', 'panicking::const_panic_fmt', 'panic::resume_unwind', 'alloc::handle_alloc_error'}
PURE_QUIET = {  # opaque results, no need to show in traces
    'Arguments::new', 'Arguments::from_str', 'Arguments::from_str_nonconst', 'Argument::new_display', 'Argument::new_debug', 'fmt::format', 'future::get_context',
    'Adhoc::new', 'AdhocKind::anyhow_kind', 'Trait::new', 'TraitKind::anyhow_kind', '__private::format_err', 'Error::msg', 'Level::le',
}

def content(E, st, a):
    """what a byte/string argument holds, whether passed by value or reference"""
    for _ in range(6):
        if a[0] == 'ref': a = E.load(st, a)
        elif a[0] in ('elemref', 'guard', 'slot', 'addr') : a = E.load(st, a)
        elif a[0] == '*': a = E.load(st, a)
        else: break
    if a[0] == 'cat' or (a[0] == 'agg' and a[1] == 'array'):
        b = const_bytes(a)
        if b is not None and a != EMPTY: return ('bytes', b.hex())
    return a

def cstr(t):
    b = const_bytes(t)
    if b is None: return None
    try: return b.decode()
    except Exception: return None

def strip_deref(a):
    return a[1] if a[0] == 'deref' and False else a

def streq(E, st, a, b):
    a, b = content(E, st, a), content(E, st, b)
    ca, cb = const_bytes(a), const_bytes(b)
    if ca is not None and cb is not None: return I(int(ca == cb))
    if ca is not None: a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        s = cb.decode('utf8', 'replace')
        if a[0] == 'lower':
            if s != s.lower(): return FALSE
            return ('streq', a, s)
        if a[0] == 'upper':
            if s != s.upper(): return FALSE
            return ('streq', ('lower', a[1]), s.lower())
        if s == '' : return ('cmp', 'eq', I(0), length(a))
        return ('streq', a, s)
    if a == b: return TRUE
    return mk_eq(a, b)

def fork2(E, st, cond):
    """[(bool, state)]"""
    t = E.truth(st, cond)
    if t is not None: return [(t, st)]
    out = []
    for v in (True, False):
        s = st.copy()
        if E.assume(s, cond, v): out.append((v, s))
    return out

def split(E, st, v, adt):
    """[(variant, payload, state)] for an enum value"""
    if v[0] == 'agg' and v[1] == 'adt':
        return [(v[3], v[4], st)]
    vs = E.variants(adt) or E.variants_path(adt)
    key = ('discr', v, adt)
    f = st.facts.get(key)
    out = []
    for n, dv in vs:
        if isinstance(f, int) and f != dv: continue
        if isinstance(f, tuple) and dv in f[1]: continue
        s = st.copy(); s.facts[key] = dv
        if not E.refine_discr(s, key): continue
        out.append((n, payload(E, s, v, adt, n), s))
    return out

def payload(E, st, v, adt, n):
    k = 0 if n in ('None', 'Pending') else 1
    return tuple(E.project(v, ('f', i, n)) for i in range(k))

def on_discr(E, st, t, adt, f):
    """consequences of a discriminant: False when contradictory"""
    if t[0] == 'insres' and justified(E, st, t) and (f == 1 or isinstance(f, tuple) and 0 in f[1]): return False
    if t[0] == 'nextres' and isinstance(f, int):   # Option of an element
        _, c, pos = t[1], t[2], t[3]
        ln = length(c)
        if c[0] == 'chunks' and pos == I(0) and not E.add_lin(st, sub(length(c[1]), I(1)) if f == 1 else sub(I(0), length(c[1]))): return False
        if f == 1: return E.add_lin(st, sub(sub(ln, pos), I(1)))
        return E.add_lin(st, sub(pos, ln))
    if t[0] == 'chk' and isinstance(f, int):       # checked_sub / checked_add result
        op, a, b, hi = t[1:5]
        if op == 'sub':
            return E.add_lin(st, sub(a, b)) if f == 1 else E.add_lin(st, sub(sub(b, a), I(1)))
        if op == 'add':
            return E.add_lin(st, sub(I(hi), add(a, b))) if f == 1 else E.add_lin(st, sub(add(a, b), I(hi + 1)))
    if t[0] == 'iores' and t[1] == 'read' and isinstance(f, int):   # as many bytes as it says
        n, ln = ('fld', t, 'Ok', 0) if f == 0 else I(0), length(('recv', t[2]))
        return E.add_lin(st, sub(n, ln)) and E.add_lin(st, sub(ln, n))
    if t[0] == 'getres' and isinstance(f, int):
        ln, ix = length(t[1]), t[2]
        return E.add_lin(st, sub(sub(ln, ix), I(1))) if f == 1 else E.add_lin(st, sub(ix, ln))
    if t[0] == 'firstres' and isinstance(f, int):
        return E.add_lin(st, sub(length(t[1]), I(1))) if f == 1 else E.add_lin(st, sub(I(0), length(t[1])))
    if t[0] == 'agg' and t[1] == 'adt':
        return True
    return True

def havoc(E, st, old, why):
    if old[0] == 'agg' and old[1] == 'adt' and old[2] == CURSOR:
        inner, pos = old[4][:2]
        np = ('posafter', why)
        # positions only move forward, and never beyond the end
        E.add_lin(st, sub(np, pos))
        E.add_lin(st, sub(length(content(E, st, inner)), np))
        return ('agg', 'adt', CURSOR, 'Cursor', (inner, np))
    return ('eff', why, old)

# the payload of an error which ends as anyhow::Error is never looked at
ANYHOW = ('anyhow',)
CURSOR = 'core::io::cursor::Cursor'
RANGES = {'core::ops::range::Range': 'r', 'core::ops::range::RangeTo': 't', 'core::ops::range::RangeFrom': 'f', 'core::ops::range::RangeFull': 'F', 'core::ops::range::RangeInclusive': 'ri', 'core::ops::range::RangeToInclusive': 'ti',
          'core::range::Range': 'r', 'core::range::RangeFrom': 'f'}

def range_of(E, r, c):
    """(lo, hi) or None"""
    ln = length(c)
    if r[0] == 'agg' and r[1] == 'adt':
        k = RANGES.get(r[2])
        f = r[4]
        if k == 'r': return f[0], f[1]
        if k == 't': return I(0), f[0]
        if k == 'f': return f[0], ln
        if k == 'F': return I(0), ln
        if k == 'ri': return f[0], add(f[1], I(1))
        if k == 'ti': return I(0), add(f[0], I(1))
    if r[0] == 'zst' and 'RangeFull' in r[1]: return I(0), ln
    if r[0] == 'call' and 'RangeInclusive::new' in r[1]: return r[2][0], add(r[2][1], I(1))
    return None

def need(E, ctx, st, kind, conds, extra=None):
    """obligations (linear terms >= 0); assumed afterwards. False: infeasible"""
    for d in conds:
        okk = E.prove_ge0(st, d)
        E.oblige(st, ctx.b, ctx.te, kind, ('ge0', d), okk, ctx.stack)
        if not okk and not E.add_lin(st, d): return False
    return True

def is_text(E, tyi):
    t = E.F.tys[tyi]
    while t['k'] == 'ref': t = E.F.tys[t['args'][0]]
    return t['k'] == 'str' or t['k'] == 'adt' and t['def'].split('::')[-1] in ('String', 'ByteString')

def boundary(E, ctx, st, kind, c, places):
    """a text is only cut between two characters"""
    k = cstr(c)
    for n in places:
        if n == I(0) or n == length(c): continue
        if is_int(n) and k is not None and n[1] <= len(k.encode()):
            ok_ = n[1] == len(k.encode()) or k.encode()[n[1]] & 0xc0 != 0x80
        else: ok_ = c[0] == 'dec' and c[1][0] in ('num', 'len', 'lin', 'int', 'atomic', 'cast') or E.prove_ge0(st, sub(n, length(c)))
        E.oblige(st, ctx.b, ctx.te, kind, ('boundary', c, n), ok_, ctx.stack)

# ---------------------------------------------------------------- drops
def has_local_drop(E, v, seen=0):
    if v[0] == 'agg':
        if v[1] == 'adt' and any(s and s['k'] == 'adt' and s['def'] == v[2] for s, _, _ in E.impl_index.get(('core::ops::drop::Drop', 'drop'), ())):
            return True
        return any(has_local_drop(E, x) for x in v[4])
    return False

def drop(E, st, v, ref, stack):
    impls = E.impl_index.get(('core::ops::drop::Drop', 'drop'))
    if v[0] == 'agg' and v[1] in ('adt', 'tuple', 'closure', 'coroutine') and impls and has_local_drop(E, v):
        outs = [st]
        if v[1] == 'adt':
            for s, bid, _ in impls:
                if s and s['k'] == 'adt' and s['def'] == v[2] and bid not in stack:
                    outs = [s2 for _, s2 in E.run(bid, [ref], st, stack)]
        for i, f in enumerate(v[4]):
            if has_local_drop(E, f):
                nxt = []
                for s2 in outs:
                    r2 = ('ref', ref[1], ref[2] + (('f', i, None),)) if ref[0] == 'ref' else ref
                    nxt += drop(E, s2, E.load(s2, r2), r2, stack)
                outs = nxt
        return outs
    if v[0] in ('occ', 'guard', 'entry') or (v[0] == 'fld' and mentions(v, lambda t: t[0] == 'entry')):
        st.ev('unlock', v)
    elif v[0] == 'agg' and v[1] in ('adt', 'tuple') and 'ManuallyDrop' not in str(v[2]):
        # what it holds is dropped too
        for f in v[4]:
            if isinstance(f, tuple) and f and f[0] in ('occ', 'guard', 'entry', 'agg'): drop(E, st, f, ref, stack)
    return [st]

def local_hook(E, ctx, st, bid, args):
    h = E.opts.get('local_hook')
    return h(E, ctx, st, bid, args) if h else None

# ---------------------------------------------------------------- futures
def poll(E, ctx, st, fut, ref):
    """[(output, state)] once the future is ready"""
    for _ in range(8):
        if fut[0] == 'ref': ref = fut; fut = E.load(st, fut)
        else: break
    if fut[0] == 'agg' and fut[1] == 'coroutine' and fut[2] in E.F.bodies:
        if fut[2] in ctx.stack:
            up = coroutine_upvar_mut(E, fut[2], len(fut[4]))
            outs = E.recursion_up(ctx, st, fut[2], fut[4], up) if hasattr(E, 'recursion_up') else recursion_up(E, ctx, st, fut[2], fut[4], up)
            return outs
        return E.run(fut[2], [fut, ('sym', 'cx')], st, ctx.stack)
    if fut[0] == 'readyfut': return [(fut[1], st)]
    if fut[0] == 'pollfn': return poll_fn(E, ctx, st, fut)
    if fut[0] == 'lockfut':
        lab = E.fresh(st, ctx.stack, ctx.bb)
        st.ev('await', fut, ctx.site())
        g = ('guard', fut[2], fut[1], lab)
        st.ev('lock', fut[1], fut[2], lab)
        return [(g if not fut[3] else ok(g), st)]
    if fut[0] == 'timeoutfut':
        outs = [(ok(v), s) for v, s in poll(E, ctx, st.copy(), fut[1], None)]
        st.ev('await', fut, ctx.site())
        return outs + [(err(('call', 'elapsed', ())), st)]
    if fut[0] == 'val': return [(fut[1], st)]
    if fut[0] == 'future':
        h = FUT.get(fut[1])
        st.ev('await', fut, ctx.site())
        if h:
            return h(E, ctx, st, fut[2], fut[3], fut)
        lab = E.fresh(st, ctx.stack, ctx.bb)
        out = ('out', fut[1], fut[2], fut[3], lab)
        st.ev('awaited', fut[1], fut[2], out, ctx.site(), tuple(deep(E, st, x) for x in fut[2]))
        return [(out, st)]
    lab = E.fresh(st, ctx.stack, ctx.bb)
    st.ev('await', fut, ctx.site())
    out = ('out', '?', (fut,), lab, lab)
    st.ev('awaited', '?', (fut,), out, ctx.site())
    return [(out, st)]

def recursion_up(E, ctx, st, bid, ups, mut):
    lab = E.fresh(st, ctx.stack, ctx.bb)
    loaded = tuple(E.load(st, a) if a[0] == 'ref' else a for a in ups)
    st.ev('rec', bid, tuple(ups), loaded, ctx.site(), lab)
    for i, a in enumerate(ups):
        if mut[i] and a[0] == 'ref':
            E.write(st, a[1], a[2], havoc(E, st, loaded[i], ('rec', bid, i, lab, loaded)))
    return [(('recret', bid, loaded, lab), st)]

def coroutine_upvar_mut(E, bid, n):
    b = E.F.bodies[bid]
    mut = [False] * n
    def scan(o):
        if isinstance(o, list) and len(o) == 3 and o[0] == 1 and isinstance(o[1], list) and o[1] and isinstance(o[1][0], list) and o[1][0][0] == 'f':
            i = o[1][0][1]; ty = o[1][0][3]
            t = E.F.tys[ty]
            if i < n and t['k'] == 'ref' and t.get('mut'): mut[i] = True
        if isinstance(o, dict):
            for x in o.values(): scan(x)
        elif isinstance(o, list):
            for x in o: scan(x)
    for bl in b['blocks']: scan(bl)
    return mut

def poll_fn(E, ctx, st, fut):
    clo = fut[1]
    body = E.F.bodies.get(clo[2]) if clo[0] == 'agg' else None
    names = [u[0] for u in (body or {}).get('upvars') or []]
    if names == ['disabled', 'futures']:
        # select!: one of the branches becomes ready
        fr = clo[4][1]
        futs = E.load(st, fr) if fr[0] == 'ref' else fr
        outt = ctx.E.F.tys[body['locals'][0]['ty']]          # Poll<Out<..>>
        oadt = E.F.tys[outt['args'][0]]
        res = []
        n = len(futs[4]) if futs[0] == 'agg' else 0
        st.ev('select', n, ctx.site())
        for i in range(n):
            s = st.copy()
            s.ev('branch', i)
            r = ('ref', fr[1], fr[2] + (('f', i, None),)) if fr[0] == 'ref' else futs[4][i]
            for v, s2 in poll(E, ctx, s, r, None):
                res.append((('agg', 'adt', oadt['def'], '_%d' % i, (v,)), s2))
        return res
    if body is not None:
        outs = []
        for v, s in E.call_value(ctx, st, clo, [('sym', 'cx')]):
            for n, p, s2 in split(E, s, v, POLL):
                if n == 'Ready': outs.append((p[0], s2))
        return outs
    lab = E.fresh(st, ctx.stack, ctx.bb)
    return [(('out', 'poll_fn', (clo,), lab, lab), st)]

def io_err(E, ctx, st, what, fut):
    """[(Result, state)] of an io operation; Ok payload symbolic"""
    lab = fut[3]
    r = ('iores', what, lab)
    return r

def fut_write(E, ctx, st, args, lab, fut):
    what = fut[1]
    sink = args[0]; data = content(E, st, args[1]) if len(args) > 1 else None
    r = ('iores', what, lab)
    st.ev('io', what, sink_of(E, st, sink), data, r, ctx.site())
    if what in ('flush', 'shutdown'): return [(r, st)]
    return [(agg_tuple(r, args[1]), st)]

def sink_of(E, st, s):
    for _ in range(6):
        if s[0] == 'ref':
            v = E.load(st, s)
            if v[0] == 'ref': s = v
            else: return v if v[0] not in ('agg',) else s
        else: break
    return s

def fut_read(E, ctx, st, args, lab, fut):
    rd, buf = args[0], args[1]
    r = ('iores', 'read', lab)
    n = ('fld', r, 'Ok', 0)
    b = buf
    st.ev('io', 'read', sink_of(E, st, rd), content(E, st, buf), r, ctx.site())
    recv = ('recv', lab)
    if b[0] == 'slicemut':
        base, off = b[1], b[2]
        # bytes before the offset stay, those read follow
        if E.prove_ge0(st, sub(off, length(base))) and E.prove_ge0(st, sub(length(base), off)):
            nb = cat(base, recv)
        else: nb = cat(E.slice_of(base, I(0), off), recv)
        return [(agg_tuple(r, ('slicemut', nb, off)), st)]
    # a whole buffer: written from its start (owned buffers of monoio)
    if content(E, st, b) == ('cat', ()): return [(agg_tuple(r, recv), st)]
    return [(agg_tuple(r, ('readinto', b, recv)), st)]

def fut_recv(E, ctx, st, args, lab, fut):
    out = ('recvres', sink_of(E, st, args[0]), E.fresh(st, ctx.stack, ctx.bb))
    st.ev('recv', sink_of(E, st, args[0]), out, ctx.site())
    return [(out, st)]

def fut_entry(E, ctx, st, args, lab, fut):
    return m_entry(E, ctx, st, args)

FUT = {'write': fut_write, 'write_all': fut_write, 'flush': fut_write, 'shutdown': fut_write, 'writev': fut_write, 'write_vectored_all': fut_write,
       'read': fut_read, 'recv': fut_recv, 'entry_async': fut_entry}

# ---------------------------------------------------------------- maps
def map_of(E, st, m):
    """identity of a map: where it lives"""
    for _ in range(6):
        if m[0] == 'ref':
            v = E.load(st, m)
            if v[0] == 'ref' or v[0] in ('fld', 'deref', 'phi', 'elem') and False: m = v
            elif v[0] == 'ref': m = v
            else: return ('map',) + m[1:]
        else: return ('map', m)
    return ('map', m)

def m_entry(E, ctx, st, args):
    m = map_of(E, st, args[0]); k = content(E, st, args[1])
    lab = E.fresh(st, ctx.stack, ctx.bb)
    st.ev('map.lock', m, k, lab, ctx.site())
    return [(('entry', m, k, lab), st)]

def occ_parts(E, st, o):
    for _ in range(5):
        if o[0] == 'ref': o = E.load(st, o)
        else: break
    # ('fld', ('entry', m, k, lab), 'Occupied', 0)
    if o[0] == 'fld' and o[1][0] == 'entry': return o[1][1], o[1][2], o[1][3]
    if o[0] == 'occ': return o[1], o[2], o[3]
    if o[0] == 'fld' and o[1][0] == 'getentry': return o[1][1], o[1][2], o[1][3]
    return None

# ---------------------------------------------------------------- externals
def external(E, ctx, st, fn, key, args):
    path = fn['path']; meth = key.split('::')[-1]
    if key in PANICS or key.startswith('panicking::'):
        if key in ('panicking::panicking',): return opaque(E, ctx, st, fn, key, args)
        msg = ''
        for a in args:
            for t in subterms(a):
                if t[0] == 'str': msg = msg or t[1]
        st.ev('panic', ctx.site(), key + ' ' + msg)
        E.oblige(st, ctx.b, ctx.te, 'panic:' + key, ('reach', msg), False, ctx.stack)
        return []
    h = MODELS.get(key)
    if h is None and fn.get('trait'):
        h = MODELS.get('*::' + meth) if False else None
    if h is not None:
        r = h(E, ctx, st, args)
        if r is not None: return r
    if key in NOOP:
        if meth in ('reserve', 'reserve_exact') and len(args) > 1:
            st.ev('alloc', key, args[1], ctx.site()); alloc_ob(E, ctx, st, args[1], key)
        return [(UNIT, st)]
    if key in ID_REF and args: return [(view(E, st, args[0], ctx.atys[0]), st)]
    if key in ID_VAL and args:
        if key in ('Into::into', 'From::from'): return m_into(E, ctx, st, fn, args)
        if key == 'Clone::clone': return m_clone(E, ctx, st, fn, args)
        a = args[0]
        if key in ('Option::cloned', 'Option::copied'):
            res = []
            for n, p, s in split(E, st, a, OPTION):
                res.append((some(content(E, s, p[0])) if n == 'Some' else NONE, s))
            return res
        if key.startswith('Pin::') or key in ('Iterator::by_ref', 'IntoFuture::into_future', 'Box::into_pin', 'hint::must_use', '__private::must_use'):
            return [(a, st)]
        if key == 'Iterator::cloned' or key == 'Iterator::copied':
            if a[0] == 'iter': return [(('iter', a[1], a[2], 'val'), st)]
            return [(('call', key, (a,), 0), st)]
        return [(content(E, st, a), st)]
    if path.endswith('::checked_add') or path.endswith('::checked_sub') or path.endswith('::checked_mul'):
        return m_checked(E, ctx, st, path, args)
    if meth in ('saturating_sub', 'saturating_add', 'wrapping_add', 'wrapping_sub', 'min', 'max', 'abs_diff') and len(args) == 2:
        return m_arith(E, ctx, st, meth, args)
    return opaque(E, ctx, st, fn, key, args)

def opaque(E, ctx, st, fn, key, args, quiet=False):
    lab = E.fresh(st, ctx.stack, ctx.bb)
    E.unknown[key] += 1
    vals = tuple(args)
    shown = tuple(content(E, st, a) if a[0] == 'ref' else a for a in args)
    # closures given to a library function may be called, with unknown arguments
    outs = [st]
    for a in args:
        c = E.load(st, a) if a[0] == 'ref' else a
        if c[0] == 'agg' and c[1] == 'closure' and c[2] in E.F.bodies:
            body = E.F.bodies[c[2]]
            t1 = E.F.tys[body['locals'][1]['ty']]
            nargs = body['argc'] - 1
            nxt = []
            for s in outs:
                s2 = s.copy()
                fa = [('closarg', key, lab, i, shown[0] if shown else None) for i in range(nargs)]
                s2.ev('closure', key, c[2])
                for v, s3 in E.call_value(ctx, s2, a if a[0] == 'ref' else c, fa):
                    s3.ev('endclosure', key, c[2], v)
                    nxt.append(s3)
                nxt.append(s)
            outs = dedupe(nxt)
    res = []
    for s in outs:
        if not (quiet or key in PURE_QUIET):
            s.ev('ext', key, shown, ctx.site(), lab)
        for i, a in enumerate(args):
            ty = E.F.tys[ctx.atys[i]] if i < len(ctx.atys) else None
            if ty and ty['k'] == 'ref' and ty.get('mut') and a[0] == 'ref':
                old = E.load(s, a)
                if old[0] == 'agg' and old[1] in ('coroutine', 'closure'): continue
                E.write(s, a[1], a[2], havoc(E, s, old, ('ext', key, i, lab, shown)))
        # a future?
        dty = E.F.tys[ctx.dty] if ctx.dty is not None else None
        meth = key.split('::')[-1]
        if dty and dty['k'] == 'alias' and 'Future' in dty['s'] or key in FUT_FNS:
            res.append((('future', meth, vals, lab), s)); continue
        if dty and dty['s'] == '()': res.append((UNIT, s)); continue
        if dty and dty['k'] == 'never': continue
        if dty and dty['s'] == 'anyhow::Error': res.append((ANYHOW, s)); continue
        res.append((('call', key, shown, lab), s))
    return res

FUT_FNS = set()

def dedupe(sts):
    out = []; seen = set()
    for s in sts:
        k = (s.trace if s.trace is None else id(s.trace), len(s.facts), len(s.lin))
        out.append(s)
    # states without new events and with the same memory are merged
    res = []
    for s in out:
        for r in res:
            if r.mem == s.mem and same_trace(r, s): break
        else: res.append(s)
    return res

def same_trace(a, b):
    ea = [e for e in a.events() if e[0] not in ('closure', 'endclosure', 'enter', 'loop')]
    eb = [e for e in b.events() if e[0] not in ('closure', 'endclosure', 'enter', 'loop')]
    return ea == eb

def view(E, st, a, tyi):
    return a

def m_clone(E, ctx, st, fn, args):
    a = args[0]
    v = E.load(st, a) if a[0] in ('ref', 'elemref', 'guard', 'slot') or True else a
    if a[0] in ('str', 'bytes'): return [(a, st)]
    return [(v, st)]

def conv_type(E, tyi):
    return E.F.tys[tyi] if tyi is not None else None

def m_into(E, ctx, st, fn, args):
    """Into::into / From::from: a local From implementation is run"""
    key = short(fn['path'])
    dst = E.F.tys[ctx.dty]
    src = E.F.tys[ctx.atys[0]] if ctx.atys else None
    return convert(E, ctx, st, args[0], src, dst)

def convert(E, ctx, st, v, src, dst):
    if src is not None and src['s'] == dst['s']: return [(v, st)]
    if dst['k'] == 'adt' and src is not None:
        for stt, bid, tr in E.impl_index.get(('core::convert::From', 'from'), ()):
            if stt and stt['k'] == 'adt' and stt['id'] == dst['id'] and bid in E.F.bodies:
                pt = E.F.tys[E.F.bodies[bid]['locals'][1]['ty']]
                if pt['s'] == src['s'] or (pt['k'] == src['k'] and pt['k'] == 'ref' and E.F.tys[pt['args'][0]]['s'] == E.F.tys[src['args'][0]]['s']) \
                   or strip_generics(pt['s']) == strip_generics(src['s']):
                    if bid in ctx.stack: break
                    return E.run(bid, [v], st, ctx.stack)
        if dst['def'] in ('core::option::Option',): return [(some(v), st)]
    if dst['s'] == 'anyhow::Error':
        return [(ANYHOW, st)]
    if dst['s'].startswith('std::boxed::Box<dyn'):
        return [(('conv', v), st)]
    if src is not None and src['k'] in ('uint', 'int', 'bool', 'char') and dst['k'] in ('uint', 'int'): return [(v, st)]
    if src is not None and src['k'] == 'adt' and dst['k'] == 'adt':
        keep = ('Vec', 'VecDeque', 'String', 'Bytes', 'BytesMut', 'ByteString', 'Box', 'Cow', 'PathBuf', 'Arc', 'Rc', 'Duration', 'NonZero')
        sd, dd = src['def'].split('::')[-1], dst['def'].split('::')[-1]
        if sd == 'NonZero': return [(('call', 'NonZero::get', (v,), 0), st)]
        if sd in keep and dd in keep: return [(content(E, st, v) if v[0] != 'ref' else v, st)]
        if dd.startswith('Atomic'): return [(v, st)]
        return [(('conv', v), st)]
    if dst['k'] == 'adt' and dst['def'].split('::')[-1].startswith('Atomic'): return [(v, st)]
    if dst['k'] in ('uint', 'int') and src is not None and src['k'] == 'adt': return [(('call', 'NonZero::get', (v,), 0), st)]
    if src is not None and src['k'] in ('ref',): return [(content(E, st, v), st)]
    if dst['k'] in ('param', 'alias') or (src is not None and src['k'] in ('param', 'alias')): return [(v, st)]
    if src is not None and src['k'] == 'array': return [(v, st)]
    return [(('conv', v), st)]

def m_try_branch(E, ctx, st, args):
    v = args[0]
    if v[0] == 'agg' and v[2] == RESULT or (v[0] != 'agg' and is_ty(E, ctx.atys[0], 'core::result::Result')):
        res = []
        for n, p, s in split(E, st, v, RESULT):
            if n == 'Ok': res.append((enum(CFLOW, 'Continue', p[0]), s))
            else: res.append((enum(CFLOW, 'Break', err(p[0])), s))
        return res
    if v[0] == 'agg' and v[2] == OPTION or is_ty(E, ctx.atys[0], 'core::option::Option'):
        res = []
        for n, p, s in split(E, st, v, OPTION):
            if n == 'Some': res.append((enum(CFLOW, 'Continue', p[0]), s))
            else: res.append((enum(CFLOW, 'Break', NONE), s))
        return res
    return None

def is_ty(E, tyi, d):
    t = E.F.tys[tyi]
    return t['k'] == 'adt' and t['id'] == d

def m_from_residual(E, ctx, st, args):
    v = args[0]
    if v[0] == 'agg' and v[3] == 'None': return [(NONE, st)]
    if v[0] == 'agg' and v[3] == 'Err':
        e = v[4][0]
        dt, at = E.F.tys[ctx.dty], E.F.tys[ctx.atys[0]]
        if dt['k'] == 'adt' and at['k'] == 'adt' and len(dt.get('args', [])) == 2 and len(at.get('args', [])) == 2:
            return [(err(x), s) for x, s in convert(E, ctx, st, e, E.F.tys[at['args'][1]], E.F.tys[dt['args'][1]])]
        return [(err(('conv', e)), st)]
    return None

def unwrap_like(E, ctx, st, v, adt, good, kind, extra=None):
    res = []
    for n, p, s in split(E, st, v, adt):
        if n == good: res.append((p[0], s))
        else:
            just = justified(E, s, v)
            E.oblige(s, ctx.b, ctx.te, kind, ('variant', v, n), just, ctx.stack)
            if not just: s.ev('panic', ctx.site(), kind)
    if all(n == good for n, _, _ in split(E, st, v, adt)):
        E.oblige(st, ctx.b, ctx.te, kind, ('variant', v, good), True, ctx.stack)
    return res

def justified(E, st, v):
    """results which are known never to fail"""
    if v[0] == 'insres':
        # a fresh unique key, taken from an atomic counter
        k = v[2]
        if k[0] == 'lin' and len(k[2]) == 1 and k[2][0][1] in (1, -1): k = k[2][0][0]
        return k[0] == 'atomic' and k[1] in ('fetch_add', 'fetch_sub') or same_added(st, k) is not None
    if v[0] == 'call' and v[1] in ('Write::write_fmt', 'Write::write_str', 'fmt::write') and v[2] and v[2][0][0] in ('cat', 'str'): return True
    return False

def same_added(st, k):
    """the atomic addition which is known to have given this value"""
    for f, b in st.facts.items():
        if b == 1 and f[0] == 'cmp' and f[1] == 'eq' and k in (f[2], f[3]):
            o = f[3] if f[2] == k else f[2]
            if o[0] == 'atomic' and o[1] == 'fetch_add': return o
    return None

def call_closure(E, ctx, st, f, args):
    return E.call_value(ctx, st, f, args)

def m_opt_map(E, ctx, st, args):
    res = []
    for n, p, s in split(E, st, args[0], OPTION):
        if n == 'None': res.append((NONE, s))
        else: res += [(some(v), s2) for v, s2 in call_closure(E, ctx, s, args[1], [p[0]])]
    return res

def m_then(lazy):
    def f(E, ctx, st, args):
        res = []
        for b, s in fork2(E, st, boolterm(args[0])):
            if not b: res.append((NONE, s))
            elif lazy: res += [(some(v), s2) for v, s2 in call_closure(E, ctx, s, args[1], [])]
            else: res.append((some(args[1]), s))
        return res
    return f

def m_opt_and_then(E, ctx, st, args):
    res = []
    for n, p, s in split(E, st, args[0], OPTION):
        if n == 'None': res.append((NONE, s))
        else: res += call_closure(E, ctx, s, args[1], [p[0]])
    return res

def m_opt_is(some_, neg_closure=None):
    def f(E, ctx, st, args):
        v = args[0]
        if v[0] == 'ref' or v[0] in ('elemref', 'guard', 'slot'): v = E.load(st, v)
        res = []
        for n, p, s in split(E, st, v, OPTION): res.append((I(int((n == 'Some') == some_)), s))
        return res
    return f

def m_res_is(ok_):
    def f(E, ctx, st, args):
        v = args[0]
        if v[0] == 'ref': v = E.load(st, v)
        return [(I(int((n == 'Ok') == ok_)), s) for n, p, s in split(E, st, v, RESULT)]
    return f

def m_opt_is_some_and(E, ctx, st, args):
    res = []
    for n, p, s in split(E, st, args[0], OPTION):
        if n == 'None': res.append((FALSE, s))
        else: res += call_closure(E, ctx, s, args[1], [p[0]])
    return res

def m_opt_is_none_or(E, ctx, st, args):
    res = []
    for n, p, s in split(E, st, args[0], OPTION):
        if n == 'None': res.append((TRUE, s))
        else: res += call_closure(E, ctx, s, args[1], [p[0]])
    return res

def m_res_is_and(good):
    def f(E, ctx, st, args):
        res = []
        for n, p, s in split(E, st, args[0], RESULT):
            if n != good: res.append((FALSE, s))
            else: res += call_closure(E, ctx, s, args[1], [p[0]])
        return res
    return f

def m_unwrap_or(adt, good):
    def f(E, ctx, st, args):
        return [(p[0] if n == good else args[1], s) for n, p, s in split(E, st, args[0], adt)]
    return f

def m_unwrap_or_else(adt, good):
    def f(E, ctx, st, args):
        res = []
        for n, p, s in split(E, st, args[0], adt):
            if n == good: res.append((p[0], s))
            else: res += call_closure(E, ctx, s, args[1], list(p))
        return res
    return f

def m_unwrap_or_default(adt, good):
    def f(E, ctx, st, args):
        return [(p[0] if n == good else default_of(E, ctx), s) for n, p, s in split(E, st, args[0], adt)]
    return f

def default_of(E, ctx):
    t = E.F.tys[ctx.dty]
    if t['k'] in ('uint', 'int', 'bool'): return I(0)
    d = t.get('def', '')
    last = d.split('::')[-1]
    if last in ('Vec', 'String', 'Bytes', 'ByteString', 'BytesMut'): return EMPTY
    if last == 'Option': return NONE
    if t['k'] == 'ref' and E.F.tys[t['args'][0]]['k'] == 'str': return ('str', '')
    return ('default', t['s'])

def m_default(E, ctx, st, args):
    t = E.F.tys[ctx.dty]
    d = t.get('def', '').split('::')[-1]
    if d in ('Arc', 'Rc', 'Box'):
        inner = E.F.tys[t['args'][0]]
        lab = E.fresh(st, ctx.stack, ctx.bb)
        h = ('H', d, lab); st.mem[h] = ('default', inner['s'])
        st.ev('new', d, h, inner['s'], ctx.site())
        return [(('ref', h, ()), st)]
    return [(default_of(E, ctx), st)]

def m_map_or(adt, good):
    def f(E, ctx, st, args):
        res = []
        for n, p, s in split(E, st, args[0], adt):
            if n == good: res += call_closure(E, ctx, s, args[2], [p[0]])
            else: res.append((args[1], s))
        return res
    return f

def m_map_or_else(adt, good):
    def f(E, ctx, st, args):
        res = []
        for n, p, s in split(E, st, args[0], adt):
            if n == good: res += call_closure(E, ctx, s, args[2], [p[0]])
            else: res += call_closure(E, ctx, s, args[1], list(p))
        return res
    return f

def m_ok_or(E, ctx, st, args):
    return [(ok(p[0]) if n == 'Some' else err(args[1]), s) for n, p, s in split(E, st, args[0], OPTION)]

def m_ok_or_else(E, ctx, st, args):
    res = []
    for n, p, s in split(E, st, args[0], OPTION):
        if n == 'Some': res.append((ok(p[0]), s))
        else: res += [(err(v), s2) for v, s2 in call_closure(E, ctx, s, args[1], [])]
    return res

def m_res_map(E, ctx, st, args):
    res = []
    for n, p, s in split(E, st, args[0], RESULT):
        if n == 'Err': res.append((err(p[0]), s))
        else: res += [(ok(v), s2) for v, s2 in call_closure(E, ctx, s, args[1], [p[0]])]
    return res

def m_res_map_err(E, ctx, st, args):
    res = []
    for n, p, s in split(E, st, args[0], RESULT):
        if n == 'Ok': res.append((ok(p[0]), s))
        else: res += [(err(v), s2) for v, s2 in call_closure(E, ctx, s, args[1], [p[0]])]
    return res

def m_res_and_then(E, ctx, st, args):
    res = []
    for n, p, s in split(E, st, args[0], RESULT):
        if n == 'Err': res.append((err(p[0]), s))
        else: res += call_closure(E, ctx, s, args[1], [p[0]])
    return res

def m_res_or_else(E, ctx, st, args):
    res = []
    for n, p, s in split(E, st, args[0], RESULT):
        if n == 'Ok': res.append((ok(p[0]), s))
        else: res += call_closure(E, ctx, s, args[1], [p[0]])
    return res

def m_opt_or_else(E, ctx, st, args):
    res = []
    for n, p, s in split(E, st, args[0], OPTION):
        if n == 'Some': res.append((some(p[0]), s))
        else: res += call_closure(E, ctx, s, args[1], [])
    return res

def m_opt_or(E, ctx, st, args):
    return [(some(p[0]) if n == 'Some' else args[1], s) for n, p, s in split(E, st, args[0], OPTION)]

def m_opt_filter(E, ctx, st, args):
    res = []
    for n, p, s in split(E, st, args[0], OPTION):
        if n == 'None': res.append((NONE, s)); continue
        h = ('H', 'tmp', E.fresh(s, ctx.stack, ctx.bb)); s.mem[h] = p[0]
        for v, s2 in call_closure(E, ctx, s, args[1], [('ref', h, ())]):
            for b, s3 in fork2(E, s2, boolterm(v)): res.append((some(p[0]) if b else NONE, s3))
    return res

def boolterm(v):
    if v[0] in ('int',) or v[0] in BOOLK: return v
    return ('not', ('cmp', 'eq', I(0), v)) if v[0] != 'pred' else v

def m_res_ok(E, ctx, st, args):
    return [(some(p[0]) if n == 'Ok' else NONE, s) for n, p, s in split(E, st, args[0], RESULT)]

def m_res_err(E, ctx, st, args):
    return [(some(p[0]) if n == 'Err' else NONE, s) for n, p, s in split(E, st, args[0], RESULT)]

def ref_variant(adt):
    def f(E, ctx, st, args):
        """as_ref / as_mut / as_deref of an enum behind a reference"""
        a = args[0]
        v = E.load(st, a)
        res = []
        for n, p, s in split(E, st, v, adt):
            if not p: res.append((enum(adt, n), s)); continue
            if a[0] == 'ref': r = ('ref', a[1], a[2] + (('f', 0, n),))
            elif v[0] == 'agg': r = ('addr', p[0])
            else: r = ('addr', p[0])
            res.append((enum(adt, n, r), s))
        return res
    return f

def m_opt_take(E, ctx, st, args):
    v = E.load(st, args[0]); E.save(st, args[0], NONE)
    return [(v, st)]

def m_mem_replace(E, ctx, st, args):
    v = E.load(st, args[0]); E.save(st, args[0], args[1])
    return [(v, st)]

def m_mem_take(E, ctx, st, args):
    v = E.load(st, args[0]); E.save(st, args[0], default_of(E, ctx))
    return [(v, st)]

def m_mem_swap(E, ctx, st, args):
    a, b = E.load(st, args[0]), E.load(st, args[1])
    E.save(st, args[0], b); E.save(st, args[1], a)
    return [(UNIT, st)]

def m_discriminant(E, ctx, st, args):
    t = E.F.tys[ctx.atys[0]]; ty = ctx.atys[0]
    while t['k'] == 'ref': ty = t['args'][0]; t = E.F.tys[ty]
    return [(E.discr(deep(E, st, args[0]), ty), st)]

def m_drop(E, ctx, st, args):
    h = ('H', 'dropped', E.fresh(st, ctx.stack, ctx.bb)); st.mem[h] = args[0]
    st.ev('drop', args[0])
    return [(UNIT, s) for s in drop(E, st, args[0], ('ref', h, ()), ctx.stack)]

def m_forget(E, ctx, st, args):
    st.ev('ext', 'mem::forget', tuple(args), ctx.site(), 0)
    return [(UNIT, st)]

# ---- smart pointers & cells
def m_new_box(kind):
    def f(E, ctx, st, args):
        lab = E.fresh(st, ctx.stack, ctx.bb)
        h = ('H', kind, lab); st.mem[h] = args[0]
        st.ev('new', kind, h, args[0], ctx.site())
        return [(('ref', h, ()), st)]
    return f

def m_as_ref(E, ctx, st, args):
    """AsRef looks through references"""
    a = args[0]
    for _ in range(4):
        if a[0] != 'ref': break
        v = E.load(st, a)
        if v[0] not in ('ref', 'addr'): break
        a = v
    return [(a, st)]

def m_deref(E, ctx, st, args):
    a = args[0]
    t = E.F.tys[ctx.atys[0]]
    while t['k'] == 'ref': t = E.F.tys[t['args'][0]]
    d = t.get('def', '')
    last = d.split('::')[-1]
    if last in ('Rc', 'Arc', 'Box', 'Pin', 'Ref', 'RefMut', 'RwLockReadGuard', 'RwLockWriteGuard', 'MutexGuard', 'RwLockUpgradableReadGuard') or t['k'] == 'ref':
        v = E.load(st, a)
        return [(v, st)]
    if last in ('OccupiedEntry',):
        o = occ_parts(E, st, a)
        if o: return [(('slot',) + o, st)]
    if last in ('Vec', 'String', 'Bytes', 'BytesMut', 'ByteString', 'Cow', 'ManuallyDrop', 'PathBuf', 'CString', 'OsString'):
        return [(a, st)]
    if t['k'] == 'param' or t['k'] == 'alias': return [(a, st)]
    return None

def m_clone_arc(E, ctx, st, args):
    return [(E.load(st, args[0]), st)]

def m_transparent_new(E, ctx, st, args): return [(args[0], st)]

def m_refcell_borrow(E, ctx, st, args): return [(args[0], st)]
def m_try_borrow(E, ctx, st, args): return [(ok(args[0]), st)]
def m_load(E, ctx, st, args): return [(content1(E, st, args[0]), st)]
def content1(E, st, a): return E.load(st, a)
def m_cell_set(E, ctx, st, args):
    E.save(st, args[0], args[1]); return [(UNIT, st)]
def m_cell_replace(E, ctx, st, args):
    v = E.load(st, args[0]); E.save(st, args[0], args[1]); return [(v, st)]
def m_into_inner(E, ctx, st, args):
    v = args[0]
    if v[0] == 'agg' and v[2] == CURSOR: return [(v[4][0], st)]
    if v[0] == 'slicemut': return [(v[1], st)]
    if v[0] == 'slicebuf': return [(v[1], st)]
    if v[0] == 'call' and v[1] in ('BufReader::new', 'BufWriter::new', 'BufReader::with_capacity', 'BufWriter::with_capacity'):
        return [(v[2][-1], st)]
    t = E.F.tys[ctx.atys[0]]
    last = t.get('def', '').split('::')[-1]
    if last in ('RefCell', 'Cell', 'UnsafeCell', 'Mutex', 'RwLock', 'Pin', 'AtomicU64', 'AtomicU32', 'Atomic'):
        return [(v, st)]
    return None

def atomic(name):
    def f(E, ctx, st, args):
        lab = E.fresh(st, ctx.stack, ctx.bb)
        a = args[0]
        where = cellref(E, st, a)
        r = ('atomic', name, where, tuple(args[1:]), lab)
        ty = E.F.tys[ctx.atys[0]]['s']
        def moved(s, cur, new, order):
            # a successful change from x to x + k is an addition of k which gave x
            k = sub(new, cur)
            if k[0] != 'int' or k[1] <= 0: return None
            x = ('atomic', 'fetch_add', where, (k,) + tuple(order), lab)
            s.ev('atomic', 'fetch_add', where, x[3], x, ctx.site(), ty)
            return x
        if name in ('compare_exchange', 'compare_exchange_weak') and len(args) == 5 and args[1][0] != 'int':
            ok_ = st.copy()
            x = moved(ok_, args[1], args[2], args[3:4])
            if x is not None:
                E.assume(ok_, mk_cmp('Eq', args[1], x), True)
                bad = st.copy()
                y = ('atomic', 'load', where, tuple(args[4:5]), lab)
                bad.ev('atomic', 'load', where, y[3], y, ctx.site(), ty)
                return [(ok(x), ok_), (err(y), bad)]
        if name == 'fetch_update' and len(args) > 3:
            outs = []; cur = ('atomic', 'load', where, tuple(args[2:3]), lab)
            for v, s in call_closure(E, ctx, st.copy(), args[3], [cur]):
                x = None
                if v == NONE:
                    s.ev('atomic', 'load', where, cur[3], cur, ctx.site(), ty)
                    outs.append((err(cur), s)); continue
                if v[0] == 'agg' and v[3] == 'Some': x = moved(s, cur, v[4][0], args[1:2])
                if x is None: outs = None; break
                E.assume(s, mk_cmp('Eq', cur, x), True)
                outs.append((ok(x), s))
            if outs: return outs
        st.ev('atomic', name, where, tuple(args[1:]), r, ctx.site(), ty)
        if name == 'store': return [(UNIT, st)]
        if name in ('compare_exchange', 'compare_exchange_weak', 'fetch_update'):
            outs = [st]
            if name == 'fetch_update' and len(args) > 3:
                outs = []
                for v, s in call_closure(E, ctx, st, args[3], [('atomic', 'cur', where, (), lab)]): outs.append(s)
            return [(('atomicres', r), s) for s in outs]
        return [(r, st)]
    return f

def cellref(E, st, a):
    for _ in range(5):
        if a[0] == 'ref':
            v = E.load(st, a)
            if v[0] == 'ref': a = v
            else: return a
        else: break
    return a

def lockfut(mode, fallible=False):
    def f(E, ctx, st, args):
        return [(('lockfut', mode, cellref(E, st, args[0]), fallible), st)]
    return f

def lock_sync(mode):
    def f(E, ctx, st, args):
        t = E.F.tys[ctx.atys[0]]
        fut = E.F.tys[ctx.dty]
        lab = E.fresh(st, ctx.stack, ctx.bb)
        w = cellref(E, st, args[0])
        if 'Fut' in fut['s'].split('<')[0] or fut['k'] == 'alias':
            return [(('lockfut', mode, w, False), st)]
        st.ev('lock', mode, w, lab)
        g = ('guard', w, mode, lab)
        if fut.get('def', '') == 'core::result::Result': return [(ok(g), st)]
        return [(g, st)]
    return f

# ---- strings and bytes
def m_lower(E, ctx, st, args):
    c = content(E, st, args[0])
    s = cstr(c)
    if s is not None: return [(('str', s.lower()), st)]
    if c[0] in ('lower', 'upper'): return [(('lower', c[1]), st)]
    return [(('lower', c), st)]

def m_upper(E, ctx, st, args):
    c = content(E, st, args[0])
    s = cstr(c)
    if s is not None: return [(('str', s.upper()), st)]
    if c[0] in ('lower', 'upper'): return [(('upper', c[1]), st)]
    return [(('upper', c), st)]

def m_make_lower(E, ctx, st, args):
    c = content(E, st, args[0]); E.save(st, args[0], ('lower', c)); return [(UNIT, st)]
def m_make_upper(E, ctx, st, args):
    c = content(E, st, args[0]); E.save(st, args[0], ('upper', c)); return [(UNIT, st)]

def m_eq_ignore_case(E, ctx, st, args):
    a, b = content(E, st, args[0]), content(E, st, args[1])
    ca, cb = cstr(a), cstr(b)
    if ca is not None and cb is not None: return [(I(int(ca.lower() == cb.lower())), st)]
    if ca is not None: a, ca, cb = b, cb, ca
    if cb is not None:
        a = a[1] if a[0] in ('lower', 'upper') else a
        return [(('streq', ('lower', a), cb.lower()), st)]
    return [(('pred', 'eq_ignore_case', a, b), st)]

def bytesish(E, tyi):
    t = E.F.tys[tyi]
    while t['k'] == 'ref': t = E.F.tys[t['args'][0]]
    if t['k'] in ('str', 'param', 'alias'): return True
    if t['k'] in ('slice', 'array'):
        return E.F.tys[t['args'][0]]['s'] == 'u8'
    if t['k'] == 'adt':
        last = t['def'].split('::')[-1]
        if last in ('String', 'Bytes', 'BytesMut', 'ByteString', 'Cow'): return True
        if last == 'Vec': return E.F.tys[t['args'][0]]['s'] == 'u8'
    return False

def m_eq(neg):
    def f(E, ctx, st, args):
        a, b = args
        if bytesish(E, ctx.atys[0]) or bytesish(E, ctx.atys[1]):
            r = streq(E, st, a, b)
            return [(I(1 - r[1]) if neg and r[0] == 'int' else ('not', r) if neg else r, st)]
        t = E.F.tys[ctx.atys[0]]
        while t['k'] == 'ref': t = E.F.tys[t['args'][0]]
        x, y = deep(E, st, a), deep(E, st, b)
        if t['k'] in ('uint', 'int', 'bool', 'char'):
            return [(mk_cmp('Ne' if neg else 'Eq', x, y), st)]
        if t['k'] == 'adt' and t['def'] == OPTION and x[0] == 'agg' and y[0] == 'agg' and x[3] == y[3] == 'Some':
            p, q = deep(E, st, x[4][0]), deep(E, st, y[4][0])
            a = E.F.tys[t['args'][0]] if t.get('args') else {'k': ''}
            while a['k'] == 'ref': a = E.F.tys[a['args'][0]]
            if a['k'] in ('uint', 'int', 'bool', 'char'):
                r = mk_cmp('Ne' if neg else 'Eq', p, q)
                return [(r, st)]
        if t['k'] == 'adt' and t['def'] == OPTION and x[0] == 'agg' and y[0] == 'agg' and x[3] == y[3] == 'Some' and t.get('args') and bytesish(E, t['args'][0]):
            r = streq(E, st, x[4][0], y[4][0])
            return [(I(1 - r[1]) if neg and r[0] == 'int' else ('not', r) if neg else r, st)]
        std = t['k'] == 'adt' and t['def'].split('::')[0] in ('core', 'std', 'alloc') or t['k'] == 'adt' and t['def'] == OPTION
        if std and x[0] == y[0] == 'agg' and x[1] == y[1] == 'adt' and x[2] == y[2] and x[3] != y[3]: r = FALSE
        else: r = TRUE if x == y else ('cmp', 'eq', *sorted((x, y), key=repr))
        return [((I(1 - r[1]) if r[0] == 'int' else ('not', r)) if neg else r, st)]
    return f

def deep(E, st, a):
    for _ in range(6):
        if a[0] in ('ref', 'elemref', 'guard', 'slot', 'addr'): a = E.load(st, a)
        else: break
    return a

def m_cmp(op):
    def f(E, ctx, st, args):
        x, y = deep(E, st, args[0]), deep(E, st, args[1])
        t = E.F.tys[ctx.atys[0]]
        while t['k'] == 'ref': t = E.F.tys[t['args'][0]]
        if t['s'].endswith('Level') or t['s'].endswith('LevelFilter'): return [(FALSE, st)]
        return [(mk_cmp(op, x, y), st)]
    return f

def m_len(E, ctx, st, args):
    return [(length(content(E, st, args[0])), st)]

def m_capacity(E, ctx, st, args):
    c = content(E, st, args[0])
    r = ('cap', c, E.fresh(st, ctx.stack, ctx.bb))
    E.add_lin(st, sub(r, length(c)))
    E.add_lin(st, sub(I(2**63 - 1), r))
    return [(r, st)]

def m_is_empty(E, ctx, st, args):
    return [(mk_eq(length(content(E, st, args[0])), I(0)), st)]

def m_vec_new(E, ctx, st, args):
    if args:
        st.ev('alloc', 'with_capacity', args[0], ctx.site()); alloc_ob(E, ctx, st, args[0], 'with_capacity')
    return [(EMPTY, st)]

def m_from_elem(E, ctx, st, args):
    st.ev('alloc', 'from_elem', args[1], ctx.site()); alloc_ob(E, ctx, st, args[1], 'vec![x; n]')
    return [(('rep', args[0], args[1]), st)]

def alloc_ob(E, ctx, st, n, what):
    if n[0] == 'int': return
    E.oblig.append(((ctx.b['path'], ctx.te.get('s', '')), 'alloc', (what, n), None, st.copy(), ctx.stack))

def m_push(E, ctx, st, args):
    c = E.load(st, args[0])
    E.save(st, args[0], cat(c, ('one', args[1])) if c[0] in ('cat', 'agg') or True else c)
    st.ev('push', args[1], ctx.site())
    return [(UNIT, st)]

def m_pop_front(E, ctx, st, args):
    """VecDeque::pop_front: like an iterator which owns the elements"""
    c = content(E, st, args[0])
    base, lo = (c[1], c[2]) if c[0] == 'sl' and c[3] == length(c[1]) else (c, I(0))
    if base[0] in ('undef', 'havoc', 'gone'): return None
    h = ('H', 'it', E.fresh(st, ctx.stack, ctx.bb)); st.mem[h] = ('iter', base, lo, 'val')
    res = []
    for v, s in m_next(E, ctx, st, [('ref', h, ())]):
        it = s.mem.pop(h)
        if it[2] != lo: E.save(s, args[0], ('sl', base, it[2], length(base)))
        res.append((v, s))
    return res

def m_vec_retain(E, ctx, st, args):
    """Vec::retain on a vector whose elements are known one by one"""
    c = content(E, st, args[0])
    if c == EMPTY: return [(UNIT, st)]
    if c[0] != 'cat' or len(c[1]) > 4 or any(p[0] != 'one' for p in c[1]): return None
    outs = [(st, ())]
    for p in c[1]:
        nxt = []
        for s0, kept in outs:
            h = ('H', 'el', E.fresh(s0, ctx.stack, ctx.bb)); s0.mem[h] = p[1]
            had = dict(s0.facts)
            for v, s1 in call_closure(E, ctx, s0, args[1], [('ref', h, ())]):
                x = s1.mem.pop(h, p[1])
                for b, s2 in fork2(E, s1, v):
                    new = tuple(sorted(((k, f) for k, f in s2.facts.items() if k not in had or had[k] != f), key=repr))
                    s2.ev('retain', bool(b), x, new, ctx.site())
                    nxt.append((s2, kept + ((('one', x),) if b else ())))
        outs = nxt
    res = []
    for s, kept in outs:
        E.save(s, args[0], ('cat', kept) if kept else EMPTY); res.append((UNIT, s))
    return res

def m_as_slice(E, ctx, st, args):
    """what an iterator over a vector has left"""
    it = deep(E, st, args[0])
    if it[0] != 'iter': return None
    return [(it[1] if it[2] == I(0) else ('sl', it[1], it[2], length(it[1])), st)]

def m_peekable(E, ctx, st, args): return [(args[0], st)] if args[0][0] == 'iter' or args[0][0] == 'agg' and args[0][2] in RANGES else None

def m_peek(E, ctx, st, args):
    it = deep(E, st, args[0])
    if it[0] != 'iter' and not (it[0] == 'agg' and it[2] in RANGES): return None
    h = ('H', 'it', E.fresh(st, ctx.stack, ctx.bb)); st.mem[h] = it
    res = []
    for v, s in m_next(E, ctx, st, [('ref', h, ())]):
        s.mem.pop(h)
        if v != NONE and v[0] == 'agg':
            q = ('H', 'pk', E.fresh(s, ctx.stack, ctx.bb)); s.mem[q] = v[4][0]
            v = some(('ref', q, ()))
        res.append((v, s))
    return res

def m_push_str(E, ctx, st, args):
    E.save(st, args[0], cat(E.load(st, args[0]), content(E, st, args[1])))
    return [(UNIT, st)]

def m_put_u8(E, ctx, st, args):
    E.save(st, args[0], cat(E.load(st, args[0]), ('one', args[1]))); return [(UNIT, st)]

def m_clear(E, ctx, st, args):
    E.save(st, args[0], EMPTY); return [(UNIT, st)]

def m_truncate(E, ctx, st, args):
    c = E.load(st, args[0])
    if is_text(E, ctx.atys[0]): boundary(E, ctx, st, 'truncate', c, (args[1],))
    if E.prove_ge0(st, sub(args[1], length(c))): return [(UNIT, st)]      # nothing to cut
    if args[1] == I(0): E.save(st, args[0], EMPTY)
    else: E.save(st, args[0], ('truncated', c, args[1]))
    return [(UNIT, st)]

def m_extend(E, ctx, st, args):
    """Extend::extend(&mut self, iter)"""
    it = args[1]
    if it[0] == 'ref': it = content(E, st, it)
    c = it[1] if it[0] == 'iter' and it[2] == I(0) else collected(E, ctx, st, it)
    E.save(st, args[0], cat(E.load(st, args[0]), content(E, st, c))); return [(UNIT, st)]

def m_slice(E, ctx, st, args):
    """Bytes::slice / IoBuf::slice / ByteString::slice"""
    c = content(E, st, args[0])
    r = range_of(E, args[1], c)
    if r is None: return None
    lo, hi = r
    if not need(E, ctx, st, 'slice', [sub(hi, lo), sub(length(c), hi)]): return []
    if is_text(E, ctx.atys[0]): boundary(E, ctx, st, 'slice', c, (lo, hi))
    return [(E.slice_of(c, lo, hi), st)]

def m_index(E, ctx, st, args):
    """Index::index: a view"""
    p = args[0]; c = content(E, st, p)
    r = range_of(E, args[1], c)
    if r is not None:
        lo, hi = r
        if not need(E, ctx, st, 'slice', [sub(hi, lo), sub(length(c), hi)]): return []
        if is_text(E, ctx.atys[0]): boundary(E, ctx, st, 'slice', c, (lo, hi))
        if lo == I(0) and hi == length(c): return [(p, st)]
        return [(E.slice_of(c, lo, hi), st)]
    t = E.F.tys[ctx.atys[1]]
    if t['k'] == 'uint':
        if not need(E, ctx, st, 'index', [sub(sub(length(c), args[1]), I(1))]): return []
        if p[0] == 'ref': return [(('ref', p[1], p[2] + (('i', args[1]),)), st)]
        return [(('addr', ('idx', c, args[1])), st)]
    E.oblige(st, ctx.b, ctx.te, 'index', ('other', args[1]), False, ctx.stack)
    return None

def m_get(E, ctx, st, args):
    c = content(E, st, args[0])
    t = E.F.tys[ctx.atys[1]]
    if t['k'] == 'uint':
        if is_int(args[1]) and c[0] in ('cat', 'agg') and is_int(length(c)):
            if args[1][1] >= length(c)[1]: return [(NONE, st)]
            return [(some(('addr', E.project(c, ('i', args[1])))), st)]
        v = ('getres', c, args[1])
        res = []
        for n, s in (('Some', st.copy()), ('None', st.copy())):
            key = ('discr', v, OPTION)
            s.facts[key] = int(n == 'Some')
            if on_discr(E, s, v, OPTION, s.facts[key]):
                res.append((some(('addr', ('idx', c, args[1]))) if n == 'Some' else NONE, s))
        return res
    r = range_of(E, args[1], c)
    if r is None: return None
    lo, hi = r
    cond = ('and', ('not', ('cmp', 'lt', hi, lo)), ('not', ('cmp', 'lt', length(c), hi)))
    return [(some(E.slice_of(c, lo, hi)) if b else NONE, s) for b, s in fork2(E, st, cond)]

def is_bytes_vec(E, ty):
    t = E.F.tys[ty]
    while t['k'] == 'ref': t = E.F.tys[t['args'][0]]
    return t['s'].endswith('Vec<u8>') or t['s'] in ('[u8]',)

def m_last(pop):
    """the last byte of some bytes, taken away or not"""
    def f(E, ctx, st, args):
        c = content(E, st, args[0])
        ps = c[4] if c[0] == 'agg' and c[1] == 'array' else tuple(p[1] for p in c[1]) if c[0] == 'cat' and all(p[0] == 'one' for p in c[1]) else () if c == EMPTY else None
        if pop and ps is not None and args[0][0] == 'ref':
            if not ps: return [(NONE, st)]
            E.save(st, args[0], cat(*[('one', p) for p in ps[:-1]]))
            return [(some(ps[-1]), st)]
        if not is_bytes_vec(E, ctx.atys[0]): return None
        n = length(c)
        res = []
        s = st.copy()
        if E.add_lin(s, sub(n, I(1))):
            x = ('idx', c, sub(n, I(1)))
            if pop: E.save(s, args[0], ('truncated', c, sub(n, I(1))))
            res.append((some(x if pop else ('addr', x)), s))
        s = st.copy()
        if E.add_lin(s, sub(I(0), n)): res.append((NONE, s))
        return res
    return f

def m_first(E, ctx, st, args):
    c = content(E, st, args[0])
    v = ('firstres', c)
    res = []
    for n in (1, 0):
        s = st.copy()
        if on_discr(E, s, v, OPTION, n): res.append((some(('addr', ('idx', c, I(0)))) if n else NONE, s))
    return res

def m_split_at(checked, text=False):
    def f(E, ctx, st, args):
        c = content(E, st, args[0]); n = deep(E, st, args[1])
        pair = lambda: ('agg', 'tuple', '', '', (E.slice_of(c, I(0), n), E.slice_of(c, n, length(c))))
        if text:
            if n == I(0) or n == length(c): return [(some(pair()) if checked else pair(), st)]
            if checked: return None                           # between two characters?
            if not need(E, ctx, st, 'split_at', [sub(length(c), n)]): return []
            boundary(E, ctx, st, 'split_at', c, (n,))
            return [(pair(), st)]
        if not checked:
            if not need(E, ctx, st, 'split_at', [sub(length(c), n)]): return []
            return [(pair(), st)]
        return [(NONE, s) if v else (some(pair()), s) for v, s in fork2(E, st, ('cmp', 'lt', length(c), n))]
    return f

def m_split_end(last):
    def f(E, ctx, st, args):
        c = content(E, st, args[0]); n = length(c); res = []
        for v, s in fork2(E, st, ('cmp', 'lt', I(0), n)):
            if not v: res.append((NONE, s)); continue
            i = sub(n, I(1)) if last else I(0)
            rest = E.slice_of(c, I(0), i) if last else E.slice_of(c, I(1), n)
            res.append((some(('agg', 'tuple', '', '', (('addr', ('idx', c, i)), rest))), s))
        return res
    return f

def m_split_to(E, ctx, st, args):
    c = E.load(st, args[0]); n = args[1]
    if not need(E, ctx, st, 'split_to', [sub(length(c), n)]): return []
    if is_text(E, ctx.atys[0]): boundary(E, ctx, st, 'split_to', c, (n,))
    E.save(st, args[0], dropn(c, n))
    return [(take(c, n), st)]

def take(c, n):
    return ('take', c, n) if n != I(0) else EMPTY
def dropn(c, n):
    if n == I(0): return c
    if c[0] == 'dropn': return ('dropn', c[1], add(c[2], n))
    return ('dropn', c, n)

def m_split_off(E, ctx, st, args):
    c = E.load(st, args[0]); n = args[1]
    if not need(E, ctx, st, 'split_off', [sub(length(c), n)]): return []
    if is_text(E, ctx.atys[0]): boundary(E, ctx, st, 'split_off', c, (n,))
    E.save(st, args[0], take(c, n))
    return [(dropn(c, n), st)]

def m_split(E, ctx, st, args):
    c = E.load(st, args[0]); E.save(st, args[0], EMPTY); return [(c, st)]

def m_advance(E, ctx, st, args):
    p = args[0]; v = E.load(st, p); n = args[1]
    for _ in range(3):
        if v[0] == 'ref': p = v; v = E.load(st, p)
        else: break
    if v[0] == 'agg' and v[2] == CURSOR:
        c = content(E, st, v[4][0]); pos = v[4][1]
        if not need(E, ctx, st, 'advance', [sub(length(c), add(pos, n))]): return []
        E.save(st, p, ('agg', 'adt', CURSOR, 'Cursor', (v[4][0], add(pos, n))))
        st.ev('cur.advance', n)
        return [(UNIT, st)]
    if not need(E, ctx, st, 'advance', [sub(length(v), n)]): return []
    E.save(st, p, dropn(v, n))
    return [(UNIT, st)]

def cursor(E, st, a):
    p = a; v = E.load(st, p)
    for _ in range(4):
        if v[0] == 'ref': p = v; v = E.load(st, p)
        else: break
    if v[0] == 'agg' and v[2] == CURSOR: return p, v[4][0], v[4][1]
    return None

def m_cursor_new(E, ctx, st, args):
    return [(('agg', 'adt', CURSOR, 'Cursor', (args[0], I(0))), st)]

def m_cursor_get_ref(E, ctx, st, args):
    c = cursor(E, st, args[0])
    if not c: return None
    p = c[0]
    if p[0] == 'ref': return [(('ref', p[1], p[2] + (('f', 0, None),)), st)]
    return [(('addr', c[1]), st)]

def m_cursor_position(E, ctx, st, args):
    c = cursor(E, st, args[0])
    return [(c[2], st)] if c else None

def m_cursor_set_position(E, ctx, st, args):
    c = cursor(E, st, args[0])
    if not c: return None
    E.save(st, c[0], ('agg', 'adt', CURSOR, 'Cursor', (c[1], args[1])))
    st.ev('cur.set', args[1])
    return [(UNIT, st)]

def m_has_remaining(E, ctx, st, args):
    c = cursor(E, st, args[0])
    if not c:
        v = E.load(st, args[0])
        return [(('not', mk_eq(length(v), I(0))), st)]
    return [(mk_cmp('Lt', c[2], length(content(E, st, c[1]))), st)]

def m_remaining(E, ctx, st, args):
    c = cursor(E, st, args[0])
    if not c: return [(length(E.load(st, args[0])), st)]
    return [(sub(length(content(E, st, c[1])), c[2]), st)]

def m_chunk(E, ctx, st, args):
    c = cursor(E, st, args[0])
    if not c: return [(args[0], st)]
    d = content(E, st, c[1])
    return [(('sl', d, c[2], length(d)), st)]

def m_buf_get(n):
    def f(E, ctx, st, args):
        c = cursor(E, st, args[0])
        if not c:
            v = E.load(st, args[0])
            if not need(E, ctx, st, 'get', [sub(length(v), I(n))]): return []
            E.save(st, args[0], dropn(v, I(n)))
            return [(('idx', v, I(0)), st)]
        p, inner, pos = c; d = content(E, st, inner)
        if not need(E, ctx, st, 'get', [sub(length(d), add(pos, I(n)))]): return []
        E.save(st, p, ('agg', 'adt', CURSOR, 'Cursor', (inner, add(pos, I(n)))))
        return [(('idx', d, pos) if n == 1 else ('idxn', d, pos, n), st)]
    return f

def m_copy_to_bytes(E, ctx, st, args):
    c = cursor(E, st, args[0])
    if not c: return None
    p, inner, pos = c; d = content(E, st, inner); n = args[1]
    if not need(E, ctx, st, 'copy_to_bytes', [sub(length(d), add(pos, n))]): return []
    E.save(st, p, ('agg', 'adt', CURSOR, 'Cursor', (inner, add(pos, n))))
    return [(E.slice_of(d, pos, add(pos, n)), st)]

def m_slice_mut(E, ctx, st, args):
    c = args[0]
    r = range_of(E, args[1], c)
    if r is None: return None
    if not need(E, ctx, st, 'slice_mut', [] if args[1][2].endswith('RangeFrom') else [sub(r[1], r[0])]): return []
    return [(('slicemut', c, r[0], args[1]), st)] if r[1] == length(c) else [(('slicemut', c, r[0]), st)]

def m_try_from(E, ctx, st, args):
    dst = E.F.tys[ctx.dty]
    tgt = E.F.tys[dst['args'][0]] if dst.get('args') else None
    src = E.F.tys[ctx.atys[0]]
    last = (tgt or {}).get('def', '').split('::')[-1]
    if tgt and tgt['k'] in ('uint', 'int') and src['k'] in ('uint', 'int'):
        lo, hi = ty_range(tgt['s']); sl, sh = ty_range(src['s'])
        v = args[0]
        if v[0] == 'int': return [(ok(v) if lo <= v[1] <= hi else err(('call', 'TryFromIntError', (v,), 0)), st)]
        if lo <= sl and sh <= hi: 
            # same width: never fails on this target
            return [(ok(v), st)]
        cond = ('not', ('cmp', 'lt', I(hi), v))
        return [(ok(v) if b else err(('call', 'TryFromIntError', (v,), 0)), s) for b, s in fork2(E, st, cond)]
    if last in ('ByteString', 'String') or (tgt and tgt['k'] == 'ref' and E.F.tys[tgt['args'][0]]['k'] == 'str'):
        return utf8(E, ctx, st, args)
    if tgt and tgt['k'] in ('param', 'alias'): return [(ok(args[0]), st)]
    return None

def utf8(E, ctx, st, args):
    c = content(E, st, args[0])
    return [(ok(c) if b else err(('call', 'Utf8Error', (c,), 0)), s) for b, s in fork2(E, st, ('pred', 'utf8', c))]

def m_utf8_lossy(E, ctx, st, args):
    c = content(E, st, args[0])
    return [(c if b else ('call', 'from_utf8_lossy', (c,), 0), s) for b, s in fork2(E, st, ('pred', 'utf8', c))]

def m_parse_int(E, ctx, st, args):
    """atoi_simd::parse, str::parse, from_str_radix: the whole text is a number or an error"""
    c = content(E, st, args[0])
    dst = E.F.tys[ctx.dty]
    num = ('num', c, E.F.tys_s(dst['args'][0]) if dst.get('args') else '?')
    return [(ok(num) if b else err(('call', 'ParseIntError', (c,), 0)), s) for b, s in fork2(E, st, ('pred', 'isnum', c, num[2]))]

def m_checked(E, ctx, st, path, args):
    a, b = args
    ty = E.F.tys_s(ctx.atys[0]); hi = ty_range(ty)[1]
    op = path.split('checked_')[-1]
    if op == 'mul':
        return [(some(E.arith('Mul', a, b)), st.copy()), (NONE, st)] if not (is_int(a) and is_int(b)) else [(some(I(a[1] * b[1])) if a[1] * b[1] <= hi else NONE, st)]
    v = ('chk', op, a, b, hi)
    r = sub(a, b) if op == 'sub' else add(a, b)
    res = []
    for n in (1, 0):
        s = st.copy()
        if r[0] == 'int':
            if (0 <= r[1] <= hi) != bool(n): continue
            res.append((some(r) if n else NONE, s)); continue
        if on_discr(E, s, v, OPTION, n): res.append((some(r) if n else NONE, s))
    return res

def m_arith(E, ctx, st, meth, args):
    a, b = [deep(E, st, x) for x in args]
    t = E.F.tys[ctx.atys[0]]
    if t['k'] not in ('uint', 'int', 'param', 'alias'):
        return [(('call', meth, (a, b), 0), st)]
    if meth == 'min':
        if is_int(a) and is_int(b): return [(I(min(a[1], b[1])), st)]
        r = ('minof', a, b)
        E.add_lin(st, sub(a, r)); E.add_lin(st, sub(b, r))
        return [(r, st)]
    if meth == 'max':
        if is_int(a) and is_int(b): return [(I(max(a[1], b[1])), st)]
        r = ('maxof', a, b)
        E.add_lin(st, sub(r, a)); E.add_lin(st, sub(r, b))
        return [(r, st)]
    if meth == 'saturating_sub':
        res = []
        for v, s in fork2(E, st, ('cmp', 'lt', a, b)): res.append((I(0) if v else sub(a, b), s))
        return res
    if meth == 'saturating_add':
        r = ('call', 'saturating_add', (a, b), 0)
        E.add_lin(st, sub(add(a, b), r))
        E.add_lin(st, sub(r, a)) ; E.add_lin(st, sub(r, b))
        return [(r, st)]
    return [(('call', meth, (a, b), 0), st)]

# ---- iteration
def m_into_iter(E, ctx, st, args):
    a = args[0]
    if a[0] == 'agg' and a[2] in RANGES: return [(a, st)]
    if a[0] in ('iter', 'mapiter', 'zipiter', 'enumiter', 'filtiter'): return [(a, st)]
    t = E.F.tys[ctx.atys[0]]
    byref = t['k'] == 'ref'
    tt = t
    while tt['k'] == 'ref': tt = E.F.tys[tt['args'][0]]
    last = tt.get('def', '').split('::')[-1]
    kind = 'map' if last in ('IndexMap', 'HashMap', 'BTreeMap') else 'seq'
    if last in ('Vec', 'IndexMap', 'HashMap', 'BTreeMap', 'VecDeque', 'Bytes', 'Option') or tt['k'] in ('slice', 'array'):
        c = content(E, st, a)
        if last == 'Option': return [(('call', 'into_iter', (c,), 0), st)]
        if byref and t.get('mut') and kind == 'seq':
            it = mut_iter(E, st, a)
            if it is not None: return [(it, st)]
        mode = ('ref' if byref else 'val') + ('map' if kind == 'map' else '')
        return [(('iter', c, I(0), mode), st)]
    if a[0] == 'ref' and byref: return [(a, st)]
    return [(a, st)]

def m_iter(E, ctx, st, args):
    t = E.F.tys[ctx.atys[0]]
    while t['k'] == 'ref': t = E.F.tys[t['args'][0]]
    last = t.get('def', '').split('::')[-1]
    mode = 'refmap' if last in ('IndexMap', 'HashMap', 'BTreeMap') else 'ref'
    return [(('iter', content(E, st, args[0]), I(0), mode), st)]

def mut_iter(E, st, a):
    """the elements of a sequence, each of which can be changed in place"""
    while a[0] == 'ref':
        v = E.load(st, a)
        if v[0] != 'ref': break
        a = v
    if a[0] != 'ref': return None
    return ('iter', content(E, st, a), I(0), 'mut', a)

def m_iter_mut(E, ctx, st, args):
    t = E.F.tys[ctx.atys[0]]
    while t['k'] == 'ref': t = E.F.tys[t['args'][0]]
    if t.get('def', '').split('::')[-1] in ('IndexMap', 'HashMap', 'BTreeMap'): return m_iter(E, ctx, st, args)
    it = mut_iter(E, st, args[0])
    return m_iter(E, ctx, st, args) if it is None else [(it, st)]

def m_bytes_iter(E, ctx, st, args):
    return [(('iter', content(E, st, args[0]), I(0), 'val'), st)]

def elem_of(E, st, it, pos):
    c, mode = it[1], it[3]
    if c[0] == 'upto': c = c[1]; it = it[:1] + (c,) + it[2:]
    v = built(E, st, it) if mode == 'val' else None
    if v is not None: return v
    if mode == 'mut': return ('ref', it[4][1], it[4][2] + (('i', pos),))
    if mode.endswith('map'):
        r = mode[0] == 'r'
        return agg_tuple(('elemref' if r else 'elem', c, pos, 'k'), ('elemref' if r else 'elem', c, pos, 'v'))
    if c[0] == 'cat' and is_int(pos) and all(p[0] == 'one' for p in c[1]) and pos[1] < len(c[1]):
        x = c[1][pos[1]][1]
        return ('addr', x) if mode == 'ref' else x
    if c[0] == 'agg' and c[1] == 'array' and is_int(pos) and pos[1] < len(c[4]):
        x = c[4][pos[1]]
        return ('addr', x) if mode == 'ref' else x
    return ('elemref', c, pos) if mode == 'ref' else ('elem', c, pos)

def built(E, st, it):
    """what any element of a sequence made from another one by a closure is,
    when it is a structure and there is one way to make it"""
    if it[0] != 'iter' or it[3] != 'val' or it[1][0] != 'mapped' or len(it[1][3]) != 1: return None
    v, fs = it[1][3][0]
    if v[0] != 'agg' or v[1] != 'adt' or not v[4] : return None
    for k, f in fs: st.facts.setdefault(k, f)
    return v

def m_next(E, ctx, st, args):
    p = args[0]; it = E.load(st, p)
    for _ in range(4):
        if it[0] == 'ref': p = it; it = E.load(st, p)
        else: break
    if it[0] == 'agg' and it[2] in RANGES and RANGES[it[2]] in ('r', 'ri'):
        lo, hi = it[4][:2]
        incl = RANGES[it[2]] == 'ri'
        cond = ('not', ('cmp', 'lt', hi, lo)) if incl else mk_cmp('Lt', lo, hi)
        res = []
        for b, s in fork2(E, st, cond):
            if b:
                E.save(s, p, it[:4] + ((add(lo, I(1)), hi) + it[4][2:],))
                res.append((some(lo), s))
            else: res.append((NONE, s))
        return res
    if it[0] == 'agg' and it[2] in RANGES and RANGES[it[2]] == 'f':
        lo = it[4][0]
        E.save(st, p, it[:4] + ((add(lo, I(1)),),))
        return [(some(lo), st)]
    if it[0] == 'call' and 'RangeInclusive::new' in it[1]:
        lo, hi = it[2]
        st2 = st.copy()
        E.save(st2, p, ('agg', 'adt', 'core::ops::range::RangeInclusive', 'RangeInclusive', (lo, hi)))
        return m_next(E, ctx, st2, [p])
    if it[0] == 'iter':
        c, pos = it[1], it[2]
        v = ('nextres', 0, c, pos)
        res = []
        for n in (1, 0):
            s = st.copy()
            key = ('discr', v, OPTION); f = s.facts.get(key)
            if isinstance(f, int) and f != n: continue
            s.facts[key] = n
            if not on_discr(E, s, v, OPTION, n): continue
            if n:
                E.save(s, p, ('iter', c, add(pos, I(1))) + it[3:])
                res.append((some(elem_of(E, s, it, pos)), s))
            else: res.append((NONE, s))
        return res
    if it[0] == 'mapiter':
        h = ('H', 'it', E.fresh(st, ctx.stack, ctx.bb)); st.mem[h] = it[1]
        res = []
        for v, s in m_next(E, ctx, st, [('ref', h, ())]):
            E.save(s, p, ('mapiter', s.mem[h], it[2]))
            if v == NONE: res.append((NONE, s)); continue
            for n, pl, s1 in split(E, s, v, OPTION):
                if n == 'None': res.append((NONE, s1)); continue
                res += [(some(y), s2) for y, s2 in call_closure(E, ctx, s1, it[2], [pl[0]])]
        return res
    if it[0] == 'enumiter':
        h = ('H', 'it', E.fresh(st, ctx.stack, ctx.bb)); st.mem[h] = it[1]
        res = []
        for v, s in m_next(E, ctx, st, [('ref', h, ())]):
            E.save(s, p, ('enumiter', s.mem[h], add(it[2], I(1))))
            if v == NONE: res.append((NONE, s)); continue
            for n, pl, s1 in split(E, s, v, OPTION):
                res.append((some(agg_tuple(it[2], pl[0])) if n == 'Some' else NONE, s1))
        return res
    lab = E.fresh(st, ctx.stack, ctx.bb)
    if p[0] == 'ref' and it[0] != 'agg': E.write(st, p[1], p[2], ('itafter', it if it[0] != 'itafter' else it[1]))
    return [(('call', 'Iterator::next', (it if it[0] != 'itafter' else it[1],), lab), st)]

def m_iter_map(E, ctx, st, args):
    return [(('mapiter', args[0], args[1]), st)]
def m_iter_filter(E, ctx, st, args):
    """Iterator::filter with a closure which only looks at the element"""
    it = args[0]
    if it[0] == 'ref': return None
    f = E.load(st, args[1]) if args[1][0] == 'ref' else args[1]
    if not (f[0] == 'agg' and f[1] == 'closure' or f[0] in ('fn', 'fnid')): return None
    x = ('anyelem', it); s0 = st.copy()
    h = ('H', 'it', E.fresh(s0, ctx.stack, ctx.bb)); s0.mem[h] = x
    terms = []
    n0 = len(s0.events())
    for v, s in call_closure(E, ctx, s0, args[1], [('ref', h, ())]):
        if any(e[0] not in ('closure', 'endclosure', 'branch', 'enter', 'loop') for e in s.events()[n0:]): return None
        if s.mem.get(h) != x: return None
        terms.append((v, tuple(sorted(((k, w) for k, w in s.facts.items() if k not in st.facts), key=repr))))
    return [(('filtiter', it, x, tuple(sorted(terms, key=repr))), st)]

def m_str_replace(E, ctx, st, args):
    c = content(E, st, args[0]); pat = args[1]
    f = E.load(st, pat) if pat[0] == 'ref' else pat
    if f[0] == 'agg' and f[1] == 'closure' or f[0] in ('fn', 'fnid'): p = pat_pred(E, ctx, st, 'replace', args[0], pat)
    else: p = deep(E, st, pat)
    return [(('call', 'str::replace', (c, p, content(E, st, args[2])), E.fresh(st, ctx.stack, ctx.bb)), st)]

def m_box_uninit(E, ctx, st, args):
    h = ('H', 'box', E.fresh(st, ctx.stack, ctx.bb)); st.mem[h] = UNDEF
    return [(('ref', h, ()), st)]

def m_box_into_vec(E, ctx, st, args):
    """vec![..]: what was stored into the fresh box"""
    if args[0][0] != 'ref': return None
    v = E.load(st, args[0])
    while v[0] == 'upd' and len(v[2]) == 1: v = v[2][0][1]
    if v in (UNDEF, MOVED): return None
    return [(v, st)]

def m_permute(n):
    """the elements of a sequence are put in another order"""
    def f(E, ctx, st, args):
        p = args[0]
        c = E.load(st, p)
        if len(args) > 1:
            s0 = st.copy(); xs = []
            for i in range(n):
                h = ('H', 'it', E.fresh(s0, ctx.stack, ctx.bb) + (i,)); s0.mem[h] = ('anyelem', c); xs.append(('ref', h, ()))
            n0 = len(s0.events())
            for v, s in call_closure(E, ctx, s0, args[1], xs):
                if any(e[0] not in ('closure', 'endclosure', 'branch', 'enter', 'loop', 'atomic') for e in s.events()[n0:]): return None
        if not (c[0] == 'cat' and (len(c[1]) == 0 or len(c[1]) == 1 and c[1][0][0] == 'one')): E.save(st, p, ('sorted', c))
        return [(UNIT, st)]
    return f

def m_iter_enumerate(E, ctx, st, args):
    return [(('enumiter', args[0], I(0)), st)]

def m_iter_any(all_):
    def f(E, ctx, st, args):
        it = E.load(st, args[0]) if args[0][0] == 'ref' else args[0]
        lab = E.fresh(st, ctx.stack, ctx.bb)
        clo = args[1]
        # the closure is run once on an arbitrary element: its result terms describe it
        s0 = st.copy()
        x = ('anyelem', it)
        terms = []
        for v, s in call_closure(E, ctx, s0, clo, [x]):
            fs = tuple(sorted(((k, w) for k, w in s.facts.items() if k not in st.facts and mentions(k, lambda t: t == x)), key=repr))
            terms.append((v, fs))
        term = ('pred', 'all' if all_ else 'any', it, tuple(sorted(terms, key=repr)))
        return [(term, st)]
    return f

def pat_pred(E, ctx, st, key, a, pat):
    """the condition 'some character of the text matches the pattern'"""
    c = content(E, st, a)
    f = E.load(st, pat) if pat[0] == 'ref' else pat
    if f[0] == 'agg' and f[1] == 'closure' or f[0] in ('fn', 'fnid'):
        it = ('call', 'str::chars', (c,), 0)
        return m_iter_any(False)(E, ctx, st, [it, pat])[0][0]
    if f[0] == 'str' or not E.F: return None
    return ('call', 'str::contains', (c, deep(E, st, pat)), E.fresh(st, ctx.stack, ctx.bb))

def m_str_contains(E, ctx, st, args):
    t = pat_pred(E, ctx, st, 'contains', args[0], args[1])
    return None if t is None or t[0] != 'pred' else [(t, st)]

def known_texts(st, c):
    """the texts a content may be, when a path has compared it (with or without
    regard to case)"""
    f = st.facts.get(('strval', c))
    if f and f[0] == 'is': return [f[1]]
    base = c[1] if c[0] in ('lower', 'upper') else c
    f = st.facts.get(('strval', base))
    if f and f[0] == 'is': return [f[1].lower() if c[0] == 'lower' else f[1].upper() if c[0] == 'upper' else f[1]]
    f = st.facts.get(('strval', ('lower', base)))
    if not f or f[0] != 'is' or len(f[1]) > 10 or not f[1].isascii(): return None
    if c[0] == 'lower': return [f[1]]
    if c[0] == 'upper': return [f[1].upper()]
    out = ['']
    for x in f[1]: out = [o + y for o in out for y in dict.fromkeys((x, x.upper()))]
    return out

def m_str_edge(start):
    def f(E, ctx, st, args):
        c = content(E, st, args[0])
        pat = deep(E, st, args[1])
        one = cstr(pat) if pat[0] in ('str', 'bytes') else None
        if one is None and pat[0] == 'int': one = chr(pat[1])
        many = (one,) if one is not None else None
        if many is None and pat[0] == 'agg' and pat[1] in ('array', 'tuple') and pat[4] and all(x[0] == 'int' for x in pat[4]): many = tuple(chr(x[1]) for x in pat[4])
        if many is None: return None
        s = cstr(c)
        texts = [s] if s is not None else known_texts(st, c)
        if not texts: return None
        r = {(x.startswith(many) if start else x.endswith(many)) for x in texts}
        return [(I(int(y)), st.copy() if len(r) > 1 else st) for y in sorted(r)]
    return f

def m_slice_prefix(strip):
    """[T]::starts_with, strip_prefix: the first bytes, one by one"""
    def f(E, ctx, st, args):
        c = content(E, st, args[0])
        p = const_bytes(content(E, st, args[1]))
        if p is None or len(p) > 8: return None
        s = st.copy()
        if not E.assume(s, mk_cmp('Le', I(len(p)), length(c)), True): return [(NONE if strip else FALSE, st)]
        for i, x in enumerate(p):
            if not E.assume(s, mk_cmp('Eq', E.project(c, ('i', I(i))), I(x)), True): return [(NONE if strip else FALSE, st)]
        return [(some(E.slice_of(c, I(len(p)), length(c))) if strip else TRUE, s), (NONE if strip else FALSE, st.copy())]
    return f

def m_str_find(key):
    def f(E, ctx, st, args):
        t = pat_pred(E, ctx, st, key, args[0], args[1])
        if t is None: return None
        lab = E.fresh(st, ctx.stack, ctx.bb)
        out = []
        for b, s in fork2(E, st, t):
            if b:
                p = ('call', key, (content(E, s, args[0]),), lab)
                E.add_lin(s, sub(sub(length(content(E, s, args[0])), p), I(1)))
                out.append((some(p), s))
            else: out.append((NONE, s))
        return out
    return f

def m_collect(E, ctx, st, args):
    it = args[0]
    c = collected(E, ctx, st, it)
    dst = E.F.tys[ctx.dty]
    if dst.get('def') == RESULT:
        lab = E.fresh(st, ctx.stack, ctx.bb)
        return [(ok(c), st.copy()), (err(('call', 'collect', (c,), lab)), st)]
    return [(c, st)]

def collected(E, ctx, st, it):
    if it[0] == 'iter' and it[2] == I(0): return it[1]
    if it[0] == 'mapiter':
        # one function after the other, on each item
        fns = [it[2]]; inner = it[1]
        while inner[0] == 'mapiter': fns.insert(0, inner[2]); inner = inner[1]
        base = collected(E, ctx, st, inner)
        s0 = st.copy()
        x = built(E, s0, inner) or ('anyelem', inner)
        res = []; vs = [(x, s0)]
        for f in fns: vs = [r for y, s in vs for r in call_closure(E, ctx, s, f, [y])]
        for v, s in vs:
            fs = tuple(sorted(((k, w) for k, w in s.facts.items() if k not in st.facts), key=repr))
            evs = tuple(s.events()[len(st.events()):])
            res.append((v, fs))
            if evs: st.ev('collectbody', evs)
        return ('mapped', base, x, tuple(sorted(res, key=repr)))
    if it[0] == 'filtiter': return ('filtered', collected(E, ctx, st, it[1]), it[2], it[3])
    if it[0] in ('mapped', 'filtered', 'cat', 'str', 'bytes', 'lower', 'upper'): return it   # a list, not an iterator
    return ('collect', it)

def m_from_iter(E, ctx, st, args):
    a = args[0]
    if a[0] == 'agg' and a[1] == 'array':
        dst = E.F.tys[ctx.dty]
        if dst.get('def', '').split('::')[-1] in ('IndexMap', 'HashMap', 'BTreeMap'):
            return [(('mapof', a[4]), st)]
        return [(a, st)]
    return [(collected(E, ctx, st, a), st)]

def m_for_each(E, ctx, st, args):
    it = args[0]
    if it[0] == 'iter' and it[3] == 'mut':
        x = ('anyelem', it[:4]); s0 = st.copy(); n0 = len(s0.events()); cases = []; pure = it[2] == I(0)
        h = ('H', 'it', E.fresh(s0, ctx.stack, ctx.bb)); s0.mem[h] = x
        for v, s in call_closure(E, ctx, s0, args[1], [('ref', h, ())]):
            if any(e[0] not in ('closure', 'endclosure', 'branch', 'enter', 'loop') for e in s.events()[n0:]): pure = False
            cases.append((s.mem.get(h, UNDEF), tuple(sorted(((k, w) for k, w in s.facts.items() if k not in st.facts), key=repr))))
        if pure:
            E.save(st, it[4], ('mapped', it[1], x, tuple(sorted(cases, key=repr))))
            return [(UNIT, st)]
        s = st.copy()
        E.save(s, it[4], ('havoc', it[1], E.fresh(s, ctx.stack, ctx.bb)))
        outs = [(UNIT, s)]
        for v, s1 in call_closure(E, ctx, s.copy(), args[1], [('ref', it[4][1], it[4][2] + (('i', ('call', 'any', (), E.fresh(s, ctx.stack, ctx.bb))),))]): outs.append((UNIT, s1))
        return outs
    outs = [(UNIT, st.copy())]
    s = st.copy(); s.ev('enter', ('for_each', ctx.bb))
    h = ('H', 'it', E.fresh(s, ctx.stack, ctx.bb)); s.mem[h] = it
    for x, s0 in any_of(E, ctx, s, it):
        for v, s1 in call_closure(E, ctx, s0, args[1], [x]): outs.append((UNIT, s1))
    return outs

def any_of(E, ctx, st, it):
    """any element an iterator gives"""
    if it[0] == 'mapiter': return [r for x, s in any_of(E, ctx, st, it[1]) for r in call_closure(E, ctx, s, it[2], [x])]
    v = built(E, st, it)
    return [(v if v is not None else ('anyelem', it), st)]

def m_iter_take(E, ctx, st, args):
    it = args[0]
    if it[0] == 'iter' and it[3] in ('val', 'ref'): return [(('iter', ('upto', it[1], add(it[2], args[1])), it[2], it[3]), st)]
    return None

def m_swapless_index_insert(E, ctx, st, args):
    """IndexMap::insert"""
    m = E.load(st, args[0])
    if m[0] == 'mapof' and known_keys(E, st, m, args[1]) and any(p[4][0] == args[1] for p in m[1]):
        old = [p[4][1] for p in m[1] if p[4][0] == args[1]][0]
        E.save(st, args[0], ('mapof', tuple(agg_tuple(args[1], args[2]) if p[4][0] == args[1] else p for p in m[1])))
        st.ev('mapinsert', args[1], args[2])
        return [(some(old), st)]
    if m == EMPTY or m[0] == 'mapof': E.save(st, args[0], ('mapof', (m[1] if m[0] == 'mapof' else ()) + (agg_tuple(args[1], args[2]),)))
    else: E.save(st, args[0], ('mapins', m, args[1], args[2]))
    st.ev('mapinsert', args[1], args[2])
    lab = E.fresh(st, ctx.stack, ctx.bb)
    return [(('call', 'IndexMap::insert', (m, args[1]), lab), st)]

def known_keys(E, st, m, k):
    """do the keys tell by themselves whether they are equal?"""
    known = lambda x: x[0] in ('int', 'bytes', 'str') or x[0] == 'agg' and all(known(y) for y in x[4])
    return known(k) and all(p[0] == 'agg' and len(p[4]) == 2 and known(p[4][0]) for p in m[1])

def m_index_remove(how):
    def f(E, ctx, st, args):
        m = E.load(st, args[0]); k = args[1]
        while k[0] in ('ref', 'addr'):
            k = E.load(st, k) if k[0] == 'ref' else k[1]
        if m == EMPTY: return [(NONE, st)]
        if m[0] != 'mapof' or not known_keys(E, st, m, k): return None
        at = [n for n, p in enumerate(m[1]) if p[4][0] == k]
        if not at: return [(NONE, st)]
        ps = list(m[1]); n = at[-1]; old = ps[n][4][1]
        if how == 'swap': ps[n] = ps[-1]; ps.pop()
        else: ps.pop(n)
        E.save(st, args[0], ('mapof', tuple(ps)))
        return [(some(old), st)]
    return f

# ---- formatting
def displayed(E, ctx, st, ty, v):
    """text of a value whose Display is written in this crate: the pieces it writes, in their order"""
    t = E.F.tys[ty]
    while t['k'] == 'ref':
        if v[0] == 'ref':
            w = E.load(st, v)
            if w[0] in ('ref', 'addr'): v = w
        elif v[0] == 'addr' and v[1][0] in ('ref', 'addr'): v = v[1]
        t = E.F.tys[t['args'][0]]
    if t['k'] == 'char':
        c = content(E, st, deep(E, st, v))
        return [(('bytes', chr(c[1]).encode().hex()), st)] if c[0] == 'int' and not 0xd800 <= c[1] < 0xe000 and 0 <= c[1] <= 0x10ffff else None
    bid = E.F.displays.get(t.get('id')) if t['k'] == 'adt' else None
    if bid is None or bid in ctx.stack or len(ctx.stack) > 40: return None
    s0 = st.copy()
    if v[0] not in ('ref', 'addr'): v = ('addr', v)
    h = ('H', 'fmt', E.fresh(s0, ctx.stack, ctx.bb)); s0.mem[h] = ('bytes', '')
    res = []
    for r, s in E.inline(ctx, s0, bid, [v, ('ref', h, ())]):
        for n, p, s2 in split(E, s, r, RESULT):
            if n == 'Ok': res.append((s2.mem[h], s2))
    return res

def m_fmt_write(E, ctx, st, args):
    """Formatter::write_str, write_char, pad"""
    if args[0][0] != 'ref' or args[0][1][:2] != ('H', 'fmt'): return None
    v = E.load(st, args[0])
    E.save(st, args[0], cat(v, disp(content(E, st, args[1]))))
    return [(ok(UNIT), st)]

def m_disp_fmt(E, ctx, st, args):
    """Display::fmt of a value, into a formatter"""
    if len(args) < 2 or args[1][0] != 'ref' or args[1][1][:2] != ('H', 'fmt'): return None
    r = displayed(E, ctx, st, ctx.atys[0], args[0])
    if r is None: r = [(disp(content(E, st, deep(E, st, args[0]))), st)]
    out = []
    for t, s in r:
        E.save(s, args[1], cat(E.load(s, args[1]), t)); out.append((ok(UNIT), s))
    return out

def m_fmt_arg(kind):
    def f(E, ctx, st, args):
        if kind == 'display':
            r = displayed(E, ctx, st, ctx.atys[0], args[0])
            if r is not None: return [(('fmtarg', kind, t), s) for t, s in r]
        return [(('fmtarg', kind, content(E, st, deep(E, st, args[0]))), st)]
    return f

def m_arguments_new(E, ctx, st, args):
    tpl = content(E, st, args[0])
    arr = content(E, st, args[1]) if len(args) > 1 else ('agg', 'array', '', '', ())
    items = arr[4] if arr[0] == 'agg' else (arr,)
    return [(('fmtargs', tpl, items), st)]

def m_arguments_str(E, ctx, st, args):
    return [(('fmtargs', content(E, st, args[0]), ()), st)]

def fmt_content(t):
    """content of a formatted text, as pieces"""
    if t[0] == 'fmtargs':
        tpl = t[1]; items = list(t[2])
        if not items:
            return t[1]
        parts = decode_template(tpl, items)
        return cat(*parts) if parts is not None else ('fmt', tpl, tuple(items))
    return ('fmt', t)

def decode_template(tpl, items):
    b = const_bytes(tpl)
    if b is None: return None
    # encoding of core::fmt::Arguments templates: see rustc_ast_lowering/format.rs
    parts = []; i = 0; ai = 0
    try:
        while i < len(b):
            c = b[i]
            if c == 0: break
            if c < 0x80:
                parts.append(('bytes', b[i+1:i+1+c].hex())); i += 1 + c
            elif c == 0x80:
                n = b[i+1] | b[i+2] << 8
                parts.append(('bytes', b[i+3:i+3+n].hex())); i += 3 + n
            else:
                i += 1; opts = c & 0x3f; spec = False
                if c & 1: i += 4; spec = True      # flags
                if c & 2: i += 2; spec = '+pad'     # width
                if c & 4: i += 2; spec = '+cut'     # precision
                if c & 8:
                    ai = b[i] | b[i+1] << 8; i += 2
                if ai >= len(items): return None
                it = items[ai]; ai += 1
                if it[0] == 'fmtarg':
                    parts.append(('text', it[1] + (spec if isinstance(spec, str) else '+spec' if spec else ''), it[2]) if it[1] != 'display' or spec else disp(it[2]))
                else: parts.append(('text', '?', it))
        return parts
    except IndexError:
        return None

def disp(v):
    if v[0] in ('str', 'bytes', 'cat', 'lower', 'upper', 'text', 'dec'): return v
    return ('dec', v)

def m_format(E, ctx, st, args):
    return [(fmt_content(args[0]), st)]

def m_to_string(E, ctx, st, args):
    t = E.F.tys[ctx.atys[0]]
    while t['k'] == 'ref': t = E.F.tys[t['args'][0]]
    c = content(E, st, args[0])
    if t['k'] == 'str' or t.get('def', '').split('::')[-1] in ('String', 'ByteString', 'Cow'): return [(c, st)]
    r = displayed(E, ctx, st, ctx.atys[0], args[0])
    if r is not None: return r
    return [(('dec', c), st)]

def m_write_fmt(E, ctx, st, args):
    """io::Write / fmt::Write::write_fmt"""
    t = E.F.tys[ctx.atys[0]]
    f = fmt_content(args[1])
    c = cursor(E, st, args[0])
    if c:
        p, inner, pos = c
        data = content(E, st, inner) if inner[0] == 'ref' else inner
        nd = ('ovw', data, pos, f)
        cap_known = data[0] == 'rep'
        E.save(st, p, ('agg', 'adt', CURSOR, 'Cursor', (nd, add(pos, length(f)))))
        lab = E.fresh(st, ctx.stack, ctx.bb)
        # Vec backed cursors grow: the write cannot fail, and the length covers what is written
        E.add_lin(st, sub(length(nd), add(pos, length(f))))
        return [(ok(UNIT), st)]
    v = E.load(st, args[0])
    if args[0][0] == 'ref' and args[0][1][:2] == ('H', 'fmt'):
        E.save(st, args[0], cat(v, f))
        return [(ok(UNIT), st)]
    tt = t
    while tt['k'] == 'ref': tt = E.F.tys[tt['args'][0]]
    if tt.get('def', '').split('::')[-1] in ('Vec', 'String', 'BytesMut') and v[0] != 'ref':
        E.save(st, args[0], cat(v, f))
        return [(ok(UNIT), st)]
    return None

# ---- scc maps
def smap(name):
    def f(E, ctx, st, args):
        m = map_of(E, st, args[0]); lab = E.fresh(st, ctx.stack, ctx.bb)
        rest = [content(E, st, a) if a[0] in ('ref',) and not is_closure(E, st, a) else a for a in args[1:]]
        return SMAP[name](E, ctx, st, m, rest, lab)
    return f

def is_closure(E, st, a):
    v = E.load(st, a) if a[0] == 'ref' else a
    return v[0] == 'agg' and v[1] == 'closure'

def kept_but(E, ctx, st, m, a, lab):
    """the one key which the condition of retain does not keep"""
    if len(a) != 1 or not is_closure(E, st, a[0]): return None
    s = st.copy()
    body = E.F.bodies[a[0][2] if a[0][0] == 'agg' else E.load(s, a[0])[2]]
    if body['argc'] != 3: return None
    k = ('anykey', m, lab); n = len(s.events())
    rs = call_closure(E, ctx, s, a[0], [('addr', k), ('slot', m, k, lab)])
    if len(rs) != 1 or any(e[0] not in ('closure', 'endclosure') for e in rs[0][1].events()[n:]): return None
    v = rs[0][0]
    if v[0] != 'not' or v[1][:2] != ('cmp', 'eq'): return None
    x, y = v[1][2:]
    if y == k: x, y = y, x
    return y if x == k and not mentions(y, lambda t: t == k or t[0] == 'slot') else None

def s_insert(E, ctx, st, m, a, lab):
    st.ev('map.insert_new', m, a[0], a[1], lab, ctx.site())
    return [(('insres', m, a[0], a[1], lab), st)]

def s_upsert(E, ctx, st, m, a, lab):
    st.ev('map.write', m, a[0], a[1], ('upsert', lab), ctx.site())
    return [(('call', 'upsert', (m, a[0]), lab), st)]

def s_remove(E, ctx, st, m, a, lab):
    st.ev('map.remove', m, a[0], ('key', lab), ctx.site())
    return [(('call', 'remove', (m, a[0]), lab), st)]

def s_remove_if(E, ctx, st, m, a, lab):
    res = []
    slot = ('slot', m, a[0], lab)
    if is_closure(E, st, a[1]):
        s0 = st.copy(); n0 = len(s0.events())
        rs = call_closure(E, ctx, s0, a[1], [slot])
        if rs and all(v == I(1) and all(e[0] in ('closure', 'endclosure') for e in s.events()[n0:]) for v, s in rs): return s_remove(E, ctx, st, m, a[:1], lab)
        if rs and all(v == I(1) for v, s in rs):
            # removed whatever it is, and something is done to it first
            for v, s in rs:
                s.ev('map.remove', m, a[0], ('key', lab), ctx.site())
                res.append((some(agg_tuple(a[0], ('stored', m, a[0], lab))), s))
            st.ev('map.remove', m, a[0], ('key', lab), ctx.site())
            st.facts[('absent', m, a[0], lab)] = 1
            res.append((NONE, st))
            return res
    s0 = st.copy(); s0.ev('map.read', m, a[0], lab, ctx.site()); st.ev('map.read', m, a[0], lab, ctx.site())
    for v, s in call_closure(E, ctx, s0, a[1], [slot]):
        for b, s2 in fork2(E, s, boolterm(v)):
            if b:
                s2.ev('map.remove', m, a[0], ('if', slot, lab), ctx.site())
            res.append((('call', 'remove_if', (m, a[0], I(int(b))), lab) if not b else some(agg_tuple(a[0], ('stored', m, a[0], lab))), s2))
    st.facts[('absent', m, a[0], lab)] = 1
    res.append((NONE, st))
    return res

def s_read(E, ctx, st, m, a, lab):
    res = []
    st.ev('map.read', m, a[0], lab, ctx.site())
    s0 = st.copy(); s0.facts[('present', m, a[0], lab)] = 1
    for v, s in call_closure(E, ctx, s0, a[1], [('addr', a[0]), ('slot', m, a[0], lab)]): res.append((some(v), s))
    st.facts[('absent', m, a[0], lab)] = 1
    res.append((NONE, st))
    return res

def s_update(E, ctx, st, m, a, lab):
    res = []
    s0 = st.copy(); s0.facts[('present', m, a[0], lab)] = 1
    s0.ev('map.lock', m, a[0], lab, ctx.site())
    for v, s in call_closure(E, ctx, s0, a[1], [('addr', a[0]), ('slot', m, a[0], lab)]): res.append((some(v), s))
    st.facts[('absent', m, a[0], lab)] = 1
    res.append((NONE, st))
    return res

def s_get(E, ctx, st, m, a, lab):
    st.ev('map.lock', m, a[0], lab, ctx.site())
    return [(('getentry', m, a[0], lab), st)]

def s_contains(E, ctx, st, m, a, lab):
    st.ev('map.read', m, a[0], lab, ctx.site())
    return [(('pred', 'contains', m, a[0], lab), st)]

def s_bulk(name):
    def f(E, ctx, st, m, a, lab):
        if name == 'retain':
            k = kept_but(E, ctx, st, m, a, lab)
            if k is not None:
                # all but one key are kept: the removal of that key
                st.ev('map.remove', m, k, ('key', lab), ctx.site())
                return [(UNIT, st)]
        st.ev('map.bulk', name, m, ctx.site(), lab)
        res = [(UNIT if name in ('scan', 'clear', 'retain') else ('call', name, (m,), lab), st.copy())]
        for c in a:
            if is_closure(E, st, c):
                s = st.copy(); s.ev('enter', ('bulk', name))
                body = E.F.bodies[c[2] if c[0] == 'agg' else E.load(st, c)[2]]
                n = body['argc'] - 1
                k = ('anykey', m, lab)
                fa = [('addr', k), ('slot', m, k, lab)] if n == 2 else [('slot', m, k, lab)]
                for v, s1 in call_closure(E, ctx, s, c, fa):
                    s1.ev('bulkret', name, m, v, lab)
                    # after any number of rounds
                    res.append((UNIT, s1))
        return res
    return f

def s_len(E, ctx, st, m, a, lab):
    return [(('call', 'HashMap::len', (m,), lab), st)]

SMAP = {'insert': s_insert, 'upsert': s_upsert, 'remove': s_remove, 'remove_if': s_remove_if, 'read': s_read, 'update': s_update, 'get': s_get,
        'contains': s_contains, 'scan': s_bulk('scan'), 'retain': s_bulk('retain'), 'clear': s_bulk('clear'), 'prune': s_bulk('prune'), 'any': s_bulk('any'),
        'len': s_len, 'is_empty': s_len, 'iter_sync': s_bulk('iter'), 'iter_mut_sync': s_bulk('iter_mut')}

def smap_async(name):
    base = smap(name)
    def f(E, ctx, st, args):
        # these never wait but for the bucket lock: evaluated at the call, the future is ready
        return [(('val', v), s) for v, s in base(E, ctx, st, args)]
    return f

def m_scc_hashmap(name, async_):
    def f(E, ctx, st, args):
        if not ctx.fn['path'].startswith('scc::'): 
            return m_std_map(E, ctx, st, name, args)
        if name == 'entry':
            if async_:
                lab = E.fresh(st, ctx.stack, ctx.bb)
                return [(('future', 'entry_async', tuple(args), lab), st)]
            return m_entry(E, ctx, st, args)
        return (smap_async(name) if async_ else smap(name))(E, ctx, st, args)
    return f

def m_std_map(E, ctx, st, name, args):
    return None

def m_occ_insert(E, ctx, st, args):
    o = occ_parts(E, st, args[0])
    if not o: return None
    m, k, lab = o
    st.ev('map.write', m, k, args[1], ('occ', lab), ctx.site())
    st.mem[('*', ('slot', m, k, lab))] = args[1]
    return [(('stored', m, k, lab), st)]

def m_occ_get(E, ctx, st, args):
    o = occ_parts(E, st, args[0])
    return [(('slot',) + o, st)] if o else None

def m_occ_remove(E, ctx, st, args):
    o = occ_parts(E, st, args[0])
    if not o: return None
    m, k, lab = o
    st.ev('map.remove', m, k, ('occ', lab), ctx.site())
    v = ('stored', m, k, lab)
    meth = short(ctx.fn['path']).split('::')[-1]
    return [(agg_tuple(k, v) if meth == 'remove_entry' else v, st)]

def m_vac_insert(E, ctx, st, args):
    v = args[0]
    if v[0] == 'fld' and v[1][0] == 'entry':
        _, m, k, lab = v[1]
        st.ev('map.write', m, k, args[1], ('vac', lab), ctx.site())
        st.mem[('*', ('slot', m, k, lab))] = args[1]
        return [(('occ', m, k, lab), st)]
    return None

def m_entry_or_insert(with_):
    def f(E, ctx, st, args):
        e = args[0]
        if e[0] != 'entry': return None
        m, k, lab = e[1:]
        res = []
        for n, p, s in split(E, st, e, 'scc::hash_map::Entry'):
            if n == 'Occupied': res.append((('occ', m, k, lab), s))
            else:
                vs = [(args[1], s)] if not with_ else call_closure(E, ctx, s, args[1], [])
                for v, s2 in vs:
                    s2.ev('map.write', m, k, v, ('vac', lab), ctx.site())
                    s2.mem[('*', ('slot', m, k, lab))] = v
                    res.append((('occ', m, k, lab), s2))
        return res
    return f

def m_entry_and_modify(E, ctx, st, args):
    e = args[0]
    if e[0] != 'entry': return None
    m, k, lab = e[1:]
    res = []
    for n, p, s in split(E, st, e, 'scc::hash_map::Entry'):
        if n == 'Occupied':
            for v, s2 in call_closure(E, ctx, s, args[1], [('slot', m, k, lab)]): res.append((e, s2))
        else: res.append((e, s))
    return res

def m_entry_insert(E, ctx, st, args):
    e = args[0]
    if e[0] != 'entry': return None
    m, k, lab = e[1:]
    st.ev('map.write', m, k, args[1], ('entry', lab), ctx.site())
    return [(('occ', m, k, lab), st)]

# ---- tasks and channels
def m_spawn(kind):
    def f(E, ctx, st, args):
        lab = E.fresh(st, ctx.stack, ctx.bb)
        fut = args[0]
        s = st.copy()
        E.deferred.append((kind, ctx.site(), fut, s, lab, ctx.stack))
        st.ev('spawn', kind, fut, lab, ctx.site())
        return [(('task', kind, lab), st)]
    return f

def m_channel(kind):
    def f(E, ctx, st, args):
        lab = E.fresh(st, ctx.stack, ctx.bb)
        st.ev('channel', kind, lab)
        return [(agg_tuple(('tx', kind, lab), ('rx', kind, lab)), st)]
    return f

def m_send(E, ctx, st, args):
    ch = sink_of(E, st, args[0])
    lab = E.fresh(st, ctx.stack, ctx.bb)
    if ch[0] not in ('tx',) and not ctx.fn['path'].startswith(('local_sync', 'tokio', 'std::sync', 'flume', 'futures')): return None
    if ctx.fn['path'].find('bounded::') >= 0 and ctx.fn['path'].find('unbounded') < 0:
        return [(('future', 'send', tuple(args), lab), st)]
    r = ('sendres', ch, args[1], lab)
    st.ev('send', ch, args[1], r, ctx.site())
    return [(r, st)]

def fut_send(E, ctx, st, args, lab, fut):
    ch = sink_of(E, st, args[0])
    r = ('sendres', ch, args[1], lab)
    st.ev('send', ch, args[1], r, ctx.site())
    return [(r, st)]
FUT['send'] = fut_send

def m_recv(E, ctx, st, args):
    lab = E.fresh(st, ctx.stack, ctx.bb)
    return [(('future', 'recv', tuple(args), lab), st)]

def m_try_recv(E, ctx, st, args):
    """a message which is already there, or none"""
    ch = sink_of(E, st, args[0])
    out = ('recvres', ch, E.fresh(st, ctx.stack, ctx.bb))
    s2 = st.copy()
    s2.facts[('discr', out, OPTION)] = 1
    s2.ev('recv', ch, out, ctx.site())
    return [(ok(('fld', out, 'Some', 0)), s2), (err(('call', 'TryRecvError', (out,))), st)]

def m_block_on(E, ctx, st, args):
    res = []
    for v, s in poll(E, ctx, st, args[-1], None): res.append((v, s))
    return res

def m_poll(E, ctx, st, args):
    return [(enum(POLL, 'Ready', v), s) for v, s in poll(E, ctx, st, args[0], None)]

def m_poll_fn(E, ctx, st, args): return [(('pollfn', args[0]), st)]

def m_unwrap(adt, good, kind):
    def f(E, ctx, st, args): return unwrap_like(E, ctx, st, args[0], adt, good, kind)
    return f

def m_future(meth):
    def f(E, ctx, st, args):
        lab = E.fresh(st, ctx.stack, ctx.bb)
        # by-value buffers are kept as they are at the call
        a = tuple(args)
        return [(('future', meth, a, lab), st)]
    return f

def m_now(E, ctx, st, args):
    lab = E.fresh(st, ctx.stack, ctx.bb)
    r = ('now', short(ctx.fn['path']), lab)
    st.ev('clock', short(ctx.fn['path']), r, ctx.site())
    return [(r, st)]

def m_elapsed(E, ctx, st, args):
    """the time since an instant: reads the clock"""
    n = 'Instant::recent' if 'recent' in ctx.fn['path'] else 'Instant::now'
    r = ('now', n, E.fresh(st, ctx.stack, ctx.bb))
    st.ev('clock', n, r, ctx.site())
    return [(('call', 'Instant::duration_since', (r, deep(E, st, args[0])), 0), st)]

def m_instant_add(E, ctx, st, args):
    a, b = args
    t = E.F.tys[ctx.atys[0]]
    r = ('plus', a, b)
    if 'Instant' in t['s'] or 'Duration' in t['s'] or 'SystemTime' in t['s']:
        E.oblige(st, ctx.b, ctx.te, 'clock-add', ('dur', b), dur_bounded(E, st, b), ctx.stack)
        return [(r, st)]
    if t['k'] in ('uint', 'int'): return [(add(a, b), st)]
    if 'String' in t['s']: return [(cat(a, content(E, st, b)), st)]
    return None

def m_add_assign(E, ctx, st, args):
    t = E.F.tys[ctx.atys[0]]
    if 'String' not in t['s']: return None
    return m_push_str(E, ctx, st, args)

def m_dur_new(E, ctx, st, args):
    if args[1] != I(0): return None
    return [(('dur', 'secs', args[0]), st)]

MAXSECS = 3_300_000_000
PER_SEC = {'secs': 1, 'millis': 10**3, 'micros': 10**6, 'nanos': 10**9}
def dur_secs(t):
    """upper estimate in seconds of a constant duration term"""
    if t[0] == 'dur' and is_int(t[2]):
        return t[2][1] * {'secs': 1, 'millis': 1e-3, 'micros': 1e-6, 'nanos': 1e-9}[t[1]]
    if t[0] == 'agg' and t[2].endswith('Duration') and t[4] and t[4][0][0] == 'int': return t[4][0][1]
    if t[0] == 'constdef': return None
    return None

def dur_bounded(E, st, b):
    if b[0] == 'conv': b = b[1]
    s = dur_secs(b)
    if s is not None: return s <= MAXSECS
    if b[0] == 'dur':
        k = {'secs': 1, 'millis': 1000, 'micros': 10**6, 'nanos': 10**9}[b[1]]
        if E.prove_ge0(st, sub(I(MAXSECS * k), b[2])): return True
        if b[1] == 'nanos': return True
        # a bound on the same number taken in another unit
        n = b[2]
        while n[0] == 'ranged': n = n[1]
        if n[0] == 'bin' and n[1] == 'Div' and is_int(n[3]):
            for u in PER_SEC:
                if PER_SEC[u] == k * n[3][1] and dur_bounded(E, st, ('dur', u, n[2])): return True
        c, m = lin_of(n)
        if c == 0 and len(m) == 1:
            (x, q), = m.items()
            for u in PER_SEC:
                o = ('dur', u, x)
                if o != b and q * PER_SEC[u] == k and any(o in t for t in st.facts if t[0] == 'cmp') and dur_bounded(E, st, o): return True
    # comparisons of the duration itself with a constant
    for t, f in st.facts.items():
        if t[0] == 'cmp' and t[1] == 'lt' and isinstance(f, int):
            x, y = t[2], t[3]
            if f == 0 and y == b and (dur_secs(x) or 0) and dur_secs(x) <= MAXSECS: pass
            # not (MAX < b)
            if f == 0 and y == b and dur_secs(x) is not None and dur_secs(x) <= MAXSECS: return True
            if f == 1 and x == b and dur_secs(y) is not None and dur_secs(y) <= MAXSECS: return True
    return False

def m_duration(unit):
    def f(E, ctx, st, args): return [(('dur', unit, args[0]), st)]
    return f

def m_div_ceil(E, ctx, st, args):
    if args[1][0] != 'int' or args[1][1] <= 0: return None
    if args[0][0] == 'int': return [(I(-(-args[0][1] // args[1][1])), st)]
    return [(('bin', 'DivCeil', args[0], args[1]), st)]

def m_ticks(name):
    def f(E, ctx, st, args): return [(('call', name, tuple(deep(E, st, a) for a in args), 0), st)]
    return f

def m_dur_as(unit):
    def f(E, ctx, st, args):
        v = deep(E, st, args[0])
        if v[0] == 'dur' and v[1] == unit == 'secs': return [(v[2], st)]
        if v[0] == 'dur':
            a, b = PER_SEC[unit], PER_SEC[v[1]]
            if is_int(v[2]): return [(I(v[2][1] * a // b), st)]
            hi = 2**64 - 1
            if a >= b:
                if dur_bounded(E, st, v): hi = min(hi, MAXSECS * a)
                elif a > b: hi *= a // b
                return [(('ranged', add(I(0), v[2], a // b) if a > b else v[2], hi), st)]
            return [(('ranged', ('bin', 'Div', v[2], I(b // a)), hi), st)]
        return [(('call', 'as_' + unit, (v,), 0), st)]
    return f

def m_level_le(E, ctx, st, args): return [(FALSE, st)]

def m_checksum(E, ctx, st, args):
    return [(('crc', args[0] if args[0][0] != 'ref' else E.load(st, args[0]), content(E, st, args[1])), st)]

def m_digest(E, ctx, st, args):
    return [(('digest', args[0] if args[0][0] != 'ref' else E.load(st, args[0]), EMPTY), st)]
def m_digest_update(E, ctx, st, args):
    d = E.load(st, args[0])
    if d[0] != 'digest': return None
    E.save(st, args[0], ('digest', d[1], cat(d[2], content(E, st, args[1]))))
    return [(UNIT, st)]
def m_digest_finalize(E, ctx, st, args):
    d = args[0]
    if d[0] == 'ref': d = E.load(st, d)
    return [(('crc', d[1], d[2]), st)] if d[0] == 'digest' else None

def m_range_incl(E, ctx, st, args):
    return [(('agg', 'adt', 'core::ops::range::RangeInclusive', 'RangeInclusive', (args[0], args[1])), st)]

def m_contains_range(E, ctx, st, args):
    r = deep(E, st, args[0]); x = deep(E, st, args[1])
    if r[0] == 'agg' and RANGES.get(r[2]) == 'r':
        return [(('and', ('not', ('cmp', 'lt', x, r[4][0])), mk_cmp('Lt', x, r[4][1])), st)]
    if r[0] == 'agg' and RANGES.get(r[2]) == 'ri':
        return [(('and', ('not', ('cmp', 'lt', x, r[4][0])), ('not', ('cmp', 'lt', r[4][1], x))), st)]
    return None

def m_range_empty(E, ctx, st, args):
    r = deep(E, st, args[0])
    if r[0] == 'agg' and RANGES.get(r[2]) == 'r': return [(('not', ('cmp', 'lt', r[4][0], r[4][1])), st)]
    if r[0] == 'agg' and RANGES.get(r[2]) == 'ri': return [(('cmp', 'lt', r[4][1], r[4][0]), st)]
    return None

def m_iter_len(E, ctx, st, args):
    """how many items an iterator has left"""
    r = deep(E, st, args[0])
    if r[0] == 'agg' and RANGES.get(r[2]) == 'r':
        a, b = r[4]
        if E.prove_ge0(st, sub(b, a)): return [(sub(b, a), st)]
        return [(I(0) if v else sub(b, a), s) for v, s in fork2(E, st, ('cmp', 'lt', b, a))]
    while r[0] in ('mapiter', 'enumiter'): r = r[1]
    if r[0] == 'iter' and isinstance(r[1], tuple): return [(sub(length(r[1]), r[2]), st)]
    return None

def m_size_hint_noop(E, ctx, st, args): return [(UNIT, st)]

def m_to_vec_slice(E, ctx, st, args): return [(content(E, st, args[0]), st)]

def m_ptr(E, ctx, st, args): return [(args[0], st)]

def m_from_raw_parts(E, ctx, st, args):
    """slice::from_raw_parts(ptr, len): a view of what ptr points to"""
    p, n = args
    c = content(E, st, p)
    if n == length(c): return [(p, st)]
    return [(('sl', c, I(0), n), st)]

def m_position(E, ctx, st, args):
    it = E.load(st, args[0]) if args[0][0] == 'ref' else args[0]
    lab = E.fresh(st, ctx.stack, ctx.bb)
    clo = args[1]
    s0 = st.copy()
    ln = iter_len(it)
    res = []
    if it[0] == 'windows':
        # the first position, as loops do
        s1 = st.copy()
        if E.add_lin(s1, sub(ln, I(1))):
            for v, s in call_closure(E, ctx, s1, clo, [elem_at(E, it, I(0))]):
                res += [(some(I(0)), s2) for b, s2 in fork2(E, s, boolterm(v)) if b]
        if not E.add_lin(s0, sub(('posof', it, lab), I(1))): return None
    x = elem_at(E, it, ('posof', it, lab))
    for v, s in call_closure(E, ctx, s0, clo, [x]):
        for b, s2 in fork2(E, s, boolterm(v)):
            if b:
                p = ('posof', it, lab)
                ln = iter_len(it)
                if ln is not None: E.add_lin(s2, sub(sub(ln, p), I(1)))
                res.append((some(p), s2))
    st2 = st.copy(); st2.facts[('nopos', it, lab)] = 1
    res.append((NONE, st2))
    return res

def known_items(E, st, it):
    """the elements of an iterator over a table known in full"""
    if it[0] == 'ref': it = E.load(st, it)
    if it[0] != 'iter' or not is_int(it[2]) or it[3] not in ('ref', 'val'): return None
    c = it[1]
    while c[0] == 'addr': c = c[1]
    if c[0] != 'agg' or c[1] != 'array' or not listed(c): return None
    return [('addr', x) if it[3] == 'ref' else x for x in c[4][it[2][1]:]]

def m_find(kind):
    """a table searched in order for the first element with a property"""
    def f(E, ctx, st, args):
        items = known_items(E, st, args[0])
        if items is None: return m_position(E, ctx, st, args) if kind == 'position' else m_iter_any(kind == 'all')(E, ctx, st, args) if kind in ('any', 'all') else None
        res = []; cur = [st]
        for n, x in enumerate(items):
            nxt = []
            for s in cur:
                for v, s2 in call_closure(E, ctx, s, args[1], [('addr', x) if kind == 'find' else x]):
                    if kind == 'find_map':
                        for o, p, s3 in split(E, s2, v, OPTION):
                            if o == 'None': nxt.append(s3)
                            else: res.append((some(p[0]), s3))
                        continue
                    for b, s3 in fork2(E, s2, boolterm(v)):
                        if b == (kind != 'all'): res.append(({'find': some(x), 'position': some(I(n)), 'any': I(1), 'all': I(0)}[kind], s3))
                        else: nxt.append(s3)
            cur = nxt
        return res + [({'any': I(0), 'all': I(1)}.get(kind, NONE), s) for s in cur]
    return f

def m_iter_skip(E, ctx, st, args):
    it = E.load(st, args[0]) if args[0][0] == 'ref' else args[0]
    xs = known_items(E, st, it); n = args[1]
    if xs is None or not is_int(n): return None
    return [(it[:2] + (I(it[2][1] + min(n[1], len(xs))),) + it[3:], st)]

def elem_at(E, it, pos):
    if it[0] == 'iter': 
        base = it[2]
        return ('elemref' if it[3] == 'ref' else 'elem', it[1], add(base, pos))
    if it[0] == 'windows':
        c, n = it[1], it[2]
        return E.slice_of(c, pos, add(pos, n))
    return ('anyelem', it)

def iter_len(it):
    if it[0] == 'iter': return sub(length(it[1]), it[2])
    if it[0] == 'windows': return add(sub(length(it[1]), it[2]), I(1))
    return None

def m_windows(E, ctx, st, args):
    return [(('windows', content(E, st, args[0]), args[1]), st)]

def m_chunks(E, ctx, st, args):
    if not (is_int(args[1]) and args[1][1] > 0): return None
    return [(('iter', ('chunks', content(E, st, args[0]), args[1]), I(0), 'ref'), st)]

def m_memchr(E, ctx, st, args):
    c = content(E, st, args[1])
    lab = E.fresh(st, ctx.stack, ctx.bb)
    p = ('posof', ('iter', c, I(0), 'val'), lab)
    s = st.copy()
    res = []
    if E.add_lin(s, sub(sub(length(c), p), I(1))):
        s.facts[('idx', c, p)] = args[0][1] if is_int(args[0]) else 0
        res.append((some(p), s))
    res.append((NONE, st))
    return res

def m_level(E, ctx, st, args): return [(FALSE, st)]

MODELS = {
    'Try::branch': m_try_branch, 'FromResidual::from_residual': m_from_residual,
    'Option::map': m_opt_map, 'Option::and_then': m_opt_and_then, 'Option::is_some': m_opt_is(True), 'Option::is_none': m_opt_is(False),
    'Option::is_some_and': m_opt_is_some_and, 'Option::is_none_or': m_opt_is_none_or, 'Result::is_ok': m_res_is(True), 'Result::is_err': m_res_is(False),
    'Result::is_ok_and': m_res_is_and('Ok'), 'Result::is_err_and': m_res_is_and('Err'),
    'Option::unwrap_or': m_unwrap_or(OPTION, 'Some'), 'Result::unwrap_or': m_unwrap_or(RESULT, 'Ok'),
    'Option::unwrap_or_else': m_unwrap_or_else(OPTION, 'Some'), 'Result::unwrap_or_else': m_unwrap_or_else(RESULT, 'Ok'),
    'Option::unwrap_or_default': m_unwrap_or_default(OPTION, 'Some'), 'Result::unwrap_or_default': m_unwrap_or_default(RESULT, 'Ok'),
    'Option::map_or': m_map_or(OPTION, 'Some'), 'Result::map_or': m_map_or(RESULT, 'Ok'), 'Option::map_or_else': m_map_or_else(OPTION, 'Some'), 'Result::map_or_else': m_map_or_else(RESULT, 'Ok'),
    'Option::ok_or': m_ok_or, 'Option::ok_or_else': m_ok_or_else, 'Result::map': m_res_map, 'Result::map_err': m_res_map_err, 'Result::and_then': m_res_and_then,
    'Result::or_else': m_res_or_else, 'Option::or_else': m_opt_or_else, 'Option::or': m_opt_or, 'Option::filter': m_opt_filter, 'Result::ok': m_res_ok, 'Result::err': m_res_err,
    'AsRef::as_ref': m_as_ref, 'AsMut::as_mut': m_as_ref,
    'Option::as_ref': ref_variant(OPTION), 'Option::as_mut': ref_variant(OPTION), 'Option::as_deref': ref_variant(OPTION), 'Option::as_deref_mut': ref_variant(OPTION),
    'Result::as_ref': ref_variant(RESULT), 'Result::as_mut': ref_variant(RESULT), 'Result::as_deref': ref_variant(RESULT),
    'intrinsics::discriminant_value': m_discriminant, 'mem::discriminant': m_discriminant,
    'Option::take': m_opt_take, 'Option::replace': m_mem_replace, 'mem::replace': m_mem_replace, 'mem::take': m_mem_take, 'mem::swap': m_mem_swap, 'mem::drop': m_drop, 'mem::forget': m_forget,
    'Option::unwrap': m_unwrap(OPTION, 'Some', 'unwrap'), 'Option::expect': m_unwrap(OPTION, 'Some', 'expect'), 'Result::unwrap': m_unwrap(RESULT, 'Ok', 'unwrap'), 'Result::expect': m_unwrap(RESULT, 'Ok', 'expect'),
    'Result::unwrap_err': m_unwrap(RESULT, 'Err', 'unwrap_err'), 'Result::expect_err': m_unwrap(RESULT, 'Err', 'expect_err'), 'Option::unwrap_unchecked': m_unwrap(OPTION, 'Some', 'unwrap'), 'Result::unwrap_unchecked': m_unwrap(RESULT, 'Ok', 'unwrap'),
    'Box::new': m_new_box('Box'), 'Box::pin': m_new_box('Box'), 'Rc::new': m_new_box('Rc'), 'Arc::new': m_new_box('Arc'), 'Rc::pin': m_new_box('Rc'), 'Arc::pin': m_new_box('Arc'),
    'Deref::deref': m_deref, 'DerefMut::deref_mut': m_deref, 'Rc::clone': m_clone_arc, 'Arc::clone': m_clone_arc,
    'RefCell::new': m_transparent_new, 'Cell::new': m_transparent_new, 'RwLock::new': m_transparent_new, 'Mutex::new': m_transparent_new, 'OnceCell::new': m_transparent_new,
    'Atomic::new': m_transparent_new, 'UnsafeCell::new': m_transparent_new,
    'RefCell::borrow_mut': m_refcell_borrow, 'RefCell::borrow': m_refcell_borrow, 'RefCell::try_borrow_mut': m_try_borrow, 'RefCell::try_borrow': m_try_borrow,
    'Cell::get': m_load, 'Cell::set': m_cell_set, 'Cell::replace': m_cell_replace, 'RefCell::replace': m_cell_replace, 'Cell::take': m_mem_take, 'RefCell::take': m_mem_take,
    'RefCell::into_inner': m_into_inner, 'Cell::into_inner': m_into_inner, 'Cursor::into_inner': m_into_inner, 'SliceMut::into_inner': m_into_inner, 'Slice::into_inner': m_into_inner,
    'BufReader::into_inner': m_into_inner, 'BufWriter::into_inner': m_into_inner, 'Mutex::into_inner': m_into_inner, 'RwLock::into_inner': m_into_inner,
    'Default::default': m_default,
    'str::to_lowercase': m_lower, 'str::to_ascii_lowercase': m_lower, '[u8]::to_ascii_lowercase': m_lower, 'String::to_lowercase': m_lower, 'str::to_uppercase': m_upper, 'str::to_ascii_uppercase': m_upper, '[u8]::to_ascii_uppercase': m_upper,
    'str::make_ascii_lowercase': m_make_lower, '[u8]::make_ascii_lowercase': m_make_lower, 'str::make_ascii_uppercase': m_make_upper, '[u8]::make_ascii_uppercase': m_make_upper,
    'str::eq_ignore_ascii_case': m_eq_ignore_case, '[u8]::eq_ignore_ascii_case': m_eq_ignore_case,
    'PartialEq::eq': m_eq(False), 'PartialEq::ne': m_eq(True), 'PartialOrd::lt': m_cmp('Lt'), 'PartialOrd::gt': m_cmp('Gt'), 'PartialOrd::le': m_cmp('Le'), 'PartialOrd::ge': m_cmp('Ge'),
    'Vec::capacity': m_capacity, 'BytesMut::capacity': m_capacity, 'String::capacity': m_capacity, 'VecDeque::capacity': m_capacity,
    'Box::new_uninit': m_box_uninit, 'boxed::box_assume_init_into_vec_unsafe': m_box_into_vec,
    '[T]::sort': m_permute(0), '[T]::sort_unstable': m_permute(0), '[T]::sort_by': m_permute(2), '[T]::sort_unstable_by': m_permute(2), '[T]::sort_by_key': m_permute(1), '[T]::sort_unstable_by_key': m_permute(1), '[T]::sort_by_cached_key': m_permute(1), '[T]::reverse': m_permute(0),
    'Vec::len': m_len, 'Bytes::len': m_len, 'BytesMut::len': m_len, '[T]::len': m_len, 'str::len': m_len, 'String::len': m_len, 'ByteString::len': m_len, 'IndexMap::len': m_len, 'IoBuf::bytes_init': m_len, 'ExactSizeIterator::len': m_iter_len,
    'Vec::is_empty': m_is_empty, 'Bytes::is_empty': m_is_empty, 'BytesMut::is_empty': m_is_empty, '[T]::is_empty': m_is_empty, 'str::is_empty': m_is_empty, 'String::is_empty': m_is_empty, 'ByteString::is_empty': m_is_empty, 'IndexMap::is_empty': m_is_empty,
    'Vec::new': m_vec_new, 'BytesMut::new': m_vec_new, 'Bytes::new': m_vec_new, 'String::new': m_vec_new, 'ByteString::new': m_vec_new, 'Vec::with_capacity': m_vec_new, 'BytesMut::with_capacity': m_vec_new, 'String::with_capacity': m_vec_new,
    'IndexMap::new': m_vec_new, 'IndexMap::with_capacity': m_vec_new, 'vec::from_elem': m_from_elem, 'BytesMut::zeroed': lambda E, c, s, a: m_from_elem(E, c, s, [I(0), a[0]]),
    'VecDeque::pop_front': m_pop_front, 'Vec::retain': m_vec_retain, 'VecDeque::retain': m_vec_retain, 'VecDeque::is_empty': m_is_empty, 'VecDeque::len': m_len, 'IntoIter::as_slice': m_as_slice, 'Iter::as_slice': m_as_slice, 'Iterator::peekable': m_peekable, 'Peekable::peek': m_peek,
    'Vec::push': m_push, 'VecDeque::push_back': m_push, 'String::push_str': m_push_str, 'Vec::extend_from_slice': m_push_str, 'BytesMut::extend_from_slice': m_push_str, 'BufMut::put_slice': m_push_str, 'BufMut::put': m_push_str, 'BytesMut::unsplit': m_push_str,
    'Vec::append': lambda E, c, s, a: m_append(E, c, s, a), 'String::push': m_put_u8, 'BufMut::put_u8': m_put_u8, 'Vec::clear': m_clear, 'BytesMut::clear': m_clear, 'String::clear': m_clear, 'Vec::truncate': m_truncate, 'BytesMut::truncate': m_truncate, 'String::truncate': m_truncate, 'Bytes::truncate': m_truncate,
    'Extend::extend': m_extend,
    'Bytes::slice': m_slice, 'ByteString::slice': m_slice, 'IoBuf::slice': m_slice, 'Index::index': m_index, 'IndexMut::index_mut': m_index, 'str::get': m_get, '[T]::get': m_get, '[T]::first': m_first, '[T]::get_mut': m_get,
    'BytesMut::split_to': m_split_to, 'Bytes::split_to': m_split_to, 'BytesMut::split_off': m_split_off, 'Bytes::split_off': m_split_off, 'Vec::split_off': m_split_off, 'BytesMut::split': m_split,
    'Buf::advance': m_advance, 'Cursor::new': m_cursor_new, 'Cursor::get_ref': m_cursor_get_ref, 'Cursor::get_mut': m_cursor_get_ref, 'Cursor::position': m_cursor_position, 'Cursor::set_position': m_cursor_set_position,
    'Buf::has_remaining': m_has_remaining, 'Buf::remaining': m_remaining, 'Buf::chunk': m_chunk, 'Buf::get_u8': m_buf_get(1), 'Buf::get_u16': m_buf_get(2), 'Buf::get_u32': m_buf_get(4), 'Buf::get_u64': m_buf_get(8), 'Buf::copy_to_bytes': m_copy_to_bytes,
    'IoBufMut::slice_mut': m_slice_mut, 'TryFrom::try_from': m_try_from, 'TryInto::try_into': m_try_from, 'String::from_utf8': utf8, 'str::from_utf8': utf8, 'converts::from_utf8': utf8, 'String::from_utf8_lossy': m_utf8_lossy, 'ByteString::from_utf8': utf8,
    'atoi_simd::parse': m_parse_int, 'str::parse': m_parse_int, 'atoi_simd::parse_pos': m_parse_int, 'FromStr::from_str': m_parse_int,
    'IntoIterator::into_iter': m_into_iter, '[T]::iter': m_iter, 'IndexMap::iter': m_iter, '[T]::iter_mut': m_iter_mut, 'str::bytes': m_bytes_iter, 'Iterator::next': m_next,
    'Iterator::skip': m_iter_skip, 'Vec::pop': m_last(True), '[T]::last': m_last(False),
    'bool::then': m_then(True), 'bool::then_some': m_then(False),
    'Iterator::map': m_iter_map, 'Iterator::filter': m_iter_filter, 'str::replace': m_str_replace, 'Iterator::enumerate': m_iter_enumerate, 'Iterator::any': m_find('any'), 'Iterator::all': m_find('all'), 'Iterator::find': m_find('find'), 'Iterator::find_map': m_find('find_map'), 'Iterator::collect': m_collect, 'FromIterator::from_iter': m_from_iter, 'Iterator::for_each': m_for_each, 'Iterator::take': m_iter_take,
    '[T]::split_at': m_split_at(False), '[T]::split_at_checked': m_split_at(True), 'str::split_at': m_split_at(False, True), 'str::split_at_checked': m_split_at(True, True),
    '[T]::split_first': m_split_end(False), '[T]::split_last': m_split_end(True),
    'str::contains': m_str_contains, '[T]::starts_with': m_slice_prefix(False), '[T]::strip_prefix': m_slice_prefix(True), 'str::starts_with': m_str_edge(True), 'str::ends_with': m_str_edge(False), 'str::find': m_str_find('str::find'), 'str::rfind': m_str_find('str::rfind'),
    'Iterator::position': m_find('position'), '[T]::windows': m_windows, '[T]::chunks': m_chunks, 'memchr::memchr': m_memchr,
    'IndexMap::insert': m_swapless_index_insert, 'IndexMap::shift_remove': m_index_remove('shift'), 'IndexMap::swap_remove': m_index_remove('swap'), 'IndexMap::remove': m_index_remove('swap'),
    'Argument::new_display': m_fmt_arg('display'), 'Argument::new_debug': m_fmt_arg('debug'), 'Argument::new_lower_hex': m_fmt_arg('hex'), 'Arguments::new': m_arguments_new, 'Arguments::from_str': m_arguments_str, 'Arguments::from_str_nonconst': m_arguments_str,
    'fmt::format': m_format, 'ToString::to_string': m_to_string, 'Formatter::write_str': m_fmt_write, 'Formatter::pad': m_fmt_write, 'Formatter::write_char': m_fmt_write, 'Display::fmt': m_disp_fmt, 'Formatter::write_fmt': m_write_fmt, 'SpecToString::spec_to_string': m_to_string, 'Write::write_fmt': m_write_fmt,
    'OccupiedEntry::insert': m_occ_insert, 'OccupiedEntry::get': m_occ_get, 'OccupiedEntry::get_mut': m_occ_get, 'OccupiedEntry::remove': m_occ_remove, 'OccupiedEntry::remove_entry': m_occ_remove,
    'VacantEntry::insert_entry': m_vac_insert, 'VacantEntry::insert': m_vac_insert, 'Entry::or_insert': m_entry_or_insert(False), 'Entry::or_insert_with': m_entry_or_insert(True), 'Entry::and_modify': m_entry_and_modify, 'Entry::insert_entry': m_entry_insert,
    'runtime::spawn': m_spawn('task'), 'monoio::spawn': m_spawn('task'), 'functions::spawn': m_spawn('thread'), 'thread::spawn': m_spawn('thread'), 'blocking::spawn_blocking': m_spawn('blocking'),
    'unbounded::channel': m_channel('unbounded'), 'bounded::channel': m_channel('bounded'), 'oneshot::channel': m_channel('oneshot'), 'mpsc::channel': m_channel('std'),
    'Tx::send': m_send, 'Sender::send': m_send, 'Rx::recv': m_recv, 'Rx::try_recv': m_try_recv, 'Receiver::try_recv': m_try_recv, 'UnboundedReceiver::try_recv': m_try_recv, 'Receiver::recv': m_recv, 'UnboundedReceiver::recv': m_recv, 'UnboundedSender::send': m_send,
    'Runtime::block_on': m_block_on, 'FusionRuntime::block_on': m_block_on, 'Future::poll': m_poll, 'futures_util_fork::poll_fn': m_poll_fn, 'poll_fn::poll_fn': m_poll_fn, 'future::poll_fn': m_poll_fn,
    'AsyncWriteRent::write': m_future('write'), 'AsyncWriteRentExt::write_all': m_future('write_all'), 'AsyncWriteRent::flush': m_future('flush'), 'AsyncWriteRent::shutdown': m_future('shutdown'), 'AsyncWriteRent::writev': m_future('writev'), 'AsyncWriteRentExt::write_vectored_all': m_future('write_vectored_all'),
    'AsyncReadRent::read': m_future('read'),
    'Instant::now': m_now, 'Instant::recent': m_now, 'SystemTime::now': m_now, 'Clock::now_since_epoch': m_now, 'Clock::recent_since_epoch': m_now, 'Instant::update': m_now, 'Add::add': m_instant_add, 'AddAssign::add_assign': m_add_assign, 'Duration::new': m_dur_new, 'Instant::elapsed': m_elapsed, 'Instant::elapsed_since_recent': m_elapsed,
    'Duration::from_secs': m_duration('secs'), 'Duration::from_millis': m_duration('millis'), 'Duration::from_micros': m_duration('micros'), 'Duration::from_nanos': m_duration('nanos'),
    'Instant::duration_since': m_ticks('Instant::duration_since'),
    'Instant::as_ticks': m_ticks('as_ticks'), 'Duration::as_ticks': m_ticks('as_ticks'), 'Instant::as_u64': m_ticks('as_ticks'), 'Duration::as_u64': m_ticks('as_ticks'), 'Duration::from_ticks': m_ticks('from_ticks'),
    'u64::div_ceil': m_div_ceil, 'usize::div_ceil': m_div_ceil, 'u32::div_ceil': m_div_ceil,
    'Duration::as_secs': m_dur_as('secs'), 'Duration::as_millis': m_dur_as('millis'), 'Duration::as_micros': m_dur_as('micros'), 'Duration::as_nanos': m_dur_as('nanos'),
    'RangeInclusive::new': m_range_incl, 'crc16::checksum': m_checksum, 'Crc::checksum': m_checksum, 'Crc::digest': m_digest, 'Digest::update': m_digest_update, 'Digest::finalize': m_digest_finalize, 'Range::contains': m_contains_range, 'Range::is_empty': m_range_empty, 'RangeInclusive::is_empty': m_range_empty, 'RangeInclusive::contains': m_contains_range,
    'IoBuf::read_ptr': m_ptr, '[T]::as_ptr': m_ptr, 'Vec::as_ptr': m_ptr, 'raw::from_raw_parts': m_from_raw_parts, 'slice::from_raw_parts': m_from_raw_parts,
    'future::ready': lambda E, c, s, a: [(('readyfut', a[0]), s)], 'ready::ready': lambda E, c, s, a: [(('readyfut', a[0]), s)],
    'ByteString::from_bytes': utf8, 'timeout::timeout': lambda E, c, s, a: [(('timeoutfut', a[1]), s)],
    'cmp::min': lambda E, c, s, a: m_arith(E, c, s, 'min', a), 'cmp::max': lambda E, c, s, a: m_arith(E, c, s, 'max', a),
}
MODELS = {k: v for k, v in MODELS.items() if v is not None}
for op in ('fetch_add', 'fetch_sub', 'load', 'store', 'swap', 'fetch_update', 'compare_exchange', 'compare_exchange_weak', 'fetch_max', 'fetch_min', 'fetch_or', 'fetch_and'):
    for tn in ('Atomic', 'AtomicU64', 'AtomicU32', 'AtomicU16', 'AtomicBool', 'AtomicUsize'):
        MODELS['%s::%s' % (tn, op)] = atomic(op)
for n in ('insert', 'upsert', 'remove', 'remove_if', 'read', 'update', 'get', 'contains', 'scan', 'retain', 'clear', 'prune', 'any', 'len', 'is_empty', 'entry'):
    MODELS['HashMap::' + n] = m_scc_hashmap(n, False)
    MODELS['HashMap::' + n + '_async'] = m_scc_hashmap(n, True)
    MODELS['HashMap::' + n + '_sync'] = m_scc_hashmap(n, False)
for tn in ('RwLock', 'Mutex', 'AsyncMutex'):
    MODELS[tn + '::read'] = lock_sync('r'); MODELS[tn + '::write'] = lock_sync('w'); MODELS[tn + '::lock'] = lock_sync('w')
    MODELS[tn + '::try_lock'] = lock_sync('w')

def m_append(E, ctx, st, args):
    E.save(st, args[0], cat(E.load(st, args[0]), E.load(st, args[1]))); E.save(st, args[1], EMPTY)
    return [(UNIT, st)]
