"""N: the connections, their registry and their metadata."""
from checks import *
from models import same_added
from text import WS, CTRL, CHARS, char_fn, ev_term, ev_cases, elem_vars
import unicodedata

# ---------------------------------------------------------------- shared views
def all_events(st):
    out = []; t = st.trace
    while t is not None: out.append(t[1]); t = t[0]
    out.reverse()
    return out

def base_events(u):
    if not hasattr(u, '_base'):
        out = []; t = u.base
        while t is not None: out.append(t[1]); t = t[0]
        out.reverse(); u._base = out
    return u._base

class Own:
    """what the server wrote down about a connection when it was accepted"""
    def __init__(self, ev, e):
        self.ev = e; self.map = e[1]; self.key = plain(e[2]); self.val = e[3]
        self.H = None
        for x in ev:
            if x[0] == 'new' and x[3] == e[3] and x[1] in ('Arc', 'Rc', 'Box'): self.H = x[2]
        outs = accept_outs(('x', e[2], e[3]))
        self.acc = list(outs)[0] if len(outs) == 1 else None
        if self.acc is None:
            a = [x for x in ev[:ev.index(e)] if x[0] == 'awaited' and x[1] == 'accept']
            if a: self.acc = a[-1][3]
        # the places made for this connection since it was accepted
        self.cells = set()
        at = [i for i, x in enumerate(ev) if x[0] == 'awaited' and x[1] == 'accept' and x[3] == self.acc]
        if at: self.cells = {x[2] for x in ev[at[-1]:] if x[0] == 'new'}
        self.stream = self.addr = None
        if self.acc is not None:
            p = ('fld', self.acc, 'Ok', 0)
            self.stream = ('fld', p, None, 0); self.addr = ('fld', p, None, 1)
    def role(self, t):
        """what a value says about the connection: id, addr, laddr, fd"""
        t = plain(t)
        if t == self.key: return 'id'
        if self.acc is None: return None
        if t == self.addr: return 'addr'
        c = t
        if c[0] == 'fld' and c[2] == 'Ok': c = c[1]
        if c[0] == 'call' and len(c[2]) >= 1 and self.stream_like(c[2][0]):
            m = c[1].split('::')[-1]
            return {'local_addr': 'laddr', 'peer_addr': 'addr', 'as_raw_fd': 'fd'}.get(m)
        return None
    def stray(self, t):
        """a question asked to something which is not the socket accepted"""
        t = plain(t)
        if t[0] == 'fld' and t[2] == 'Ok': t = t[1]
        if t[0] == 'call' and len(t[2]) == 1 and self.acc is not None and not any(x == self.acc for x in subterms(t)):
            return {'local_addr': 'laddr', 'peer_addr': 'addr', 'as_raw_fd': 'fd'}.get(t[1].split('::')[-1])
        return None
    def stream_like(self, t):
        return t == self.stream
    def fields(self):
        """{index of a field of the record: what it says}"""
        v = self.val
        if v[0] != 'agg': return {}
        return {i: self.role(x) for i, x in enumerate(v[4])}

def own_unknown(o, x):
    return unknown_in(x, allow=()) and not accept_outs(x) and not o.stray(x)

ARITH = ('wrapping_sub', 'wrapping_add', 'wrapping_mul', 'saturating_sub', 'saturating_add')

def shifted(k, key):
    """is k the key moved by a constant?"""
    if k[0] == 'call' and k[1].split('::')[-1] in ARITH and len(k[2]) == 2:
        return plain(k[2][0]) == key and k[2][1][0] == 'int' and k[2][1][1] != 0
    if k[0] == 'lin': return k != key and key in [x for x, _ in k[2]]
    return False

def plain(t):
    while isinstance(t, tuple) and t and t[0] in ('dec', 'cast', 'ranged') and isinstance(t[1], tuple): t = t[1]
    return t

def own_of(M, u, st=None):
    """the record of the connection a task serves"""
    regs = registry_maps(M)
    ev = base_events(u) if u.base is not None else []
    if st is not None: ev = ev + own_events(u, st)
    for e in reversed(ev):
        if e[0] in ('map.insert_new', 'map.write') and e[1] in regs: return Own(ev, e)
    return None

def conn_units(M):
    """the tasks which hold a connection: all those begun, directly or not,
    where connections are accepted"""
    acc = accept_units(M)
    out = []
    for u in M.W.units:
        if u in acc or u.kind == 'main': continue
        if any(e[0] == 'awaited' and e[1] == 'accept' for e in base_events(u)): out.append(u)
    return out

def first_units(M):
    """of those, the ones begun by the accepting loop itself"""
    acc = accept_units(M)
    out = []
    for u in conn_units(M):
        n = sum(1 for e in base_events(u) if e[0] == 'unit')
        na = [sum(1 for e in base_events(a) if e[0] == 'unit') for a in acc]
        if na and n == min(na) + 1: out.append(u)
    return out

def anchors_n(M, R):
    if not anchors(M, R): return False
    if not accept_units(M):
        R.unk('no loop which accepts connections was found'); return False
    return True

def has_registry(M, R):
    if not registry(M):
        R.unk('no registration of connections was found'); return False
    return True

def loc_root(loc):
    return loc[1] if isinstance(loc, tuple) and loc and loc[0] == 'ref' else None

def meta_loc(M, own, loc):
    """'own' / ('other', what) / None when the place is not the metadata of a
    connection"""
    r = loc_root(loc)
    if r is None: return None
    if own is not None and (own.H is not None and r == own.H or r in own.cells): return 'own'
    regs = registry_maps(M)
    if r[0] == '*':
        st = [x for x in subterms(r[1]) if x[0] == 'stored' and x[1] in regs]
        if st:
            if own is not None and len(st[0]) > 2 and plain(st[0][2]) == own.key: return 'own'
            return ('other', st[0])
    return None

# ---------------------------------------------------------------- N01
COUNT_OPS = ('fetch_add',)
NOT_UNIQUE = {'as_raw_fd', 'local_addr', 'peer_addr', 'len', 'port', 'ip', 'process::id', 'elapsed', 'now'}

def in_closure(ev, i):
    n = 0
    for e in ev[:i]:
        if e[0] == 'closure': n += 1
        elif e[0] == 'endclosure': n -= 1
    return n > 0

def check_N01(M, R):
    """Every key under which a connection is registered, and the id of its
    record, is what an atomic addition of a positive constant returned, on one
    counter of 64 bits created once, before the workers are started, and which
    nothing else writes; no path stores to the id afterwards and CLIENT ID and
    HELLO answer it."""
    if not anchors_n(M, R) or not has_registry(M, R): return
    counters = {}
    seen = set()
    for u, st, e in registry(M):
        k = e[2]; kk = (u.name, k, e[3])
        if kk in seen: continue
        seen.add(kk)
        site = where(e)
        t = plain(k)
        base = k[2][0][0] if k[0] == 'lin' and len(k[2]) == 1 and k[2][0][1] == 1 else k
        given = same_added(st, base)
        if given is not None: k, t = replace(k, {base: given}), replace(t, {base: given})
        if k[0] == 'cast': R.bad('narrow:%s' % pt.pt(k, 3)[:40], 'the key of a connection is cut to a smaller integer (%s)' % pt.pt(k, 4)[:160], site)
        atom = [x for x in subterms(k) if x[0] in ('atomic', 'rmw', 'atomicres')]
        adds = [x for x in atom if x[0] == 'atomic' and x[1] == 'fetch_add']
        if t[0] == 'atomic' and t[1] == 'fetch_add' or (t[0] == 'lin' and len(t[2]) == 1 and t[2][0][1] == 1 and t[2][0][0][0] == 'atomic' and t[2][0][0][1] == 'fetch_add'):
            a = t if t[0] == 'atomic' else t[2][0][0]
            n = a[3][0] if a[3] else None
            if n is not None and n[0] == 'int' and n[1] > 0: R.hold('the id comes from an atomic addition of a positive constant', pt.pt(a, 5))
            elif n is not None and n[0] == 'int': R.bad('step:%s' % site, 'the counter of the ids moves by %s' % n[1], site)
            else: R.unk('the step of the counter is not a constant')
            counters.setdefault(a[2], []).append((u, st, e, a))
        elif any(x[0] == 'atomic' and x[1] == 'fetch_sub' for x in atom):
            R.bad('decreasing:%s' % site, 'ids decrease: %s' % pt.pt(k, 4)[:160], site)
        elif any(x[0] == 'atomic' and x[1] == 'load' for x in atom) and not adds:
            R.bad('race:%s' % site, 'the id is a plain read of the counter: two workers can read the same one (%s)' % pt.pt(k, 4)[:160], site)
        elif adds and any(x[0] == 'call' and x[1].split('::')[-1] in ('wrapping_rem', 'rem', 'rem_euclid') or x[0] == 'bin' and x[1] in ('Rem', 'BitAnd', 'Shr', 'Div') for x in subterms(k)):
            R.bad('folded:%s' % site, 'the id folds the counter, so it repeats: %s' % pt.pt(k, 4)[:200], site)
        elif not atom:
            calls = [x[1] for x in subterms(k) if x[0] == 'call']
            if all(c.split('::')[-1] in NOT_UNIQUE or c in NOT_UNIQUE for c in calls) and not any(x[0] in ('shared', 'guard', 'phi', 'stored') for x in subterms(k)):
                R.bad('nocounter:%s' % site, 'the key of a connection is not taken from a counter: %s' % pt.pt(k, 5)[:200], site)
            else: R.unk('where the id comes from is not understood: %s' % pt.pt(k, 4)[:120])
        else: R.unk('where the id comes from is not understood: %s' % pt.pt(k, 4)[:120])
        v = e[3]
        if given is not None: v = replace(v, {base: given})
        if v[0] == 'agg':
            ids = [x for x in v[4] if plain(x) == t]
            if ids:
                R.ob(k[0] != 'cast' and ids[0] == k, 'the record holds the id it is registered under', 'recid:%s' % site, 'the record of a connection holds %s and is registered under %s' % (pt.pt(ids[0], 4)[:80], pt.pt(k, 4)[:80]), site)
            else:
                other = [x for x in v[4] if any(y[0] == 'atomic' for y in subterms(x))]
                if other: R.bad('recid:%s' % site, 'the record of a connection holds the id %s and is registered under %s' % (pt.pt(other[0], 4)[:100], pt.pt(k, 4)[:100]), site)
                else: R.unk('the id of the record is not seen')
    if len(counters) > 1:
        # distinct places: unless they are seen to be one, workers count apart
        if any(of_filled(c) for c in counters): R.unk('which counter gives the ids is not followed')
        else: \
        R.bad('counters', 'ids come from %d counters (%s): two workers give the same ids' % (len(counters), ', '.join(sorted(pt.pt(c, 3) for c in counters))), where(list(counters.values())[0][0][2]))
    for c, l in counters.items():
        u, st, e, a = l[0]
        ev = all_events(st)
        root = loc_root(c)
        news = [i for i, x in enumerate(ev) if x[0] == 'new' and root is not None and x[2] == root]
        starts = [i for i, x in enumerate(ev) if x[0] == 'unit']
        if news and starts:
            if news[0] > starts[0]: R.bad('perworker:%s' % where(e), 'the counter of the ids is created by each worker', where(ev[news[0]]))
            elif in_closure(ev, news[0]): R.unk('how many times the counter is created is not decided')
            else: R.hold('one counter, created before the workers', pt.pt(c, 3))
        elif root is not None and root[0] == 'static': R.hold('one counter, a static', pt.pt(c, 3))
        else: R.unk('where the counter of the ids is created is not seen')
    # the width of the counter
    done_ = set()
    for u in M.W.units:
        for kind, v, st in u.paths():
            for e in own_events(u, st):
                if e[0] == 'atomic' and e[2] in counters:
                    key = (e[1], e[5], e[3])
                    if key in done_: continue
                    done_.add(key)
                    ty = e[6] if len(e) > 6 else ''
                    if any(x in ty for x in ('8>', '16>', '32>', 'U8', 'U16', 'U32', 'I8', 'I16', 'I32')): R.bad('width:%s' % where(e), 'the counter of the ids is an %s, which comes round' % ty, where(e))
                    if e[1] in ('load',): continue
                    if e[1] == 'fetch_add':
                        n = e[3][0] if e[3] else None
                        if n is not None and n[0] == 'int' and n[1] <= 0: R.bad('back:%s' % where(e), 'the counter of the ids is moved by %s' % n[1], where(e))
                        else: R.hold('the counter only grows', pt.pe(e))
                    elif e[1] in ('fetch_max',): R.hold('the counter only grows', pt.pe(e))
                    elif e[1] in ('fetch_sub', 'store', 'swap', 'fetch_and', 'fetch_xor', 'fetch_min'):
                        R.bad('back:%s' % where(e), 'the counter of the ids is changed by %s: an id can come again' % e[1], where(e))
                    else: R.unk('%s on the counter of the ids' % e[1])
    # the id stays
    fld = None
    for u, st, e in registry(M):
        o = Own(all_events(st), e)
        ix = [i for i, r in o.fields().items() if r == 'id']
        if o.H is not None and ix: fld = (o.H, ix[0]); break
    if fld:
        for u in M.W.units:
            for kind, v, st in u.paths():
                for e in own_events(u, st):
                    if e[0] == 'store' and mentions(e[1], lambda x: x == fld[0]) and any(x[:2] == ('f', fld[1]) for x in (e[1][2] if e[1][0] == 'ref' else ()) + tuple(e[2] or ())):
                        R.bad('idstore:%s' % where(e), 'the id of a connection is changed', where(e))
        R.hold('no store to the id of a record')
    answers_id(M, R)

def made_once(v):
    """the arguments of the making of a value which is then the same for all"""
    for x in subterms(v):
        if x[0] == 'call' and x[1].split('::')[-1] in ('get_or_init', 'get_or_try_init') and len(x[2]) == 2 and x[2][0][0] == 'static': return x[2][1]
    return None

def answers_id(M, R):
    cmds = by_cmd(M)
    for c in [('client', 'id'), ('hello', None)]:
        for i in cmds.get(c, []):
            own = own_of(M, i.r.unit, None)
            if own is None: R.unk('the record of the connection is not known'); continue
            rep = i.reply()
            if rep[0] != 'ok': continue
            v = rep[1]
            once = made_once(v)
            if once is not None and any(own.role(x) is not None for x in subterms(once)):
                R.bad('once:%s' % c[0], '%s answers every connection with what was made for the first one' % c[0].upper(), last_site(i.r.ev)); continue
            if v[0] == 'error': continue
            if c == ('client', 'id'):
                if v[0] != 'int':
                    R.unk('CLIENT ID answers a %s' % v[0]); continue
                t = v[1]
            else:
                t = pair_of(i, b'id')
                if t is None and v[0] in ('map', 'array') and v[2]:
                    es = v[2]
                    for a, b in zip(es[0::2], es[1::2]):
                        if a[0] in ('bulk', 'simple') and all(isinstance(x, int) for x in a[1]) and bytes(a[1]) == b'id': t = b[1] if b[0] == 'int' else ('other', b)
                if t is None: R.unk('HELLO: no id seen'); continue
            role(R, own, t, 'id', cmdname(c), site_of(i.r))

def const_of(t):
    if t[0] in ('str', 'bytes'): return const_bytes(t)
    if t[0] == 'agg' and t[1] == 'adt' and len(t[4]) == 1: return const_of(t[4][0])
    return None

def pair_of(i, name):
    """the value a map which is answered has for a key"""
    out = set()
    for d in i.reply_data():
        for t in subterms(d):
            if t[0] == 'agg' and t[1] == 'tuple' and len(t[4]) == 2 and const_of(t[4][0]) == name:
                b = t[4][1]
                out.add(b[4][0] if b[0] == 'agg' and b[1] == 'adt' and len(b[4]) == 1 else b)
    return out.pop() if len(out) == 1 else None

def role(R, own, t, want, who, site):
    if isinstance(t, tuple) and len(t) and t[0] == 'other': R.bad('%s:%s' % (who, want), '%s answers the %s as %s' % (who, want, str(t[1])[:80]), site); return
    r = own.role(t)
    if r == want: R.hold('%s answers the %s of its connection' % (who, want), pt.pt(t, 4))
    elif r is not None: R.bad('%s:%s' % (who, want), '%s answers the %s where the %s is due' % (who, r, want), site)
    elif isinstance(t, tuple) and (t[0] == 'int' or [x for x in subterms(t) if x[0] == 'atomic']):
        R.bad('%s:%s' % (who, want), '%s answers %s where the %s of the connection is due' % (who, pt.pt(t, 5)[:160], want), site)
    elif isinstance(t, tuple) and own.stray(t): R.bad('%s:%s' % (who, want), '%s answers as %s of the connection that of something else: %s' % (who, want, pt.pt(t, 5)[:160]), site)
    elif unknown_in(t, allow=()): R.unk('%s answers %s as %s' % (who, pt.pt(t, 4)[:100], want))
    else: R.bad('%s:%s' % (who, want), '%s answers %s where the %s of the connection is due' % (who, pt.pt(t, 5)[:160], want), site)

# ---------------------------------------------------------------- N02
IO_CALLS = ('TcpStream::', 'TcpListener::', 'Splitable::', 'AsyncWriteRent', 'AsyncReadRent', 'AsyncWriteRentExt', 'socket', 'Socket')

def after_accept(ev):
    for i, e in enumerate(ev):
        if e[0] == 'awaited' and e[1] == 'accept': return i
    return None

def about_io(t):
    """does the value depend on how an operation on a socket went?"""
    def f(x):
        if x[0] in ('iores', 'readres', 'readinto'): return True
        if x[0] == 'out' and x[1] in ('accept', 'read', 'write', 'write_all', 'flush', 'shutdown', 'connect'): return True
        if x[0] == 'call' and isinstance(x[1], str) and x[1].startswith(IO_CALLS): return True
        if x[0] in ('recvres', 'sendres', 'task'): return True
        return False
    return mentions(t, f)

def check_N02(M, R):
    """No path of a worker returns, and no path ends the process, once a
    connection was accepted; no unwrap or expect of the result of an operation
    on a socket, a channel or a task is reached after that without being
    proved; the accepting loop awaits nothing which depends on one connection."""
    if not anchors_n(M, R): return
    for u in accept_units(M):
        for kind, v, st in u.paths():
            ev = own_events(u, st)
            i = after_accept(ev)
            if kind == 'ret':
                if i is None: continue
                R.bad('return:%s' % u.name, 'the worker stops accepting: a path from an accepted connection (or a failure to accept) leaves the loop, last at %s' % last_site(ev), last_site(ev))
            elif i is not None:
                R.hold('path of the accepting loop goes round', '%s ... back to the loop' % last_site(ev))
            # what the loop waits for
            if i is None: continue
            for e in ev[i + 1:] if False else ev:
                if e[0] == 'io': R.bad('loopio:%s' % where(e), 'the accepting loop itself reads or writes on a connection (%s): the next ones wait for it' % e[1], where(e))
                elif e[0] == 'recv': R.unk('the accepting loop waits for a message at %s' % where(e))
                elif e[0] == 'awaited':
                    if e[1] == 'accept': continue
                    a = e[2][0] if e[2] else None
                    if isinstance(a, tuple) and a[0] == 'task': R.bad('loopjoin:%s' % where(e), 'the accepting loop waits for the task of a connection to end', where(e))
                    elif isinstance(a, tuple) and a[0] == 'call' and a[1].split('::')[-1] in ('sleep', 'yield_now', 'timeout'):
                        d = [x for x in subterms(a) if x[0] == 'dur']
                        if d and long(d[0]): R.bad('loopsleep:%s' % where(e), 'the accepting loop sleeps for %s %s' % (pt.pt(d[0][2], 2), d[0][1]), where(e))
                        else: R.hold('a bounded pause of the accepting loop', pt.pt(a, 3))
                    elif e[1] in ('read', 'write', 'write_all', 'flush', 'shutdown'): R.bad('loopio:%s' % where(e), 'the accepting loop waits for one connection (%s)' % e[1], where(e))
                    elif one_connection(e): R.bad('loopio:%s' % where(e), 'the accepting loop waits for one connection (%s): the next ones wait for it' % e[1], where(e))
                    else: R.unk('the accepting loop waits for %s' % pt.pe(e)[:100])
    seen = set()
    for (s, kind, data, proved, st, stack) in M.E.oblig:
        if kind == 'alloc': continue
        if proved:
            continue
        ev = all_events(st)
        if after_accept(ev) is None: continue
        key = (s, kind)
        if key in seen: continue
        seen.add(key)
        site = '%s at %s' % s
        if kind in ('panic:process::exit', 'panic:process::abort', 'panic:intrinsics::abort', 'diverge'):
            R.bad('exit:%s' % s[0], 'the whole process ends (%s) because of what one connection did' % kind, site)
        elif kind in ('unwrap', 'expect') or kind.startswith(('panic:option::', 'panic:result::')):
            v = data[1] if data[0] == 'variant' else data
            if isinstance(v, tuple) and about_io(v) or io_err(v): R.bad('unwrap:%s' % s[0], 'an error of one connection is a panic which ends the worker: %s' % pt.pt(v, 4)[:160], site)
            elif isinstance(v, tuple) and path_io(st): R.bad('unwrap:%s' % s[0], 'a failed operation of one connection reaches a panic, which ends the worker: %s' % pt.pt(v, 4)[:160], site)
            else: R.unk('%s not proved at %s (input: see P01)' % (kind, site))
        elif kind.startswith('panic:'):
            if path_io(st): R.bad('panic:%s' % s[0], 'a failed operation of one connection reaches a panic, which ends the worker', site)
            else: R.unk('%s not proved at %s (see P01)' % (kind, site))
    R.hold('no unproved panic after a connection was accepted', '%d obligations of the whole server' % len(M.E.oblig))

def one_connection(e):
    """is what is waited for an operation on an accepted connection?"""
    from checks import accept_outs
    a = e[5] if len(e) > 5 else e[2]
    return bool(a) and isinstance(a[0], tuple) and a[0][0] not in ('task', 'future', 'closure', 'coroutine') and bool(accept_outs(a[0]))

def io_err(v):
    return isinstance(v, tuple) and v[0] == 'agg' and v[3] == 'Err' and about_io(v)

def path_io(st):
    """does the path hold only because an operation on a socket failed?"""
    for k, f in st.facts.items():
        if k[0] == 'discr' and isinstance(k[1], tuple) and about_io(k[1]) and (f == 1 or (isinstance(f, tuple) and f[0] == 'ne' and 0 in f[1])) and k[1][0] != 'recvres': return True
    return False

UNITS = {'nanos': 1e-9, 'micros': 1e-6, 'millis': 1e-3, 'secs': 1.0, 'secs_f64': 1.0, 'secs_f32': 1.0}
def long(d):
    n = d[2] if len(d) > 2 else None
    return isinstance(n, tuple) and n[0] == 'int' and n[1] * UNITS.get(d[1], 1.0) > 5

def last_site(ev):
    for e in reversed(ev):
        w = where(e)
        if w: return w
    return None

# ---------------------------------------------------------------- N03
def check_N03(M, R):
    """Along every path of the accepting loop the registration precedes the
    start of the task which serves the connection, and none is registered
    without being served; every path to the end of that task removes the key of
    its own connection, once, after the requests are done with, and no other
    path removes or replaces one; CLIENT LIST scans the registry and takes each
    entry once, at most leaving out the ones marked as over."""
    if not anchors_n(M, R) or not has_registry(M, R): return
    regs = registry_maps(M)
    if len(regs) > 1:
        if any(of_filled(x) for x in regs): R.unk('which registry is used is not followed')
        else: R.bad('registries', 'connections are registered in %d different places: %s' % (len(regs), ', '.join(pt.pt(x, 3) for x in regs)), where(registry(M)[0][2]))
    first = first_units(M)
    if not first: R.unk('no task which serves a connection was found'); return
    late = False
    # a. registration before service
    for u in accept_units(M):
        for kind, v, st in u.paths():
            ev = own_events(u, st)
            j = [x for x, e in enumerate(ev) if e[0] == 'awaited' and e[1] == 'accept']
            if not j: continue
            ev = ev[j[-1]:]
            ins = [x for x, e in enumerate(ev) if e[0] in ('map.insert_new', 'map.write') and e[1] in regs]
            rem = [x for x, e in enumerate(ev) if e[0] == 'map.remove' and e[1] in regs]
            sp = [x for x, e in enumerate(ev) if e[0] == 'spawn' and e[1] == 'task']
            if ins and not sp and not rem:
                R.bad('noservice:%s' % last_site(ev), 'a connection is registered and then dropped without being removed: a path from %s goes round without serving it' % where(ev[ins[0]]), where(ev[ins[-1]]))
            elif ins and sp:
                if ins[0] < sp[0] or all(M_reg_in(M, R, u2) for u2 in first): R.hold('registered before it is served', '%s < %s' % (where(ev[ins[0]]), where(ev[sp[0]])))
                else: R.bad('order:%s' % where(ev[ins[0]]), 'the connection is registered after the task which serves it was begun', where(ev[ins[0]]))
                if len(ins) > 1: R.bad('twice:%s' % where(ev[ins[1]]), 'a connection is registered twice', where(ev[ins[1]]))
            elif sp:
                late = True
            if not sp and not ins: R.hold('a connection which is not served is not registered', last_site(ev))
    if late:
        # it must then be in the task, before anything of it is served
        for u in first:
            for kind, v, st in u.paths():
                ev = own_events(u, st)
                ins = [x for x, e in enumerate(ev) if e[0] in ('map.insert_new', 'map.write') and e[1] in regs]
                srv = [x for x, e in enumerate(ev) if e[0] in ('spawn', 'io', 'recv', 'rec', 'select')]
                if not ins: R.bad('unregistered:%s' % u.name, 'a path serves a connection which is not registered', last_site(ev))
                elif srv and srv[0] < ins[0]: R.bad('order:%s' % where(ev[ins[0]]), 'the connection is registered after its requests may be executed', where(ev[ins[0]]))
                else: R.hold('registered before it is served', where(ev[ins[0]]))
    # b. removal
    answer = M.answer_units()
    labs = {u.lab for u in answer}
    for u in first:
        for kind, v, st in u.paths():
            if kind != 'ret': continue
            own = own_of(M, u, st)
            ev = own_events(u, st)
            rem = [(x, e) for x, e in enumerate(ev) if e[0] == 'map.remove' and e[1] in regs]
            if own is None: R.unk('the record of the connection is not known'); continue
            if not rem:
                if tainted_end(M, own, ev): R.unk('the record is given to something not understood')
                elif marked_before(M, own, u, st, ev): R.hold('a connection ends once')
                else: R.bad('leak:%s' % last_site(ev), 'a path to the end of the task of a connection leaves it in the registry (last at %s)' % last_site(ev), last_site(ev))
                continue
            for x, e in rem:
                k = plain(e[2])
                if k == own.key and e[3][0] in ('key', 'occ'): R.hold('its own entry is removed', '%s' % where(e))
                elif k == own.key: R.unk('removal under a condition at %s' % where(e))
                elif unknown_in(k) and not own.role(k) and not shifted(k, own.key): R.unk('removes %s' % pt.pt(k, 4))
                else: R.bad('wrongremove:%s' % where(e), 'what is removed when a connection ends is %s, not its id' % pt.pt(k, 4)[:120], where(e))
            # not before it is done
            x0 = rem[0][0]
            mine = [e for e in ev if e[0] == 'spawn' and e[1] == 'task']
            todo = [e for e in mine if e[3] in labs or any(a.lab == e[3] for a in answer)]
            for e in todo:
                aw = [x for x, w in enumerate(ev) if w[0] == 'awaited' and w[2] and mentions(('x',) + tuple(y for y in w[2] if isinstance(y, tuple)), lambda t: t[0] == 'task' and t[-1] == e[3])]
                if not aw: R.bad('early:%s' % where(rem[0][1]), 'the connection is removed from the registry while the task which answers its requests may still run', where(rem[0][1]))
                elif min(aw) > x0: R.bad('early:%s' % where(rem[0][1]), 'the connection is removed from the registry before the task which answers its requests has ended', where(rem[0][1]))
                else: R.hold('removed once its requests are done with', where(rem[0][1]))
            if u not in answer and not todo: R.unk('where the requests of the connection are answered is not seen')
            if u in answer:
                if any(e[0] == 'io' and x > x0 for x, e in enumerate(ev)): R.bad('early:%s' % where(rem[0][1]), 'the connection is removed before its last reply', where(rem[0][1]))
    # c. nobody else removes, replaces, or empties
    for u in M.W.units:
        if u in first: continue
        seen = set()
        for kind, v, st in u.paths():
            acc = u in accept_units(M)
            for e in own_events(u, st):
                if e[0] in ('map.remove', 'map.write', 'map.bulk') and e[1 if e[0] != 'map.bulk' else 2] in regs:
                    if e[0] == 'map.bulk' and e[1] in READBULK: continue
                    k = (e[0], where(e))
                    if k in seen: continue
                    seen.add(k)
                    if e[0] == 'map.write' and acc: 
                        continue
                    if acc:
                        own = own_of(M, u, st)
                        if own is not None and e[0] == 'map.remove' and plain(e[2]) == own.key: continue
                    R.bad('touch:%s' % where(e), 'the registry is changed (%s) where no connection begins or ends' % (e[0] if e[0] != 'map.bulk' else e[1]), where(e))
    for u, st, e in registry(M):
        if e[0] == 'map.write': R.unk('the registration can replace an entry (%s)' % str(e[4][0]))
    # d. what CLIENT LIST reports
    listing(M, R, regs)

def M_reg_in(M, R, u): return False

def tainted_end(M, own, ev):
    for e in ev:
        if e[0] == 'ext' and mentions(('x',) + tuple(y for y in e[2] if isinstance(y, tuple)), lambda t: t == own.H or t == own.map) and e[1] not in HARMLESS: return True
    return False

def marked_before(M, own, u, st, ev):
    """a path which finds its record marked already, though nothing else marks
    it and it was made without the mark: there is none"""
    for n, e in enumerate(ev):
        if e[0] != 'atomic' or e[1] not in ('swap', 'fetch_or') or loc_root(e[2]) != own.H: continue
        if not any(k == e[4] and f == 1 or k == ('cmp', 'eq', e[4], I(0)) and f == 0 for k, f in st.facts.items()): continue
        pk = proj_key(e[2][2])
        v = own.val
        if v[0] != 'agg' or not pk or not isinstance(pk[0], int) or pk[0] >= len(v[4]) or not mentions(('x', v[4][pk[0]]), lambda t: t == I(0)): continue
        sets = [x for x in ev[:n] if x[0] == 'atomic' and x[1] != 'load' and loc_root(x[2]) == own.H and proj_key(x[2][2]) == pk]
        if sets: continue
        other = False
        for w in M.W.units:
            if w in first_units(M): continue
            for kind, v2, s2 in w.paths():
                for x in own_events(w, s2):
                    if x[0] == 'atomic' and x[1] != 'load' and x[2][0] == 'ref' and proj_key(x[2][2]) == pk and not is_counter(x): other = True
        if not other: return True
    return False

def is_counter(x): return x[1] in ('fetch_add', 'fetch_sub')

def marked_over(M):
    """the atomics of a record which are set where its connection ends: (field path)"""
    out = set()
    for u in first_units(M):
        for kind, v, st in u.paths():
            own = own_of(M, u, st)
            if own is None: continue
            for e in own_events(u, st):
                if e[0] == 'atomic' and e[1] in ('store', 'swap', 'fetch_or') and (loc_root(e[2]) == own.H or meta_loc(M, own, e[2]) == 'own'): out.add((proj_key(e[2][2]), e[3][0] if e[3] else None))
    return out

def proj_key(p): return tuple(x[1] for x in p if x[0] == 'f')

def listing(M, R, regs):
    over = marked_over(M)
    lists = by_cmd(M).get(('client', 'list'), [])
    if not lists: R.unk('no path of CLIENT LIST'); return
    infos = [Info(M, r) for r in M.requests()]
    infos = [i for i in infos if i.name == 'client' and i.sub == 'list']
    nscan = npush = nout = 0
    for i in infos:
        ev = i.r.ev
        bulks = [e for e in ev if e[0] == 'map.bulk' and e[2] in regs]
        if i.r.done and i.reply()[0] == 'ok' and i.reply()[1][0] != 'error':
            if not bulks:
                if i.tainted(): R.unk('CLIENT LIST: given to something not understood')
                elif any(e[0] == 'map.read' for e in ev): R.unk('CLIENT LIST reads the registry entry by entry')
                else: R.bad('list:noscan', 'a path of CLIENT LIST answers without looking at the registry', site_of(i.r))
                continue
            nscan += 1
        if len(bulks) > 1 and i.r.done: R.unk('CLIENT LIST looks at the registry %d times' % len(bulks))
        # the path through one entry
        spans = []
        for x, e in enumerate(ev):
            if e[0] == 'bulkret' and e[2] in regs:
                s = max(y for y in range(x) if ev[y][0] == 'map.bulk' and ev[y][2] in regs)
                spans.append((ev[s], ev[s + 1:x], e))
        for b, body, ret in spans:
            pushes = [e for e in body if e[0] == 'push' and mentions(e[1], lambda t: t[0] == 'stored' and t[1] in regs)]
            if len(pushes) > 1: R.bad('list:twice', 'CLIENT LIST takes an entry twice', where(pushes[1])); continue
            if pushes:
                npush += 1; R.hold('an entry of the registry is listed', where(pushes[0]))
                continue
            # left out: why?
            why = []; ok_ = False; unk = False
            for k, f in i.st.facts.items():
                if not mentions(k, lambda t: t[0] == 'stored' and t[1] in regs): continue
                x = k
                if k[0] in ('cmp', 'discr') or k[0] == 'atomic': pass
                at = [t for t in subterms(k) if t[0] == 'atomic' and t[1] == 'load']
                if at:
                    l = at[0][2]
                    pk = proj_key(l[2]) if l[0] == 'ref' else ()
                    m = [val for p, val in over if p == pk]
                    if m and truth_of(k, f) is not None and m[0] is not None and m[0][0] == 'int':
                        if bool(m[0][1]) == truth_of(k, f): ok_ = True
                        else: why.append('it is not marked as over')
                        continue
                    elif not m: why.append('of a mark which nothing sets at the end of a connection (%s)' % pt.pt(k, 3)[:60]); continue
                why.append('%s is %s' % (pt.pt(k, 5)[:80], f))
            if ok_: R.hold('an entry is left out only when its connection is over', b[3][1] if len(b) > 3 and isinstance(b[3], tuple) else None)
            elif any(e[0] in ('closure', 'ext') for e in body): R.unk('why CLIENT LIST leaves an entry out is not understood')
            elif isinstance(b[1], str) and b[1] not in ('scan', 'scan_async', 'for_each', 'iter'): R.unk('CLIENT LIST goes through the registry with %s' % b[1])
            elif not why: 
                # maybe collected in another way
                if any(e[0] in ('store', 'mapinsert') for e in body) or ret[3] != UNIT: R.unk('how CLIENT LIST collects the entries is not understood')
                else: R.bad('list:none', 'CLIENT LIST leaves out entries', where(ret) or site_of(i.r))
            else:
                R.bad('list:filter', 'CLIENT LIST leaves out the connections for which %s' % '; '.join(why)[:200], where(ret) or site_of(i.r))
            nout += 1
    # the second loop: each one taken is written
    if nscan and not npush: R.unk('how CLIENT LIST collects the entries is not understood')
    turns = {}
    for i in infos:
        ev = i.r.ev
        if i.r.done or not any(e[0] == 'bulkret' and e[2] in regs for e in ev): continue
        x = max([y for y, e in enumerate(ev) if e[0] in ('enter', 'loop') and e[1] == i.r.back], default=None)
        if x is None or x < max(y for y, e in enumerate(ev) if e[0] == 'bulkret'): continue
        turns.setdefault(i.r.back, []).append((i, ev[x], [e for e in ev[x:] if e[0] == 'push'], [e for e in ev[x:] if e[0] in ('store', 'mapinsert', 'ext', 'map.read')]))
    for back, l in turns.items():
        if not any(p for _, _, p, _ in l): continue
        for i, head, pushes, other in l:
            if len(pushes) > 1:
                if len({e[1] for e in pushes}) < len(pushes) or all(mentions(e[1], lambda t: t[0] == 'stored' and t[1] in regs) for e in pushes): R.bad('list:twice', 'CLIENT LIST lists an entry it has taken twice', where(pushes[1]))
                else: R.unk('what is added to the list of CLIENT LIST is not understood')
                continue
            if pushes: R.hold('an entry which was taken is listed', where(pushes[0])); continue
            why, ok_ = left_out(M, i, over, base=M.E.entries[head[2]][0].facts if head[2] in M.E.entries else {})
            if ok_: R.hold('an entry is left out only when its connection is over')
            elif other: R.unk('why CLIENT LIST leaves an entry out is not understood')
            else: R.bad('list:skip', 'CLIENT LIST leaves out entries it has taken%s' % (': those for which ' + '; '.join(why)[:200] if why else ''), site_of(i.r))
    for i in infos:
        if not any(e[0] == 'bulkret' and e[2] in regs for e in i.r.ev): continue
        for k, f in i.st.facts.items():
            if k[0] == 'discr' and k[1][0] == 'nextres' and k[1][2][0] == 'upto':
                n = k[1][2][2]
                if n[0] == 'int': R.bad('list:cut', 'CLIENT LIST lists %d entries at most' % n[1], site_of(i.r))
                else: R.unk('how many entries CLIENT LIST lists at most is not understood: %s' % pt.pt(n, 4)[:80])
    for i in infos:
        rep = i.reply() if i.r.done else ('none',)
        if rep[0] != 'ok': continue
        v = rep[1]
        if v[0] == 'error': R.hold('an error reply of CLIENT LIST'); continue
        if v[0] not in ('array', 'bulk', 'simple', 'push', 'set'): R.unk('CLIENT LIST answers a %s' % v[0]); continue
        if v[0] == 'array' and v[1][0] == 'int':
            pushes = [e for e in i.r.ev if e[0] == 'push' and mentions(e[1], lambda t: t[0] == 'stored' and t[1] in regs)]
            gone = [e for e in i.r.ev if e[0] == 'retain' and not e[1]]
            if gone and not v[1][1]:
                for e in gone:
                    why, ok_ = left_out(M, i, over, facts=dict(e[3]))
                    if ok_: R.hold('an entry is left out only when its connection is over')
                    else: R.bad('list:skip', 'CLIENT LIST leaves out entries it has taken%s' % (': those for which ' + '; '.join(why)[:200] if why else ''), where(e))
                continue
            R.ob(True if not pushes or v[1][1] else False, 'CLIENT LIST with no entry is empty', 'list:count', 'CLIENT LIST answers an empty array although an entry was taken', site_of(i.r))

def left_out(M, i, over, base={}, facts=None):
    """why a turn of the loop over the entries lists none"""
    why = []; ok_ = False
    for k, f in (i.st.facts if facts is None else facts).items():
        if k in base and base[k] == f: continue
        at = [t for t in subterms(k) if t[0] == 'atomic' and t[1] == 'load']
        if at:
            l = at[0][2]
            m = [val for p, val in over if p == (proj_key(l[2]) if l[0] == 'ref' else ())]
            if m and truth_of(k, f) is not None and m[0] is not None and m[0][0] == 'int':
                if bool(m[0][1]) == truth_of(k, f): ok_ = True
                continue
        why.append('%s is %s' % (pt.pt(k, 5)[:80], f))
    return why, ok_

def truth_of(k, f):
    """what the fact says of the atomic it is about"""
    if k[0] == 'atomic':
        if isinstance(f, (int, bool)): return bool(f)
        if isinstance(f, tuple) and f[0] == 'ne': return 0 in f[1]
    if k[0] == 'cmp' and k[1] == 'eq':
        c = [x for x in k[2:] if isinstance(x, tuple) and x[0] == 'int']
        if c and isinstance(f, (int, bool)): return bool(c[0][1]) == bool(f)
    if k[0] == 'not' : 
        r = truth_of(k[1], f); return None if r is None else not r
    return None

# ---------------------------------------------------------------- N04
SELF_CMDS = [('client', 'getname'), ('client', 'setname'), ('client', 'info'), ('client', 'id'), ('hello', None)]

def check_N04(M, R):
    """The record registered for a connection holds the id it is registered
    under and the peer address, local address and descriptor of the socket which
    was accepted; the task which serves it is given that record and that socket;
    every access CLIENT SETNAME, GETNAME, INFO, ID and HELLO make to the
    metadata of a connection is to that record, and no other command changes
    one."""
    if not anchors_n(M, R) or not has_registry(M, R): return
    # the record
    seen = set()
    for u, st, e in registry(M):
        if (e[2], e[3]) in seen: continue
        seen.add((e[2], e[3]))
        o = Own(all_events(st), e); site = where(e)
        if o.val[0] != 'agg' or o.acc is None: R.unk('the record of a connection is not understood: %s' % pt.pt(o.val, 3)[:100]); continue
        roles = o.fields()
        have = Counter(r for r in roles.values() if r)
        for want in ('id', 'addr', 'laddr', 'fd'):
            if have[want] == 1: R.hold('the record holds the %s of its connection' % want, pt.pt([o.val[4][i] for i, r in roles.items() if r == want][0], 4))
            elif have[want] > 1: R.bad('record:%s:twice' % want, 'two fields of the record of a connection hold its %s' % want, site)
            elif have[want] == 0:
                odd = [x for i, x in enumerate(o.val[4]) if roles[i] is None and x[0] != 'agg' and x != I(0) and x != I(1)]
                if any(own_unknown(o, x) for x in odd): R.unk('where the %s of a record comes from is not understood' % want)
                else: R.bad('record:%s' % want, 'the record of a connection does not hold its %s (fields: %s)' % (want, ', '.join('%s' % (r or pt.pt(x, 3)[:50]) for x, r in zip(o.val[4], roles.values()))), site)
    # the task and the socket
    for u in first_units(M):
        own = own_of(M, u)
        if own is None: R.unk('the record of the connection is not known'); continue
        outs = accept_outs(('x', u.value)) if u.value is not None else set()
        if own.acc is not None and outs:
            R.ob(outs == {own.acc}, 'the task is given the socket and the record of one connection', 'mixed:%s' % u.name, 'the task of a connection is given the socket of another one', u.site)
    for u in M.answer_units():
        own = own_of(M, u)
        if own is None: continue
        sinks = {s for r in M.requests() if r.unit is u for e in r.io() for s in [e[2]]}
        for s in sinks:
            o2 = accept_outs(('x', s))
            if not o2: continue
            R.ob(o2 == {own.acc} if own.acc is not None else None, 'replies go to the socket of the record', 'sink:%s' % u.name, 'the socket replies are written to is not that of the record', u.site)
    # what the commands touch
    for c, l in by_cmd(M).items():
        for i in l:
            own = own_of(M, i.r.unit)
            if own is None: R.unk('the record of the connection is not known'); continue
            if own.H is None: R.unk('the place of the record is not known'); continue
            for e in i.r.ev:
                if e[0] == 'lock': loc = e[2]; w = e[1] == 'w'
                elif e[0] == 'atomic': loc = e[2]; w = e[1] != 'load'
                elif e[0] == 'store': loc = e[1]; w = True
                else: continue
                if loc[0] == 'guard': continue
                m = meta_loc(M, own, loc)
                if m is None:
                    # the metadata of somebody?
                    continue
                if m == 'own': R.hold('%s touches the metadata of its own connection' % cmdname(c), pt.pe(e)[:120])
                elif w: R.bad('%s:other' % cmdname(c), '%s changes the metadata of another connection (%s)' % (cmdname(c), pt.pt(m[1], 4)[:100]), where(e) or site_of(i.r))
                elif c in SELF_CMDS: R.bad('%s:other' % cmdname(c), '%s reads the metadata of another connection (%s)' % (cmdname(c), pt.pt(m[1], 4)[:100]), where(e) or site_of(i.r))
            if c in SELF_CMDS:
                ds = i.reply_data() + [e[3] for e in i.r.ev if e[0] == 'store']
                for d in ds:
                    if d is None: continue
                    x = [t for t in subterms(d) if t[0] == 'stored' and t[1] in registry_maps(M) and not (len(t) > 2 and plain(t[2]) == own.key)]
                    if x: R.bad('%s:other' % cmdname(c), '%s uses the metadata of another connection (%s)' % (cmdname(c), pt.pt(x[0], 4)[:100]), site_of(i.r)); break
                    x = [t for t in subterms(d) if t[0] == 'shared' and loc_root(t[1]) is not None and loc_root(t[1])[0] == 'H' and loc_root(t[1]) != own.H and loc_root(t[1]) not in own.cells]
                    if x: R.bad('%s:shared' % cmdname(c), '%s answers something which is shared by several connections (%s)' % (cmdname(c), pt.pt(x[0], 4)[:100]), site_of(i.r)); break
    name_place(M, R)
    answers_id(M, R)
    for i in by_cmd(M).get(('client', 'info'), []):
        own = own_of(M, i.r.unit)
        rep = i.reply()
        if own is None or rep[0] != 'ok' or rep[1][0] not in ('simple', 'bulk'): continue
        for lab_, t in labelled(unmap(rep[1][1])):
            if lab_ in ('id', 'addr', 'laddr', 'fd') and t is not None and not isinstance(t, int): role(R, own, t, lab_, 'CLIENT INFO', site_of(i.r))

def name_place(M, R):
    """the name is kept in the record of the connection, not beside it"""
    for i in by_cmd(M).get(('client', 'setname'), []):
        own = own_of(M, i.r.unit)
        if own is None or own.H is None: continue
        for e in i.r.ev:
            loc = None
            if e[0] == 'store':
                loc = guard_loc(e[1])
            if loc is None: continue
            m = meta_loc(M, own, loc)
            if m == 'own': R.hold('the name is kept in the record of its connection', pt.pt(loc, 3))
            elif m is None:
                r = loc_root(loc)
                if r is not None and r[0] == 'H':
                    # made when the connection was accepted, or shared?
                    ev = base_events(i.r.unit)
                    n = [x for x, y in enumerate(ev) if y[0] == 'new' and y[2] == r]
                    a = [x for x, y in enumerate(ev) if y[0] == 'awaited' and y[1] == 'accept']
                    if n and a and n[0] < a[-1]: R.bad('SETNAME:shared', 'the name is kept in a place shared by several connections (%s)' % pt.pt(loc, 3), where(e) or site_of(i.r))
                    elif n and a: R.hold('the name is kept with its connection', pt.pt(loc, 3))
                    else: R.unk('where the name is kept is not understood')
                elif r is not None and r[0] in ('static', 'S'): R.bad('SETNAME:shared', 'the name is kept in a static', where(e) or site_of(i.r))
                else: R.unk('where the name is kept is not understood')

def guard_loc(t):
    while isinstance(t, tuple) and t:
        if t[0] == 'guard': return t[1]
        if t[0] == 'ref':
            if t[1][0] == '*': t = t[1][1]; continue
            return t
        t = t[1] if len(t) > 1 and t[0] in ('fld', 'deref', '*') else None
    return None

def labelled(ts):
    """[(label, term)] of a line made of `label=value` parts; None: nothing"""
    out = []; cur = []
    pend = None
    for x in list(ts) + [32]:
        if isinstance(x, int):
            if pend is not None and x == 61 and pend is not None: pass
            cur.append(x)
        else:
            s = bytes(cur)
            out.append((label(s), x)); cur = []
    tail = bytes(cur[:-1])
    return out

def label(s):
    m = re.search(rb'([A-Za-z-]+)=$', s)
    return m.group(1).decode() if m else None

# ---------------------------------------------------------------- N05
def refuses(k, f, content):
    """the characters of CHARS which a fact about the name excludes from it:
    a set, or None when the fact is not understood"""
    if k[0] == 'call' and k[1] == 'str::contains' and len(k[2]) == 2:
        if f not in (0, False): return set()
        p = k[2][1]
        while p[0] in ('ref', 'cast', '*') and isinstance(p[1], tuple): p = p[1]
        if p[0] == 'int': return {p[1]}
        if p[0] in ('agg', 'arr', 'tup'):
            xs = [y[1] for y in flat([p[-1]]) if y[0] == 'int'] if isinstance(p[-1], tuple) and p[-1] else []
            if xs: return set(xs)
        return None
    if k[0] == 'pred' and k[1] in ('any', 'all') and len(k) >= 4:
        src, cases = k[2], k[3]
        want = None
        if k[1] == 'any' and f in (0, False): want = 0       # every character gives 0
        if k[1] == 'all' and f in (1, True): want = 1
        if want is None: return set()
        inner = src
        mode = None
        for t in subterms(src):
            if t[0] == 'call' and t[1].split('::')[-1] in ('chars', 'char_indices'): mode = 'char'
            if t[0] == 'call' and t[1].split('::')[-1] in ('bytes',): mode = 'byte'
        if mode is None: mode = 'byte'
        if any(t[0] == 'filtiter' or t[0] == 'call' and t[1].split('::')[-1] in ('skip', 'take', 'step_by', 'rev', 'filter', 'skip_while', 'take_while', 'zip', 'chain') for t in subterms(src)): return None
        xs = elem_vars(cases, src)
        xs = {x for x in xs if not any(x in list(subterms(y))[1:] for y in xs)} or xs
        if len(xs) != 1: return None
        x = list(xs)[0]
        out = set()
        for c in CHARS:
            if mode == 'char':
                r = ev_cases(cases, x, c)
                if r is None: return None
                if r != want: out.add(c)
            else:
                rs = [ev_cases(cases, x, b) for b in chr(c).encode()]
                if any(r is not None and r != want for r in rs): out.add(c)
                elif any(r is None for r in rs): return None
        return out
    return set()

def check_N05(M, R):
    """On every path SETNAME answers OK, the name of its own connection is set
    to exactly the bytes of the argument, or to nothing when they are empty, and
    what the path knows of the argument excludes each white space and control
    character (the predicate is evaluated on each of them); on the others
    nothing is stored; no other command writes the name; GETNAME answers null
    where the name it read is nothing and exactly its bytes otherwise."""
    if not anchors_n(M, R) or not has_registry(M, R): return
    cmds = by_cmd(M)
    places = set()
    for i in cmds.get(('client', 'setname'), []):
        own = own_of(M, i.r.unit)
        rep = i.reply(); st = i.st; site = site_of(i.r)
        stores = [e for e in i.r.ev if e[0] == 'store']
        locks = [e for e in i.r.ev if e[0] == 'lock' and e[1] == 'w']
        name = None
        for e in stores:
            l = guard_loc(e[1])
            if l is not None: places.add((l, e[2]))
        cont = i.bytes_of(2)
        if rep[0] == 'unk' or rep[0] == 'none' and not stores: R.unk('a path of SETNAME whose reply is not understood' if rep[0] == 'unk' else 'a path of SETNAME without a reply (see K and R)'); continue
        if rep[0] == 'bad': R.unk('SETNAME: see R01'); continue
        if rep[0] == 'ok' and rep[1][0] == 'error':
            if stores: R.bad('refused:store', 'SETNAME refuses a name and changes it all the same', where(stores[0]) or site)
            else: R.hold('a refused name changes nothing', i.describe())
            continue
        if rep[0] == 'ok' and not stores:
            # the name it has already, told under the lock
            for k, f in st.facts.items():
                if f != 1 or k[:2] != ('cmp', 'eq'): continue
                for a, b in ((k[2], k[3]), (k[3], k[2])):
                    if a[0] == 'shared' and own is not None and loc_root(a[1]) == own.H and any(l[2] == a[1] for l in locks) and not mentions(b, lambda t: t[0] == 'shared'):
                        stores = [('store', ('guard', a[1], 'w', a[2]), (), b)]
        if rep[0] == 'ok':
            if not stores:
                if i.tainted() or any(e[0] == 'ext' and mentions(('x',) + tuple(x for x in e[2] if isinstance(x, tuple)), lambda t: own is not None and t == own.H) for e in i.r.ev): R.unk('SETNAME: how the name is set is not understood'); continue
                R.bad('nostore', 'SETNAME answers OK and changes nothing', site); continue
        # the value: the last store wins
        e = stores[-1]; v = e[3]
        others = [x for x in stores[:-1]]
        arg = [b for b in cont if mentions(v, lambda t: t == b)]
        empty = [b for b in cont if M.E.prove_ge0(st, sub(I(0), length(b)))]
        nonempty = [b for b in cont if M.E.prove_ge0(st, sub(length(b), I(1)))]
        if v[0] == 'agg' and v[3] == 'None':
            if empty: R.hold('an empty name removes it', pt.pt(v, 3))
            else: 
                k = empty_fact(st, cont)
                if k is True: R.hold('an empty name removes it')
                elif k is False or nonempty: R.bad('removed', 'SETNAME removes the name although the one given is not empty', where(e) or site)
                else: R.unk('when SETNAME removes the name is not understood')
            continue
        inner = v[4][0] if v[0] == 'agg' and v[3] == 'Some' else v
        w = inner
        while w[0] in ('dec', 'text', 'conv') and isinstance(w[1], tuple): w = w[1]
        if tokens(w) and len(tokens(w)) == 1 and not isinstance(tokens(w)[0], int): w = tokens(w)[0]
        if w in cont: 
            R.hold('the name is exactly the bytes given', pt.pt(w, 4))
        elif same_text(w, cont): R.hold('the name is exactly the bytes given', pt.pt(w, 4))
        elif same_text(w, cont) is None: R.unk('what SETNAME stores is not understood: %s' % pt.pt(w, 4)[:100]); continue
        else: R.bad('stored', 'SETNAME stores %s, not the bytes it was given' % pt.pt(v, 5)[:160], where(e) or site); continue
        # an empty name must not become one - unless readers treat it as none
        if empty_fact(st, [w]) is not False and not nonempty: R.facts.append('maybe-empty')
        # only valid ones
        ex = set(); odd = None
        for k, f in st.facts.items():
            if not mentions(k, lambda t: t == w): continue
            r = refuses(k, f, w)
            if r is None: odd = k
            else: ex |= r
            if k[0] == 'call' and k[1] == 'str::contains' and r is not None: continue
            if k[0] == 'pred' and k[1] not in ('any', 'all', 'utf8', 'empty', 'eq'): odd = odd or k
            if k[0] in ('call', 'cmp', 'discr') and k[0] != 'strval' and not harmless_fact(k, w): odd = odd or k
        miss = [c for c in CHARS if c not in ex]
        if not miss: R.hold('an accepted name has no white space and no control character', '%d characters evaluated' % len(CHARS))
        elif odd is not None and odd[0] == 'pred' and odd[1] in ('any', 'all') and mentions(odd, lambda t: t[0] == 'call' and t[1] in CUTS and len(t[2]) == 2 and t[2][1][0] == 'int' and t[2][1][1] > (t[1] == 'Iterator::step_by') and t[2][0][0] == 'call' and t[2][0][1] in ('str::chars', 'str::bytes', 'str::char_indices') and t[2][0][2][0] == w) and not any(k[0] == 'cmp' and mentions(k, lambda t: t == length(w)) and not (k[1] == 'eq' and I(0) in k[2:]) for k in st.facts):
            R.bad('partial', 'only a part of the characters of a name is checked: %s' % pt.pt(odd, 5)[:120], where(e) or site)
        elif odd is not None: R.unk('the check of the name is not understood: %s' % pt.pt(odd, 5)[:160])
        elif any(x[0] in ('loop', 'enter') and 'set_name' in str(x[1]) and False for x in i.r.ev): R.unk('the check of the name is a loop')
        elif loops_over(i, w): R.unk('the name is checked in a loop')
        else: R.bad('invalid', 'SETNAME accepts a name which holds %s' % ', '.join('U+%04X' % c for c in miss[:12]) + (' and %d more' % (len(miss) - 12) if len(miss) > 12 else ''), where(e) or site)
    # no other command
    for c, l in cmds.items():
        if c == ('client', 'setname'): continue
        for i in l:
            for e in i.r.ev:
                if e[0] != 'store': continue
                p = guard_loc(e[1])
                if p is not None and any(p == q for q, _ in places):
                    R.bad('other:%s' % cmdname(c), '%s changes the name of the connection' % cmdname(c), where(e) or site_of(i.r))
    for u in M.W.units:
        if u in M.answer_units(): continue
        for kind, v, st in u.paths():
            for e in own_events(u, st):
                if e[0] == 'store' and guard_loc(e[1]) is not None and any(guard_loc(e[1]) == q for q, _ in places): R.bad('other:%s' % u.name, 'the name of a connection is changed by %s' % u.name, where(e))
    if not places: R.unk('where the name is kept is not seen')
    # the record starts without a name
    # GETNAME
    for i in cmds.get(('client', 'getname'), []):
        rep = i.reply(); st = i.st; site = site_of(i.r)
        if rep[0] != 'ok': R.unk('a path of GETNAME whose reply is not understood'); continue
        v = rep[1]
        if v[0] == 'error': continue
        sh = [t for k in st.facts for t in subterms(k) if t[0] == 'shared' and any(t[1] == q for q, _ in places)]
        sh += [t for d in i.reply_data() if d is not None for t in subterms(d) if t[0] == 'shared' and any(t[1] == q for q, _ in places)]
        if not sh:
            if any(e[0] == 'lock' for e in i.r.ev) or i.tainted(): R.unk('how GETNAME reads the name is not understood')
            elif unknown_in(('x',) + tuple(x for x in flat(v) if isinstance(x, tuple))): R.unk('how GETNAME reads the name is not understood')
            elif places: R.bad('getname:unread', 'GETNAME answers %s without reading the name' % str(v)[:80], site)
            continue
        s = sh[0]
        d = discr_fact(st, s, ('None', 'Some'))
        if v[0] == 'null':
            if d == 'None': R.hold('no name: null', pt.pt(s, 3))
            elif empty_fact(st, [('fld', s, 'Some', 0)]) is True: R.hold('an empty name: null')
            elif d == 'Some': R.bad('getname:null', 'GETNAME answers null although the connection has a name', site)
            else: R.unk('when GETNAME answers null is not understood')
            continue
        if v[0] in ('bulk', 'simple'):
            ts = unmap(v[1]) if v[0] == 'simple' else list(v[1])
            if d == 'None':
                R.bad('getname:none', 'GETNAME answers %s where the connection has no name' % untok(ts), site); continue
            want = ('fld', s, 'Some', 0)
            got = ts[0] if len(ts) == 1 else None
            g = got
            while isinstance(g, tuple) and g[0] in ('dec', 'text') and isinstance(g[1], tuple): g = g[1]
            if g == want or g == s: R.hold('GETNAME answers exactly the name', pt.pt(want, 4))
            elif same_text(ts, [want, s]) is not False: R.hold('GETNAME answers exactly the name', pt.pt(want, 4)) if same_text(ts, [want, s]) else R.unk('GETNAME answers %s' % untok(ts)[:120])
            else: R.bad('getname:bytes', 'GETNAME answers %s, not the name' % untok(ts)[:160], site)
            continue
        R.bad('getname:kind', 'GETNAME answers a %s' % v[0], site)
    if 'maybe-empty' in R.facts:
        # then a reader must treat an empty name as none
        bad = [i for i in cmds.get(('client', 'getname'), []) if i.reply()[0] == 'ok' and i.reply()[1][0] in ('bulk', 'simple')
               and not any(empty_fact(i.st, [('fld', t, 'Some', 0)]) is False for k in i.st.facts for t in subterms(k) if t[0] == 'shared')]
        if bad: R.bad('empty', 'SETNAME with an empty name stores it, and GETNAME answers it instead of null', site_of(bad[0].r))

def harmless_fact(k, w):
    """facts about the argument which say nothing of its characters"""
    if k[0] == 'discr': return True
    if k[0] == 'cmp': return not mentions(k, lambda t: t[0] in ('anyelem', 'call', 'pred', 'elem') and t != w and mentions(t, lambda y: y == w))
    return False

def empty_fact(st, conts):
    """is the text known to be empty (True), not to be (False)?"""
    for k, f in st.facts.items():
        for c in conts:
            if k[0] == 'cmp' and k[1] == 'eq' and I(0) in k[2:] and length(c) in k[2:]: return bool(f) if isinstance(f, (int, bool)) else None
            if k[0] == 'strval' and k[1] == c:
                if f[0] == 'is': return f[1] in ('', b'')
                if f[0] == 'ne' and ('' in f[1] or b'' in f[1]): return False
            if k[0] == 'pred' and k[1] in ('empty', 'is_empty') and c in k: return bool(f) if isinstance(f, (int, bool)) else None
    return None

def loops_over(i, w):
    """is the name gone through one element at a time, but by a search which is
    understood?"""
    known = set()
    for k, f in i.st.facts.items():
        if k[0] in ('pred', 'call') and mentions(k, lambda t: t == w) and refuses(k, f, w) is not None:
            known |= {t for t in subterms(k) if t[0] == 'call'}
    for k in i.st.facts:
        if k[0] == 'discr' and mentions(k, lambda t: t[0] in ('itnext', 'next', 'anyelem', 'phi') and mentions(t, lambda y: y == w)): return True
    for e in i.r.ev:
        if e[0] == 'ext' and any(t[1] == e[1] and t[2] == e[2] for t in known if len(t) > 2): continue
        if e[0] == 'ext' and e[1].split('::')[-1] in ('next', 'into_iter', 'chars', 'bytes', 'split', 'trim', 'contains', 'find') and mentions(('x',) + tuple(x for x in e[2] if isinstance(x, tuple)), lambda t: t == w): return True
    return False

def flat(v):
    for x in v:
        if isinstance(x, tuple) and x and isinstance(x[0], tuple): yield from flat(x)
        else: yield x

# ---------------------------------------------------------------- N06
def line_shape(M, own, ts, st):
    """a line with what it says of its connection replaced by the field of the
    record which says it; own is None for an entry of the registry"""
    regs = registry_maps(M)
    vals = {}
    if own is not None and own.val[0] == 'agg':
        for k, x in enumerate(own.val[4]):
            if x[0] not in ('int', 'agg') : vals.setdefault(x, ('F', k))
    def norm(t):
        if not isinstance(t, tuple) or not t: return t
        if own is None and t[0] == 'elem' and t[1][0] == 'cat':
            # an element of what was collected
            for x in t[1][1]:
                if x[0] == 'one' and x[1][0] == 'stored' and x[1][1] in regs: return x[1]
        t2 = t
        if own is None and t[0] in ('fld', 'shared', 'deref'): t2 = tuple(norm(x) if isinstance(x, tuple) else x for x in t)
        t = t2
        if own is not None and t in vals: return vals[t]
        if t[0] == 'fld' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'deref' and t[1][1][0] == 'stored' and t[1][1][1] in regs: return ('F', t[3])
        if t[0] == 'fld' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'stored' and t[1][1] in regs: return ('F', t[3])
        if t[0] == 'shared':
            r = loc_root(t[1])
            if r is not None and (own is not None and r == own.H or r[0] == '*' and own is None and any(x[0] == 'stored' and x[1] in regs for x in subterms(r[1]))): return ('S', proj_key(t[1][2]))
            f = norm(t[1])
            if isinstance(f, tuple) and f and f[0] == 'F': return ('S', f)
        if t[0] == 'call' and len(t) == 4: return ('call', t[1], tuple(norm(x) if isinstance(x, tuple) else x for x in t[2]))
        return tuple(norm(x) if isinstance(x, tuple) else x for x in t)
    return tuple(x if isinstance(x, int) else norm(x) for x in ts)

LABELS = {'id': 'id', 'addr': 'addr', 'laddr': 'laddr', 'fd': 'fd'}

def check_N06(M, R):
    """The lines CLIENT INFO answers and the ones CLIENT LIST collects are the
    same function of the record: with the fields of the record in place of the
    values, the sets of lines of all paths are equal; and in each the values
    after the labels id, addr, laddr, fd and name are the fields of the record
    which hold them."""
    if not anchors_n(M, R) or not has_registry(M, R): return
    info = {}; lst = {}
    fields = None
    for i in by_cmd(M).get(('client', 'info'), []):
        own = own_of(M, i.r.unit)
        rep = i.reply()
        if own is None: R.unk('the record of the connection is not known'); continue
        fields = own.fields()
        if rep[0] != 'ok' or rep[1][0] == 'error':
            if rep[0] == 'unk': R.unk('a reply of CLIENT INFO which is not understood')
            continue
        if rep[1][0] not in ('simple', 'bulk'): R.unk('CLIENT INFO answers a %s' % rep[1][0]); continue
        s = line_shape(M, own, unmap(list(rep[1][1])), i.st)
        info.setdefault(s, (rep[1][0], site_of(i.r)))
    regs = registry_maps(M)
    infos = [Info(M, r) for r in M.requests()]
    for i in infos:
        if not (i.name == 'client' and i.sub == 'list'): continue
        for e in i.r.ev:
            if e[0] != 'push': continue
            v = e[1]
            if not (v[0] == 'agg' and v[1] == 'adt' and v[3] in ('Simple', 'Bulk', 'Error') and len(v[4]) == 1): continue
            s = line_shape(M, None, unmap(tokens(v[4][0])), i.st)
            lst.setdefault(s, (v[3].lower(), where(e)))
    if not info: R.unk('no line of CLIENT INFO is understood'); return
    if not lst: R.unk('no line of CLIENT LIST is understood')
    for what, d in (('INFO', info), ('LIST', lst)):
        for s, (kind, site) in d.items():
            lab_ = labelled(s)
            got = {l: t for l, t in lab_ if l}
            odd = [t for l, t in lab_ if not l]
            for name in ('id', 'addr', 'laddr', 'fd'):
                t = got.get(name)
                if t is None:
                    const = bytes(x if isinstance(x, int) else 0 for x in s)
                    if odd or any(unknown_in(x) for x in s if isinstance(x, tuple)): R.unk('CLIENT %s: no value seen after %s=' % (what, name))
                    else: R.bad('%s:missing:%s' % (what, name), 'a line of CLIENT %s has no %s=<value>: %s' % (what, name, show_line(s)), site)
                    continue
                p = plain(t)
                if p[0] == 'F':
                    r = fields.get(p[1]) if fields else None
                    if r == name: R.hold('CLIENT %s: %s is after its label' % (what, name), show_line(s))
                    elif r is None: R.unk('what the field after %s= holds is not understood' % name) if fields is None or p[1] not in fields else R.bad('%s:label:%s' % (what, name), 'CLIENT %s writes something else after %s= (%s)' % (what, name, show_line(s)), site)
                    else: R.bad('%s:label:%s' % (what, name), 'CLIENT %s writes the %s after %s=' % (what, r, name), site)
                elif p[0] == 'text' and p[1] in ('hex', 'display+pad', 'debug+pad') and p[2][0] == 'F': R.bad('%s:form:%s' % (what, name), 'CLIENT %s writes %s in another form after its label (%s)' % (what, name, p[1]), site)
                elif unknown_in(p): R.unk('CLIENT %s: what is written after %s= is not understood: %s' % (what, name, pt.pt(p, 4)[:80]))
                else: R.bad('%s:label:%s' % (what, name), 'CLIENT %s writes %s after %s=' % (what, pt.pt(p, 4)[:80], name), site)
            # the name: its bytes, or nothing
            t = got.get('name')
            if t is not None:
                n = plain(t)
                if n[0] == 'fld' and n[1][0] == 'S' or n[0] == 'S': R.hold('CLIENT %s: the name is after its label' % what, show_line(s))
                elif mentions(n, lambda x: x[0] == 'call' and x[1] in CUTS): R.bad('%s:cut:name' % what, 'CLIENT %s writes a part of the name after name= (%s)' % (what, pt.pt(n, 4)[:80]), site)
                elif n[0] == 'text' and n[1] in ('display+cut', 'display+pad', 'debug') and n[2] not in (EMPTY, ('str', '')): R.bad('%s:form:name' % what, 'CLIENT %s writes the name in another form after name= (%s)' % (what, n[1]), site)
                elif n[0] == 'F' or not unknown_in(n): R.bad('%s:label:name' % what, 'CLIENT %s writes something else after name= (%s)' % (what, show_line(s)), site)
                else: R.unk('CLIENT %s: what is written after name= is not understood: %s' % (what, pt.pt(n, 4)[:80]))
            elif b'name=' in bytes(x for x in s if isinstance(x, int)) or odd: R.hold('CLIENT %s: a line without a name' % what, show_line(s))
            else: R.bad('%s:missing:name' % what, 'a line of CLIENT %s has no name=: %s' % (what, show_line(s)), site)
        named = [s for s in d if any(isinstance(x, tuple) and mentions(x, lambda t: t[0] == 'S') for x in s)]
        if d and not named:
            if any(isinstance(x, tuple) and unknown_in(x) for s in d for x in s): R.unk('CLIENT %s: where the name is read is not seen' % what)
            else: R.bad('%s:noname' % what, 'no path of CLIENT %s writes the name of a connection' % what, list(d.values())[0][1])
    if lst:
        a, b = set(info), set(lst)
        if a == b: R.hold('the lines of CLIENT INFO and CLIENT LIST are the same', '%d shapes: %s' % (len(a), '; '.join(map(show_line, a))[:200]))
        else:
            d = sorted(a ^ b, key=lambda s: repr(s))
            if any(isinstance(x, tuple) and unknown_in(x, allow=()) and not x[0] == 'dec' for s in d for x in s): R.unk('the lines of CLIENT INFO and CLIENT LIST could not be compared: %s' % '; '.join(map(show_line, d))[:300])
            else: R.bad('differ', 'CLIENT INFO and CLIENT LIST describe a connection differently: %s is only answered by %s' % (show_line(d[0]), 'INFO' if d[0] in a else 'LIST'), (info.get(d[0]) or lst.get(d[0]))[1])

def show_line(s):
    out = ''
    for x in s: out += chr(x) if isinstance(x, int) and 32 <= x < 127 else '<%s>' % pt.pt(x, 4)[:30]
    return out

# ---------------------------------------------------------------- N07
def config_fields(M, t):
    """[(struct, field)] of the configuration a value comes from"""
    out = []
    def f(x):
        if x[0] == 'fld' and x[2] is None and isinstance(x[3], int) and x[1][0] == 'fld' and x[1][2] == 'Ok' and x[1][1][0] == 'call' and 'deserialize' in x[1][1][1].lower():
            for a in M.F.adts.values():
                if a.get('local') and len(a['variants']) == 1 and 'bind_addr' in a['variants'][0]['fields'] and not a['path'].endswith('ServerConfig') and x[3] < len(a['variants'][0]['fields']):
                    out.append((a['path'], a['variants'][0]['fields'][x[3]]))
        return False
    mentions(t, f)
    return out

def check_N07(M, R):
    """Between accepting a connection and serving it, every path has compared
    something with the configured limit."""
    if not anchors_n(M, R): return
    # the place of the limit
    lim = set()
    for u in M.W.units:
        for kind, v, st in u.paths():
            for e in all_events(st):
                if e[0] == 'new' and any('max_connection' == f or 'limit' in f for _, f in config_fields(M, e[3])): lim.add(e[2])
            break
    def about(t): return mentions(t, lambda x: x in lim or (x[0] == 'fld' and any(f == 'max_connection' or 'limit' in f for _, f in config_fields(M, x))))
    read = 0; served = []
    for u in accept_units(M):
        for kind, v, st in u.paths():
            ev = own_events(u, st)
            j = [x for x, e in enumerate(ev) if e[0] == 'awaited' and e[1] == 'accept']
            if not j or not any(e[0] == 'spawn' for e in ev[j[-1]:]): continue
            looked = [e for e in ev if e[0] in ('atomic', 'lock') and about(e[2])]
            fs = [k for k in st.facts if k[0] in ('cmp', 'pred', 'atomicres') and about(k)]
            served.append((st, looked, fs, last_site(ev)))
            if fs: R.hold('the limit is compared with before a connection is served', pt.pt(fs[0], 4))
            elif looked: R.unk('the limit is read, what for is not understood')
    bad = [x for x in served if not x[1] and not x[2]]
    if bad and len(bad) == len(served):
        R.bad('limit-never-consulted:ServerConfig.connections_limit', 'connections are served without the configured limit ever being read', bad[0][3])
    elif bad:
        R.unk('a path serves a connection without looking at the limit')
    if not served: R.unk('no path which serves a connection')

# ---------------------------------------------------------------- N08
def cpus_term(t):
    """is it the number of CPUs?"""
    calls = [x[1] for x in subterms(t) if x[0] == 'call']
    return any('available_parallelism' in c or 'num_cpus' in c for c in calls) and t[0] in ('call', 'fld', 'cast', 'dec')

def cpus_mod(t):
    """an index taken modulo the number of CPUs"""
    return t[1] == 'Rem' and t[2][0] == 'phi' and cpus_term(t[3])

def shared_cpus(op, n):
    """does the operation give several small indices the same CPU?"""
    if op == 'Rem': return n < 1024
    if op == 'BitAnd': return n & 1023 != 1023
    if op == 'BitOr': return n != 0
    if op == 'Div': return n > 1
    if op == 'Shr': return n > 0
    return False

def check_N08(M, R):
    """The address every worker listens on is the one of the configuration; the
    loop which starts the workers runs an index from 0 to the number of CPUs, one
    thread each, with no path which skips one; each worker binds itself to the
    CPU of its index before it listens; main returns only when the threads it
    started have all been joined."""
    if not anchors_n(M, R): return
    acc = accept_units(M)
    mains = [u for u in M.W.units if u.kind == 'main']
    # a. the address
    for u in acc:
        seen = set()
        for kind, v, st in u.paths():
            ev = own_events(u, st)
            b = [e for e in ev if e[0] == 'ext' and e[1].split('::')[-1] in ('bind', 'bind_with_config', 'from_std', 'bind_unix')]
            if not b:
                b = [e for e in base_events(u) if e[0] == 'ext' and e[1].split('::')[-1] in ('bind', 'bind_with_config')]
            if not b: R.unk('where a worker listens is not seen'); continue
            e = b[-1]; a = same_addr(e[2][0])
            if (e[1], a) in seen: continue
            seen.add((e[1], a))
            # several workers listen on the same address
            if e[1].endswith('bind_with_config') and len(e[2]) > 1:
                ru = [x for x in subterms(e[2][-1]) if x[0] == 'call' and x[1].endswith('::reuse_port') and len(x[2]) > 1]
                outer = [x for x in ru if not any(y is not x and x in subterms(y) for y in ru)]
                if outer and plain(outer[0][2][1]) == I(0): R.bad('shared:%s' % u.kind, 'a worker does not let the others listen on the same address', where(e))
                elif outer and plain(outer[0][2][1])[0] != 'int': R.unk('whether the workers may listen on the same address is not understood')
                else: R.hold('several workers may listen on the same address')
            f = config_fields(M, a)
            if a[0] == 'fld' and [x for x in f if x[1] == 'bind_addr'] and config_fields(M, a[1]) == []: R.hold('a worker listens on the configured address', pt.pt(a, 3))
            elif a[0] == 'fld' and f: R.bad('addr:%s' % u.kind, 'a worker listens on %s of the configuration' % f[0][1], where(e))
            elif not f and not [x for x in subterms(a) if x[0] == 'phi'] and not unknown_call(a, ADDR_CALLS): R.bad('addr:%s' % u.kind, 'a worker listens on %s, which is not the configured address' % pt.pt(a, 5)[:160], where(e))
            elif a[0] == 'call' and a[1] == 'SocketAddr::new' and len(a[2]) == 2 and plain(a[2][1])[0] in ('int', 'lin'): R.bad('addr:%s' % u.kind, 'a worker listens on the port %s, not on the configured one' % pt.pt(a[2][1], 6)[:160], where(e))
            elif f and not unknown_call(a, ADDR_CALLS): R.bad('addr:%s' % u.kind, 'a worker listens on %s, not on the configured address' % pt.pt(a, 6)[:200], where(e))
            else: R.unk('the address a worker listens on is not understood: %s' % pt.pt(a, 4)[:120])
    # b. the CPUs
    idxs = []
    for u in acc:
        got = None
        for kind, v, st in u.paths():
            ev = own_events(u, st)
            b = [(x, e) for x, e in enumerate(ev) if e[0] == 'ext' and ('bind_to_cpu' in e[1] or 'set_for_current' in e[1] or 'affinity' in e[1])]
            l = [x for x, e in enumerate(ev) if e[0] == 'awaited' and e[1] == 'accept']
            if not b:
                R.bad('unbound:%s' % u.kind, 'a worker serves without being bound to a CPU', last_site(ev)); continue
            x, e = b[0]
            if l and l[0] < x: R.bad('unbound:%s' % u.kind, 'a worker is bound to its CPU only once it serves', where(e)); continue
            got = (e[2][0], e)
        if got: idxs.append((u, got[0], got[1]))
    phis = {}
    for u, a, e in idxs:
        t = a
        while t[0] == 'agg' and t[1] == 'adt' and t[3] == 'Some' or t[0] in ('cast',) or (t[0] == 'cat' and len(t[1]) == 1) or t[0] == 'one':
            t = t[4][0] if t[0] == 'agg' else (t[1][0] if t[0] == 'cat' else t[1])
        if t[0] == 'agg' and t[3] == 'None': R.bad('unbound:%s' % u.kind, 'a worker is bound to no CPU', where(e)); continue
        ph = [x for x in subterms(t) if x[0] == 'phi']
        if t[0] == 'phi': phis[t] = (u, e)
        elif ph and t[0] == 'lin': R.bad('cpu:%s' % u.kind, 'a worker is bound to CPU %s, not to its own' % pt.pt(t, 4), where(e)); phis[ph[0]] = (u, e)
        elif t[0] == 'int':
            if len(idxs) == 1 or all(x[1] == a for x in idxs): R.bad('cpu:%s' % u.kind, 'every worker is bound to CPU %d' % t[1], where(e))
            elif t[1] != 0: R.bad('cpu:%s' % u.kind, 'the first worker is bound to CPU %d' % t[1], where(e))
            else: R.hold('the first worker is bound to CPU 0', pt.pt(a, 3))
        elif t[0] == 'bin' and t[1] in ('Rem', 'BitAnd') and ph and cpus_mod(t): R.hold('each worker is bound to the CPU of its index', pt.pt(t, 4)); phis[ph[0]] = (u, e)
        elif t[0] == 'bin' and len(ph) == 1 and ph[0] in t[2:] and t[3][0] == 'int' and shared_cpus(t[1], t[3][1]): R.bad('cpu:%s' % u.kind, 'several workers are bound to the same CPU: %s' % pt.pt(t, 4), where(e)); phis[ph[0]] = (u, e)
        elif [x for x in subterms(t) if x[0] == 'anyelem']: R.hold('each worker is bound to an element of what is gone through', pt.pt(t, 4))
        else: R.unk('the CPU of a worker is not understood: %s' % pt.pt(t, 4)[:100])
    for u in mains:
        paths = list(u.paths())
        spawns = [(k, st) for k, (kind, v, st) in enumerate(paths) if any(e[0] == 'spawn' and e[1] == 'thread' for e in own_events(u, st))]
        if not spawns and not gathered(M, R, paths, u, idxs): R.unk('where the workers are started is not seen'); continue
        for p, (tu, te) in phis.items():
            fn, head, root = p[1][0], p[1][1], p[1][2]
            n = None
            for kind, v, st in paths:
                for k, f in st.facts.items():
                    if k[0] == 'cmp' and k[1] in ('lt', 'eq', 'le') and p in k[2:]:
                        x = [y for y in k[2:] if y != p]
                        if x: n = x[0]
            if n is None: R.unk('how many workers are started is not understood'); continue
            if cpus_term(n): R.hold('as many workers as CPUs', pt.pt(n, 5))
            elif n[0] == 'int' or n[0] == 'lin' and any(cpus_term(b) for b, c in n[2]) and not unknown_in(n, ): R.bad('count', 'the number of workers is %s, not that of the CPUs' % pt.pt(n, 5), where(te)); 
            elif [x for x in subterms(n) if cpus_term(x)] and n[0] in ('lin', 'call', 'min', 'max', 'bin'): R.bad('count', 'the number of workers is %s, not that of the CPUs' % pt.pt(n, 6)[:120], where(te))
            else: R.unk('the number of workers is not understood: %s' % pt.pt(n, 4)[:100])
            for k, (kind, v, st) in enumerate(paths):
                if kind == 'back':
                    stk, h, _ = u.backs[k - len(u.rets)]
                    if (stk[-1], h) != (fn, head): continue
                    ev = own_events(u, st)
                    pos = [x for x, e in enumerate(ev) if e[0] in ('enter', 'loop') and e[1] == (fn, head)]
                    ev = ev[pos[-1]:] if pos else ev
                    ns = sum(1 for e in ev if e[0] == 'spawn' and e[1] == 'thread')
                    ahead = started_later(M, u, paths, fn, head, p, ev, st) if ns == 0 else None
                    if ahead: R.hold('one worker for each index', ahead)
                    elif ns == 0 and any(e[0] == 'push' for e in ev) and ahead is None: R.unk('how the workers prepared by a loop are started is not followed')
                    else: R.ob(ns == 1, 'one worker for each index', 'skip', 'a path through the loop which starts the workers starts %d' % ns, last_site(ev))
                    cur = value_at(st, root, p[2])
                    if cur is not None and mentions(cur, lambda t: t == p): R.ob(cur == add(p, I(1)), 'the index goes up by one', 'step', 'the index of the workers goes from %s to %s' % (pt.pt(p, 3), pt.pt(cur, 3)), last_site(ev))
                elif kind == 'ret' and v is not None and v[0] == 'agg' and v[3] == 'Ok' and any(k2[0] == 'cmp' and p in k2[2:] for k2 in st.facts):
                    over = any(k2 == ('cmp', 'lt', p, n) and f2 in (0, False) for k2, f2 in st.facts.items())
                    R.ob(over or M.E.prove_ge0(st, sub(p, n)) or None, 'the loop ends only at the last index', 'exit', 'how the loop which starts the workers ends is not understood')
        # c. main waits
        joins = [(k, e) for k, (kind, v, st) in enumerate(paths) for e in own_events(u, st) if e[0] == 'ext' and e[1].split('::')[-1] in ('join', 'park', 'wait', 'scope', 'recv', 'ctrl_c')]
        if not joins:
            waits = [e for kind, v, st in paths for e in own_events(u, st) if e[0] in ('recv', 'await', 'lock', 'io', 'awaited')]
            if any(kind == 'ret' and v is not None and v[0] == 'agg' and v[3] == 'Ok' for kind, v, st in paths) and not waits:
                R.bad('nojoin', 'main returns without waiting for the workers: the process ends', u.site or 'main')
            else: R.unk('what main waits for is not understood')
            continue
        for k, (kind, v, st) in enumerate(paths):
            ev = own_events(u, st)
            js = [(x, e) for x, e in enumerate(ev) if e[0] == 'ext' and e[1].split('::')[-1] == 'join']
            if kind == 'ret' and v is not None and v[0] == 'agg' and v[3] == 'Ok':
                fe = [x for x, e in enumerate(ev) if e[0] == 'enter' and e[1][0] == 'for_each']
                if js and fe and any(e[0] == 'spawn' and e[1] == 'thread' for e in ev[fe[-1]:js[-1][0]]):
                    # (what the closure starts stands for what each round of it starts)
                    R.ob(True if any(e[0] == 'enter' for e in ev[fe[-1] + 1:js[-1][0]]) else None, 'each of the threads is waited for', 'early', 'which of the workers main waits for is not followed'); continue
                if js and not in_closure(ev, js[-1][0]) and not any(x[0] == 'anyelem' for x in subterms(('x',) + tuple(y for y in js[-1][1][2] if isinstance(y, tuple)))):
                    R.bad('early', 'main can return while workers are still running: it leaves after %s' % where(js[-1][1]), where(js[-1][1])); continue
                # what was gone through is over
                its = [(kk, f) for kk, f in st.facts.items() if kk[0] == 'discr' and kk[1][0] == 'nextres' and f in (0,)]
                R.hold('main returns once what it waits for is over', '%d iterations over' % len(its))
            elif kind == 'back' and js:
                x, e = js[-1]
                a = e[2][0]
                src = [t for t in subterms(a) if t[0] == 'elem']
                if src: 
                    s0 = src[0][1]
                    odd = [t for t in subterms(a) if t[0] == 'call' and t[1].split('::')[-1] in ('take', 'skip', 'step_by', 'filter')]
                    if odd: R.bad('some', 'main waits for some of the workers only', where(e))
                    else: R.hold('each of the threads is waited for', pt.pt(a, 4))
                else: R.hold('a thread is waited for', pt.pt(a, 4))
        # every thread started is kept
        for k, (kind, v, st) in enumerate(paths):
            if kind != 'back': continue
            ev = own_events(u, st)
            sp = [(x, e) for x, e in enumerate(ev) if e[0] == 'spawn' and e[1] == 'thread']
            if not sp: continue
            stk, h, _ = u.backs[k - len(u.rets)]
            x, e = sp[-1]
            kept = any(y[0] == 'push' and mentions(y[1], lambda t: t[0] == 'task' and t[-1] == e[3]) for y in ev[x:])
            mem = any(mentions(v2, lambda t: t[0] == 'task' and t[-1] == e[3]) for v2 in st.mem.values())
            if kept or mem: R.hold('the handle of a worker is kept', where(e))
            elif any(y[0] == 'ext' and y[1].split('::')[-1] == 'join' for y in ev[x:]): R.bad('serial', 'a worker is waited for before the next one is started', where(e))
            else: R.bad('dropped', 'the handle of a worker is dropped: nothing waits for it', where(e))

CUTS = {'Iterator::take', 'Iterator::skip', 'Iterator::step_by', 'Iterator::take_while', 'Iterator::skip_while'}

def gathered(M, R, paths, u, idxs):
    """workers started by the closure of an iterator over a range of indexes"""
    bodies = [b for kind, v, st in paths for e in own_events(u, st) if e[0] == 'collectbody' for b in [[y for y in e[1] if y[0] == 'spawn' and y[1] == 'thread']] if b]
    if not bodies: return False
    if any(len(b) != 1 for b in bodies): R.bad('skip', 'a step which starts the workers starts %d' % max(len(b) for b in bodies), where(bodies[0][0])); return True
    R.hold('one worker for each index', where(bodies[0][0]))
    for tu, a, te in idxs:
        for x in subterms(a):
            if x[0] != 'anyelem': continue
            r = x[1]
            if r[0] == 'filtiter':
                # left out by a comparison of the index with a constant
                tests = [c for c in subterms(r[3]) if c[0] == 'cmp' and c[1] in ('lt', 'le') and any(y[0] == 'int' for y in c[2:]) and any(y == r[2] or y[0] == 'anyelem' for y in c[2:])]
                if tests and any(c[3][0] == 'int' for c in tests): R.bad('skip', 'no worker is started from CPU %s on' % pt.pt(tests[0], 3), where(te))
                else: R.unk('which workers are started is not understood')
                continue
            if r[0] != 'agg' or r[2].split('::')[-1] != 'Range' or len(r[4]) < 2: R.unk('how many workers are started is not understood'); continue
            lo, n = r[4][:2]
            if lo[0] == 'int' and lo != I(0): R.bad('count', 'the first worker has the index %d: there are fewer workers than CPUs' % lo[1], where(te))
            elif lo == I(0) and cpus_term(n): R.hold('as many workers as CPUs', pt.pt(n, 5))
            elif n[0] == 'int' or [y for y in subterms(n) if cpus_term(y)] and n[0] in ('lin', 'call', 'min', 'max', 'bin'): R.bad('count', 'the number of workers is %s, not that of the CPUs' % pt.pt(n, 5), where(te))
            else: R.unk('the number of workers is not understood: %s' % pt.pt(n, 4)[:100])
    return True

def started_later(M, u, paths, fn, head, p, ev, st):
    """a loop which prepares the workers in a vector, and another which starts
    each of them: True when there is one worker for each index, False when not,
    None when this is not followed"""
    pushed = [e for e in ev if e[0] == 'push']
    if len(pushed) != 1: return None
    vecs = [r for r, v in st.mem.items() if v[0] == 'cat' and v[1] and v[1][-1] == ('one', pushed[0][1]) and (len(v[1]) == 1 or v[1][0][0] == 'phi' and v[1][0][1][:3] == (fn, head, r))]
    if len(vecs) != 1: return None
    n = set()
    for k, (kind, v2, s2) in enumerate(paths):
        if kind != 'back': continue
        stk, h, _ = u.backs[k - len(u.rets)]
        if (stk[-1], h) == (fn, head): continue
        ev2 = own_events(u, s2)
        pos = [x for x, e in enumerate(ev2) if e[0] in ('enter', 'loop') and e[1] == (stk[-1], h)]
        its = [v for v in s2.mem.values() if v[0] == 'iter' and (v[1][1] if v[1][0] == 'upto' else v[1])[0] == 'phi' and (v[1][1] if v[1][0] == 'upto' else v[1])[1][:3] == (fn, head, vecs[0])]
        if not its or not pos: continue
        if len(its) != 1: return None
        if its[0][1][0] == 'upto' and not cpus_term(its[0][1][2]):
            if its[0][1][2][0] == 'int': return False
            return None
        inst = M.E.entries[ev2[pos[-1]][2]][1]
        at = [x for x in subterms(its[0][2]) if x[0] == 'phi' and x[1][:2] == (stk[-1], h) and x[1][3] == inst]
        if its[0][2] != I(1) and (len(at) != 1 or sub(its[0][2], at[0]) != I(1)): return None
        n.add(sum(1 for e in ev2[pos[-1]:] if e[0] == 'spawn' and e[1] == 'thread'))
    if not n: return None
    return n == {1}

def value_at(st, root, proj):
    v = st.mem.get(root)
    for p in proj:
        if v is None: return None
        if p[0] == 'f' and v[0] == 'agg' and p[1] < len(v[4]): v = v[4][p[1]]
        else: return None
    return v

ADDR_CALLS = ('new', 'ip', 'port', 'set_port', 'set_ip', 'from', 'into', 'clone', 'try_deserialize', 'build', 'add_source', 'builder', 'with_name', 'with_prefix', 'try_parsing', 'separator', 'with_context', 'var', 'unwrap', 'v4', 'parse', 'from_str')
def unknown_call(t, known):
    return any(x[0] in ('phi', 'indirect', 'undef', 'havoc', 'gone', 'proj') or x[0] == 'call' and x[1].split('::')[-1] not in known for x in subterms(t))

def same_addr(a):
    while a[0] in ('dec', 'cast') and isinstance(a[1], tuple): a = a[1]
    if a[0] == 'call' and a[1].split('::')[-1] == 'new' and len(a[2]) == 2 or a[0] == 'agg' and a[1] == 'tuple' and len(a[4]) == 2:
        p, q = a[2] if a[0] == 'call' else a[4]
        if p[0] == 'call' and q[0] == 'call' and p[1].endswith('ip') and q[1].endswith('port') and p[2][:1] == q[2][:1]: return p[2][0]
    return a
