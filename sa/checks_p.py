"""P: what bytes sent by a client can do to the server before they are a
command: panics, recursion, memory, the buffer, the two grammars, the end of
the stream."""
from checks import *
from checks_n import all_events, last_site, after_accept, value_at, plain, in_closure, flat

DECODERS = ('Frame::check', 'Frame::parse')

# ---------------------------------------------------------------- standalone
def alone(M, bid):
    """the unit of a function run alone, on unknown arguments, and what has to
    be proved in it"""
    if not hasattr(M, '_alone'): M._alone = {}
    if bid in M._alone: return M._alone[bid]
    W2 = lib.world.World.__new__(lib.world.World)
    W2.__dict__.update(M.W.__dict__); W2.units = []; W2.notes = []
    E = M.E; n = len(E.oblig); peel = E.opts.get('peel'); E.opts['peel'] = False
    u = W2.run_fn(None, bid=bid, name=M.F.bodies[bid]['path'])
    E.opts['peel'] = peel
    obs = E.oblig[n:]; del E.oblig[n:]
    if W2.notes: M.notes += W2.notes
    M._alone[bid] = (u, obs)
    return M._alone[bid]

def rec_targets(u):
    return {e[1] for k, v, st in u.paths() for e in st.events() if e[0] == 'rec'}

class Dec:
    """one of the two walks over a message, from a position within bytes"""
    def __init__(self, M, bid):
        self.M = M; self.bid = bid
        self.u, self.obs = alone(M, bid)
        b = M.F.bodies[bid]; nm = b['path']
        self.B = ('sym', nm + '.buf'); self.P = ('sym', nm + '.pos')
        self.cur = None
        for a in self.u.args:
            if a[0] == 'ref' and a[1][0] == 'H' and a[1][1] == 'arg' and a[1][2][2] == 1:
                self.cur = a[1]; break
        self.recs = rec_targets(self.u)
        self.paths = []
        if self.cur is None: return
        nr = len(self.u.rets)
        for i, (kind, v, st) in enumerate(self.u.paths()):
            p = DPath(self, kind, v, st, None if kind == 'ret' else self.u.backs[i - nr])
            if not p.infeasible: self.paths.append(p)

class DPath:
    def __init__(self, d, kind, v, st, back):
        self.d = d; self.kind = kind; self.v = v; self.st = st; self.back = back
        self.ev = st.events(); self.infeasible = False
        B, P = d.B, d.P
        def is_b(t):
            while t[0] in ('deref', '*') and isinstance(t[1], tuple): t = t[1]
            return t == B
        at = {}; texts = {}
        for k, f in st.facts.items():
            if k[0] == 'idx':
                x, y = k[1], k[2]
                while x[0] in ('deref', '*', 'sl') and isinstance(x[1], tuple) and not is_b(x):
                    if x[0] == 'sl': y = add(x[2], y)
                    x = x[1]
                if is_b(x): at[y] = f
            elif k[0] == 'strval' and f[0] == 'is' and k[1][0] == 'sl' and is_b(k[1][1]):
                for j, c in enumerate(f[1].encode()): texts[add(k[1][2], I(j))] = c
        for y, c in texts.items():
            if not isinstance(at.get(y), int): at[y] = c
        f = at.get(P)
        self.T = f if isinstance(f, int) else None
        self.notT = f[1] if isinstance(f, tuple) and f[0] == 'ne' else None
        self.ks = [k for k, f in at.items() if f == 13 and at.get(add(k, I(1))) == 10]
        self.sub = {B: ('B',), ('deref', B): ('B',), P: ('P',)}
        self.kback = {}      # where a search of the bytes ended, and the position this is
        # the position a search of the bytes ended at: from where it started,
        # and what it found there
        for k in at:
            for y in ([k] if k[0] == 'phi' else [y for y, c in lin_of(k)[1].items() if c == 1 and y[0] == 'phi']):
                if y in self.sub: continue
                ini = self.init(y)
                if ini is None: continue
                pat = {}
                for k2, f2 in at.items():
                    o = sub(k2, y)
                    if o[0] == 'int' and isinstance(f2, int): pat[o[1]] = f2
                if pat:
                    self.sub[y] = ('K', renorm(ini, self.sub), tuple(sorted(pat.items())))
                    self.kback[self.sub[y]] = y
        # the same by a function of the library
        for k in at:
            for y in [y for y, c in lin_of(k)[1].items() if c == 1 and y[0] == 'posof' and y not in self.sub]:
                lo, x = I(0), y[1]
                if x[0] == 'iter': lo, x = x[2], x[1]
                elif x[0] == 'windows': x = x[1]
                else: continue
                if lo is None or isinstance(lo, tuple) is False: continue
                while x[0] in ('deref', '*', 'sl') and isinstance(x[1], tuple) and not is_b(x):
                    if x[0] == 'sl': lo = add(x[2], lo)
                    x = x[1]
                if not is_b(x): continue
                here = add(lo, y); pat = {}
                for k2, f2 in at.items():
                    o = sub(k2, here)
                    if o[0] == 'int' and isinstance(f2, int): pat[o[1]] = f2
                if pat:
                    K = ('K', renorm(lo, self.sub), tuple(sorted(pat.items())))
                    self.sub[y] = sub(K, renorm(lo, self.sub)); self.kback[K] = here
        # the text of a line which is known gives its length
        for k, f in st.facts.items():
            if k[0] == 'strval' and f[0] == 'is' and k[1][0] == 'sl' and is_b(k[1][1]):
                hi = add(k[1][2], I(len(f[1].encode())))
                gap = sub(k[1][3], hi)
                if gap[0] == 'int':
                    if gap[1]: self.infeasible = True
                elif k[1][3] in self.sub: self.sub[k[1][3]] = hi
                else:
                    for y, n in lin_of(k[1][3])[1].items():
                        if n == 1 and y in self.sub and y[0] == 'posof': self.sub[y] = renorm(sub(hi, sub(k[1][3], y)), {x: v for x, v in self.sub.items() if x != y})
        c = st.mem.get(d.cur)
        self.pos = c[4][1] if c is not None and c[0] == 'agg' and len(c[4]) > 1 else None
        self.recs = [e for e in self.ev if e[0] == 'rec']
        self.out = None
        if kind == 'ret' and v is not None and v[0] == 'agg':
            self.out = v[3]
            if v[3] == 'Err':
                e = v[4][0] if v[4] else None
                self.out = 'Incomplete' if e is not None and e[0] == 'agg' and e[3] == 'Incomplete' else 'Err'
    def norm(self, t):
        return renorm(t, self.sub)
    def group(self):
        """which case of the search of a line the path is: the first position
        tried, or any other"""
        return tuple(self.sub.get(k, 'K') if k[0] == 'phi' else renorm(k, self.sub) for k in self.ks)
    def entered(self, phi):
        """the state a loop was entered with"""
        w = phi[1]
        for e in reversed(self.ev):
            if e[0] in ('enter', 'loop') and e[1] == w[:2] and len(e) > 2:
                st, inst = self.d.M.E.entries[e[2]]
                if inst == w[3]: return st
        return None
    def init(self, phi):
        st = self.entered(phi)
        return None if st is None else at_place(self.d.M.E, st, phi)

def at_place(E, st, phi):
    """what stands in a state where the value of a loop stands"""
    v = st.mem.get(phi[1][2])
    if v is None: return None
    for x in phi[2]: v = E.project(v, x)
    return v

def renorm(t, m, depth=0):
    if not isinstance(t, tuple) or not t: return t
    r = m.get(t)
    if r is not None:
        return renorm(r, m, depth + 1) if depth < 6 and r[0] not in ('B', 'P', 'K') else r
    if t[0] == 'lin':
        out = I(t[1])
        for b, k in t[2]:
            b2 = renorm(b, m, depth)
            c, mm = lin_of(b2)
            out = add(out, mk_lin(c * k, {x: y * k for x, y in mm.items()}))
        return out
    if t[0] == 'sl' and len(t) == 4:
        x = renorm(t[1], m, depth)
        return ('sl', x, renorm(t[2], m, depth), renorm(t[3], m, depth))
    return tuple(renorm(x, m, depth) if isinstance(x, tuple) else x for x in t)

def decoders(M):
    """{name: (entry unit, obligations, [Dec of each function which recurs])}"""
    if hasattr(M, '_decs'): return M._decs
    M._decs = {}
    for name in DECODERS:
        b = M.W.find(name)
        if b is None: continue
        bids = [b['id']]; todo = [b['id']]; i = 0
        while i < len(bids):
            u, _ = alone(M, bids[i])
            for r in sorted(rec_targets(u)):
                if r not in bids and r in M.F.bodies: bids.append(r)
            i += 1
        M._decs[name] = [Dec(M, x) for x in bids]
    return M._decs

def have_decoders(M, R):
    d = decoders(M)
    okk = True
    for n in DECODERS:
        if n not in d or d[n][0].cur is None: R.unk('%s was not found, or does not read a cursor' % n); okk = False
    return okk

# ---------------------------------------------------------------- P01
INPUT = ('recvres', 'recret', 'elem', 'stored', 'strpart')
def from_input(t, syms=()):
    return isinstance(t, tuple) and mentions(t, lambda x: x[0] in INPUT or x in syms or x[0] == 'recv' or x[0] == 'sym' and isinstance(x[1], str) and x[1].endswith(('.buf', '.pos')))

CONTENT_PREDS = ('utf8', 'isnum')
def fuzzy(t):
    """does the term stand for something the interpreter lost track of?"""
    return mentions(t, lambda x: x[0] in ('phi', 'undef', 'havoc', 'gone', 'proj', 'eff', 'collect', 'closarg', 'itafter', 'anyelem', 'rv', 'un', 'rmw', 'readinto', 'closure'))

FALLIBLE_CALLS = ('checked_add', 'checked_sub', 'checked_mul', 'try_from', 'try_into', 'from_utf8', 'parse', 'from_str', 'from_str_radix', 'from_digit', 'to_digit', 'from_u32', 'get', 'first', 'last', 'next', 'nth', 'find', 'position', 'split_once', 'strip_prefix', 'strip_suffix', 'pop', 'max', 'min', 'checked_duration_since', 'checked_rem', 'checked_div', 'checked_pow')

def last_fact(st):
    k = None
    for k in st.facts: pass
    return k

def judge(M, o, syms=()):
    """is an obligation which is not proved a failure some input leads to?
    (True, why) / (None, why)"""
    site, kind, data, proved, st, stack = o
    if data[0] == 'ge0':
        d = data[1]; c, m = lin_of(d)
        if not from_input(d, syms) : return None, 'does not depend on the input'
        if fuzzy(d): return None, 'depends on something not followed'
        if mentions(d, lambda x: x[0] == 'call'): return None, 'depends on a call'
        # what the path knows of the same things must be understood
        for k in st.facts:
            if k[0] in ('call', 'pred') and any(mentions(k, lambda x, b=b: x == core(b)) for b in m): 
                if k[0] == 'pred' and k[1] in CONTENT_PREDS: continue
                return None, 'a test of it is not understood: %s' % pt.pt(k, 4)[:80]
        return True, '%s can be negative' % pt.pt(d, 5)
    if data[0] in ('reach', 'variant'):
        v = data[1]
        if data[0] == 'variant' and isinstance(v, tuple) and v[0] != 'agg':
            if not from_input(v, syms): return None, 'does not depend on the input'
            if fuzzy(v): return None, 'depends on something not followed'
            if v[0] == 'call' and v[1].split('::')[-1] not in FALLIBLE_CALLS: return None, 'whether %s can fail is not known' % v[1]
            a = v[2][0] if v[0] == 'call' and v[2] else v
            if v[0] == 'call' and v[1].split('::')[-1] not in ('from_utf8', 'parse', 'from_str', 'from_str_radix', 'try_from', 'try_into'):
                for k in st.facts:
                    if mentions(k, lambda x: x == core(a)) and k[0] != 'discr' and not (k[0] == 'pred' and k[1] in CONTENT_PREDS): return None, 'what was tested before may exclude it: %s' % pt.pt(k, 4)[:80]
            return True, '%s can be otherwise' % pt.pt(v, 5)
        k = last_fact(st)
        if k is None: return None, 'the condition is not known'
        # the deciding fact: the last one which the path took
        if not from_input(k, syms): return None, 'the last condition does not depend on the input: %s' % pt.pt(k, 4)[:80]
        if fuzzy(k) : return None, 'the last condition is not followed'
        if mentions(k, lambda x: x[0] == 'call' and isinstance(x[1], str) and x[1].split('::')[-1] not in FALLIBLE_CALLS and not x[1].startswith(KNOWN)): return None, 'the last condition depends on a call'
        return True, 'reached when %s is %s' % (pt.pt(k, 5)[:140], st.facts[k])
    if data[0][0] in ('cmp', 'ovf') and isinstance(data[1], bool):
        w = witness(M, st, data[0], not data[1], syms)
        if w is True: return True, '%s can be %s' % (pt.pt(data[0], 5)[:200], 'true' if not data[1] else 'false')
        return None, w
    if data[0] == 'dur': return too_long(st, data[1], syms)
    if data[0] == 'boundary':
        c, n = data[1:]
        if not from_input(c, syms): return None, 'does not depend on the input'
        if fuzzy(c) or fuzzy(n) or mentions((c, n), lambda x: x[0] in ('call', 'posof', 'filtered', 'mapped')): return None, 'depends on something not followed'
        if not all(x == length(c) or x[0] == 'num' or x[0] == 'minof' and length(c) in x[1:] and any(is_int(y) for y in x[1:]) for x in lin_of(n)[1]): return None, 'where it is cut is not followed'
        for k in st.facts:
            if k[0] in ('call', 'pred', 'idx', 'anyelem') and mentions(k, lambda x: x == core(c)) and not (k[0] == 'pred' and k[1] in CONTENT_PREDS): return None, 'a test of it is not understood: %s' % pt.pt(k, 4)[:80]
            if k[0] == 'strval' and st.facts[k][0] == 'is' and mentions(k, lambda x: x == core(c)): return None, 'a test of it is not understood: %s' % pt.pt(k, 4)[:80]
        return True, '%s can be within a character of %s' % (pt.pt(n, 4)[:60], pt.pt(c, 5)[:120])
    return None, 'not understood'

DIVIDES = ('div_ceil', 'rem_euclid', 'div_euclid', 'div_floor', 'ilog')
UINTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize')
from models import MAXSECS
UNITS = {'secs': 1, 'millis': 10**3, 'micros': 10**6}
def too_long(st, d, syms):
    """a number of a client taken as a time which is added to the current one,
    without a bound on it"""
    while d[0] == 'conv': d = d[1]
    if d[0] != 'dur' or d[1] not in UNITS: return None, 'a time which is not followed'
    n = d[2]
    while n[0] == 'ranged': n = n[1]
    c, m = lin_of(n)
    if list(m.values()) != [1] or c < 0: return None, 'a time which is not followed'
    (n, _), = m.items()
    if not from_input(n, syms): return None, 'does not depend on the input'
    if fuzzy(n) or mentions(n, lambda x: x[0] in ('call', 'cast', 'phi', 'bin')): return None, 'depends on something not followed'
    limit = MAXSECS * UNITS[d[1]]
    for k, f in st.facts.items():
        if k[0] == 'discr' or k[0] == 'pred' and k[1] in CONTENT_PREDS + ('isnum',) or k[0] in ('strval', 'streq'): continue
        if not mentions(k, lambda x: x == n): continue
        if k[0] != 'cmp' or k[1] not in ('lt', 'eq') or not isinstance(f, int): return None, 'a test of it is not understood: %s' % pt.pt(k, 4)[:80]
        a, b = k[2], k[3]
        if k[1] == 'eq' and f == 0 and n in (a, b): continue
        if k[1] == 'lt' and (b == n and f == 1 or a == n and f == 0): continue       # only from below
        return None, 'a test of it is not understood: %s' % pt.pt(k, 4)[:80]
    for fc, fm in st.lin:
        for x, y in fm:
            if mentions(x, lambda z: z == n) and not (x == n and y > 0): return None, 'the number was tested'
    if n[0] == 'num' and n[1][0] == 'sl':
        gap = sub(n[1][3], n[1][2])
        if is_int(gap) and 10 ** gap[1] <= limit: return None, 'the number is short'
    return True, 'the number %s is added to the current time as %s, whatever it is' % (pt.pt(n, 5)[:120], d[1])

def counters(M):
    """{place: type} of the counters which requests or connections make go up and
    nothing sets back"""
    if hasattr(M, '_counters'): return M._counters
    ops = {}
    for u in M.W.units:
        for k, v, st in u.paths():
            for e in st.events():
                if e[0] == 'atomic' and len(e) > 6: ops.setdefault(e[2], set()).add((e[1], e[3][0] if e[3] else None, e[6].split('::')[-1].split('<')[-1].strip('>&')))
    M._counters = {}
    for loc, l in ops.items():
        tys = {t for _, _, t in l}
        if {o for o, _, _ in l} <= {'fetch_add', 'load'} and len(tys) == 1: M._counters[loc] = tys.pop()
    return M._counters

NARROW = {'AtomicU32': 32, 'AtomicU16': 16, 'AtomicU8': 8, 'u32': 32, 'u16': 16, 'u8': 8}
def counter_bits(M, a):
    if a[0] != 'atomic' or a[1] != 'fetch_add' or not a[3] or a[3][0][0] != 'int' or a[3][0][1] <= 0: return None
    return NARROW.get(counters(M).get(a[2]))

def witness(M, st, v, want, syms):
    """can a condition on positions, lengths and decoded numbers hold on a path?
    Decided only when all that is known of them are differences, which are then
    either contradictory (a negative cycle) or met by some bytes."""
    if v[0] == 'ovf':
        op, a, b = v[1:4]
        c, m = lin_of(a); c2, m2 = lin_of(b)
        if op in ('Add', 'Mul') and list(m.values()) == [1] and not m2 and c >= 0 and c2 > (op == 'Mul'):
            (n, _), = m.items()
            bits = counter_bits(M, n)
            if bits and ty_range(v[4])[1] < (1 << bits) and not any(mentions(k, lambda x: x == n) for k in st.facts) and not any(mentions(x, lambda y: y == n) for fc, fm in st.lin for x, y in fm): return True
            if n[0] != 'num' or n[2] not in ('u64', 'usize') or v[4] not in ('u64', 'usize'): return 'an overflow which is not followed'
            # the largest number written by a client
            if any(mentions(k, lambda x: x == n) and not (k[0] == 'pred' and k[1] in CONTENT_PREDS) for k in st.facts): return 'the number was tested'
            if any(mentions(x, lambda y: y == n) for fc, fm in st.lin for x, y in fm): return 'the number was tested'
            if ('pred', 'isnum', n[1], n[2]) not in st.facts: return 'the number was not read'
            sl = n[1]
            gap = sub(sl[3], sl[2]) if sl[0] == 'sl' else length(sl)
            if gap[0] == 'int' and gap[1] < 20: return 'the number is short'
            if sl[0] != 'sl' and any(mentions(x, lambda y: y == gap) for fc, fm in st.lin for x, y in fm): return 'the number may be short'
            return True
        return 'an overflow which is not followed'
    if v[1] != 'lt': return 'a condition which is not followed'
    a, b = v[2], v[3]
    goal = sub(sub(b, a), I(1)) if want else sub(a, b)
    L = lambda t: t[0] == 'len' and (t[1] in syms or t[1][0] in ('deref', '*') and t[1][1] in syms)
    free = lambda t: t in syms or L(t)
    cons = []
    def con(c, m):
        """c + sum of m >= 0 as an edge between two unknowns"""
        pos = [x for x, k in m.items() if k > 0]; neg = [x for x, k in m.items() if k < 0]
        if len(pos) > 1 or len(neg) > 1 or any(abs(k) != 1 for k in m.values()): return False
        x = pos[0] if pos else None; y = neg[0] if neg else None
        x = LEN if x is not None and L(x) else x; y = LEN if y is not None and L(y) else y
        cons.append((y, x, c))     # x >= y - c
        return True
    LEN = ('len', 'bytes')
    c, m = lin_of(goal)
    if not m or not all(free(x) for x in m): return 'depends on more than the position and the length'
    if not con(c, m): return 'not a difference'
    todo = {x for y in cons for x in y[:2] if x is not None}
    for fc, fm in st.lin:
        if not any(free(x) for x, k in fm): continue
        if not all(free(x) for x, k in fm): 
            # what a search stopped at lies between the position and the end
            if all(free(x) or x[0] == 'phi' for x, k in fm) and con(fc, dict(fm)): continue
            return 'depends on more than the position and the length'
        if not con(fc, dict(fm)): return 'not a difference'
    for k in st.facts:
        if k[0] in ('idx',):
            if not (k[1] in syms or k[1][0] in ('deref', '*') and k[1][1] in syms): continue
            d = sub(LEN, add(k[2], I(1)))
            if not con(*lin_of(d)): return 'a byte whose place is not followed'
        elif k[0] == 'cmp':
            if k[1] == 'eq' and any(free(x) for t in k[2:] for x in lin_of(t)[1]): return 'compared with something'
        elif k[0] == 'pred' and k[1] in CONTENT_PREDS: pass
        elif k[0] == 'strval': pass
        elif mentions(k, free) and k[0] not in ('discr', 'num'): return 'a test of it is not understood: %s' % pt.pt(k, 4)[:80]
    # no negative cycle: x >= y - c, that is y - x <= c
    nodes = {None} | {t for y in cons for t in y[:2]}
    dist = {n: 0 for n in nodes}
    cons += [(None, n, 0) for n in nodes if n is not None]      # unsigned
    for i in range(len(nodes) + 1):
        ch = False
        for y, x, c in cons:
            # edge x -> y of weight c
            if dist[x] + c < dist[y]: dist[y] = dist[x] + c; ch = True
        if not ch: return True
    return 'contradicts what the path knows'

KNOWN = lib.KNOWN if hasattr(lib, 'KNOWN') else ('str::', 'String::', 'Vec::', 'slice::')

def core(t):
    while isinstance(t, tuple) and t and t[0] in ('len', 'num', 'cast', 'dec', 'idx', 'sl', 'take', 'dropn', 'ranged') and isinstance(t[1], tuple): t = t[1]
    return t

# functions of the libraries which panic on some arguments and which the
# interpreter does not follow
PANICKY = {'str::split_at', 'slice::split_at', 'slice::split_at_mut', 'String::remove', 'String::insert', 'String::insert_str', 'String::split_off', 'String::drain', 'String::truncate',
    'Vec::remove', 'Vec::swap_remove', 'Vec::insert', 'Vec::split_off', 'Vec::drain', 'VecDeque::swap', 'slice::copy_from_slice', 'slice::clone_from_slice', 'slice::swap', 'slice::chunks', 'slice::chunks_exact',
    'slice::windows', 'slice::rotate_left', 'slice::rotate_right', 'Iterator::step_by', 'Bytes::split_off', 'Bytes::split_to', 'Bytes::slice', 'Bytes::advance', 'Buf::advance', 'Buf::get_u16', 'Buf::get_u32', 'Buf::get_u64', 'Buf::copy_to_slice', 'Buf::copy_to_bytes',
    'BytesMut::split_off', 'Duration::from_secs_f64', 'Duration::from_secs_f32', 'Duration::mul_f64', 'Mul::mul', 'Add::add', 'Sub::sub', 'AddAssign::add_assign', 'SubAssign::sub_assign', 'Div::div', 'Rem::rem', 'u64::pow', 'usize::pow', 'u32::pow', 'i64::pow', 'i64::abs',
    'Index::index', 'IndexMut::index_mut', 'RefCell::borrow', 'RefCell::borrow_mut', 'str::repeat', 'slice::repeat', 'Vec::with_capacity', 'char::from_digit', 'char::to_digit', 'NonZero::new_unchecked', 'u64::div_ceil', 'usize::next_multiple_of', 'Range::index'}

def in_request_part(M, o):
    """is it after a connection was accepted?"""
    return after_accept(all_events(o[4])) is not None

def check_P01(M, R):
    """Each place which can panic (index, slice, subtraction, unwrap, expect,
    explicit panic, checked time arithmetic, split and advance of buffers) on
    each path from an accepted connection, and in the two walks over a message
    from any position of any bytes, is proved not to from what the path knows,
    or is undecided; one which some input leads to is reported."""
    if not anchors(M, R): return
    seen = set()
    for o in M.E.oblig:
        site, kind, data, proved, st, stack = o
        if kind == 'alloc': continue
        if proved:
            R.hold('%s cannot fail' % kind, '%s at %s' % site); continue
        if not in_request_part(M, o): continue
        j, why = judge(M, o)
        key = (site, kind, j)
        if key in seen: continue
        seen.add(key)
        if j: R.bad('%s:%s' % (kind, site[0]), 'a client can make it panic: %s, %s' % (kind, why), '%s at %s' % site)
        else: R.unk('%s at %s is not proved: %s' % (kind, '%s %s' % site, why))
    if have_decoders(M, R):
        nested = {x for ds in decoders(M).values() for d in ds for x in d.recs}
        for name, ds in decoders(M).items():
            for d in ds:
                for o in d.obs:
                    site, kind, data, proved, st, stack = o
                    if kind == 'alloc': continue
                    if proved: R.hold('%s cannot fail' % kind, '%s at %s, from any position of any bytes' % site); continue
                    ss = []
                    if name == 'Frame::parse' and whole(M, d, o, ss):
                        R.hold('%s cannot fail once the message was checked' % kind, '%s at %s' % site); continue
                    if name == 'Frame::parse' and not ss and not unchecked(M, d, o): j, why = None, 'what the check leaves is not known'
                    elif d.bid not in nested: j, why = None, 'where it starts is not known'
                    else: j, why = judge(M, o if not ss else o[:4] + (ss[0],) + o[5:], (d.B, d.P))
                    key = (site, kind, j)
                    if key in seen: continue
                    seen.add(key)
                    if j: R.bad('%s:%s' % (kind, site[0]), 'bytes of a client can make it panic: %s, %s' % (kind, why), '%s at %s' % site)
                    else: R.unk('%s at %s is not proved: %s' % (kind, '%s %s' % site, why))
                # what a nested walk relies on: the position stays within
                for p in d.paths:
                    if p.kind != 'ret' or p.pos is None: continue
                    a = M.E.prove_ge0(p.st, sub(p.pos, d.P)); b = M.E.prove_ge0(p.st, sub(length(d.B), p.pos))
                    if a and b: R.hold('the position only moves forward, within the bytes', '%s: %s' % (name, pt.pt(p.norm(p.pos), 5)))
                    elif fuzzy(p.pos): R.unk('where %s ends is not proved to be within the bytes' % name)
                    else: R.unk('where %s ends is not proved: %s' % (name, pt.pt(p.norm(p.pos), 5)[:100]))
    # library functions which panic and are not followed
    for u in M.W.units:
        for kind, v, st in u.paths():
            ev = all_events(st)
            i = after_accept(ev)
            if i is None: continue
            for e in own_events(u, st):
                if e[0] == 'ext' and (e[1] in PANICKY or e[1].split('::')[-1] in ('split_at', 'split_at_mut', 'copy_from_slice')):
                    site = where(e); key = (site, e[1])
                    if key in seen: continue
                    seen.add(key)
                    a = [x for x in e[2] if isinstance(x, tuple)]
                    src = [x for x in a if from_input(x)]
                    if not src: continue
                    last = e[1].split('::')[-1]
                    if last in DIVIDES and e[1].split('::')[0] in UINTS and len(e[2]) == 2 and e[2][1][0] == 'int' and e[2][1][1] > 0:
                        R.hold('the divisor is not zero', site); continue
                    tested = [k for k in st.facts for x in src if k[0] != 'discr' and mentions(k, lambda y, x=x: y == core(x)) and not (k[0] == 'pred' and k[1] in CONTENT_PREDS) and k[0] not in ('strval', 'streq')]
                    if not tested and not any(fuzzy(x) or mentions(x, lambda y: y[0] == 'call') for x in a): R.bad('%s:%s' % (e[1], u.name), 'a client can make %s panic: nothing is known of %s' % (e[1], pt.pt(src[0], 5)[:140]), site)
                    else: R.unk('%s at %s is not followed' % (e[1], site))
    others(M, R, seen)

SIDE = ('core::hash::Hash', 'core::cmp::PartialEq', 'core::cmp::Eq', 'core::clone::Clone', 'core::ops::drop::Drop', 'core::fmt::Display', 'core::convert::From', 'core::cmp::Ord', 'core::cmp::PartialOrd')
def others(M, R, seen):
    """what the library calls back: hashing, comparing, copying, dropping,
    displaying the values made of the input"""
    for b in M.F.bodies.values():
        p = b['path']
        if not p.startswith('crate::<') or ' as ' not in p: continue
        tr = p.split(' as ', 1)[1]
        if not tr.startswith(SIDE): continue
        ty = p[len('crate::<'):].split(' as ')[0]
        if 'config' in ty.lower(): continue
        if b['id'] in M.E.visited_bodies and b['id'] not in getattr(M, '_alone', {}): continue
        try: u, obs = alone(M, b['id'])
        except RecursionError: R.unk('%s was not analysed' % p); continue
        bad = 0
        for o in obs:
            site, kind, data, proved, st, stack = o
            if kind == 'alloc' or proved: continue
            bad += 1
            key = (site, kind)
            if key in seen: continue
            seen.add(key)
            if kind.startswith('panic:') or data[0] == 'reach':
                R.bad('%s:%s' % (kind, site[0]), 'a value a client can send makes it panic: %s' % kind, '%s at %s' % site)
            else: R.unk('%s at %s is not proved' % (kind, '%s %s' % site))
        if not bad: R.hold('hashing, comparing, copying, dropping and displaying cannot panic', p)

def goal_of(data):
    """the term an obligation says is not negative"""
    if data[0] == 'ge0': return data[1]
    if isinstance(data[0], tuple) and data[0][0] == 'cmp' and data[0][1] == 'lt':
        x, y = data[0][2:4]
        return sub(sub(y, x), I(1)) if data[1] else sub(x, y)
    return None

def whole(M, d, o, states=None):
    """is an obligation of the decoding proved by what was checked before: that
    the bytes of the whole message are there? The states the check leaves it
    in are added to `states`, when all of them are known."""
    g = goal_of(o[2])
    if g is None: return False
    st = o[4]
    p = DPath(d, 'part', None, st, None)
    back = {('B',): d.B, ('P',): d.P}
    back.update(p.kback)
    done = False; ss = []
    for c in decoders(M)['Frame::check']:
        for q in c.paths:
            if q.kind != 'ret' or q.out != 'Ok' or q.pos is None: continue
            if p.T is not None and (q.T != p.T or q.group() != p.group()): continue
            if p.T is None and q.T is not None and p.notT is not None and q.T in p.notT: continue
            if fuzzy(q.norm(q.pos)) and p.T is not None: continue
            t = renorm(q.norm(q.pos), back)
            s3 = st.copy()
            if mentions(t, lambda x: x[0] in ('B', 'P', 'K', 'posafter')) or fuzzy(t):
                # somewhere after the first byte
                if not M.E.prove_ge0(q.st, sub(sub(q.pos, c.P), I(1))): return False
                t = add(d.P, I(1)); ss = None
            # every path of the check must say so: several lengths prove nothing
            if not M.E.add_lin(s3, sub(length(d.B), t)): continue
            if not M.E.prove_ge0(s3, g):
                if states is not None and ss is not None: states.append(s3)
                return False
            done = True
    return done

def unchecked(M, d, o):
    """is an obligation of the decoding on what the bytes say, about which the
    check asked nothing?"""
    if goal_of(o[2]) is not None: return False
    p = DPath(d, 'part', None, o[4], None)
    if p.T is None: return False
    n = 0
    for c in decoders(M)['Frame::check']:
        for q in c.paths:
            if q.kind != 'ret' or q.out != 'Ok' or q.T is None: 
                if q.kind == 'ret' and q.out == 'Ok' and (q.notT is None or p.T not in q.notT): return False
                continue
            if q.T != p.T: continue
            n += 1
            if any(k[0] in ('call', 'strval', 'streq', 'num') or k[0] == 'pred' and k[1] in CONTENT_PREDS for k in q.st.facts): return False
    return n > 0

# ---------------------------------------------------------------- P02
DEPTH_OK, DEPTH_BAD = 1024, 16384

def leaves(t, path=()):
    """(path, value) of the parts of an argument which are not aggregates"""
    if isinstance(t, tuple) and t and t[0] == 'agg' and t[1] in ('adt', 'tuple') and t[2] != models.CURSOR and not (t[1] == 'adt' and t[2].split('::')[-1] in ('Bytes', 'BytesMut')):
        for i, x in enumerate(t[4]): yield from leaves(x, path + (i,))
    elif not (isinstance(t, tuple) and t and t[0] == 'agg'): yield path, t

def edges(M, d):
    """[(target, {place of an argument: value}, path, event)] of the calls
    which go down one level"""
    out = []
    for p in d.paths:
        for e in p.recs:
            a = {}
            for i, x in enumerate(e[3]):
                for pth, v in leaves(x): a[(i,) + pth] = v
            out.append((e[1], a, p, e))
    return out

def params(M, d):
    """{place: value} of what the function was called with"""
    a = {}
    E = M.E
    for i, x in enumerate(d.u.args):
        st = d.paths[0].st if d.paths else None
        v = x
        if x[0] == 'ref' and x[1][0] == 'H' and x[1][1] == 'arg': v = ('sym', '%s.%d' % (M.F.bodies[d.bid]['path'], i))
        for pth, y in leaves(v): a[(i,) + pth] = y
    return a

def about(t, q):
    """does a term mention another, other than in what a call returned?"""
    if t == q: return True
    if not isinstance(t, tuple) or not t or t[0] in ('recret', 'posafter'): return False
    return any(about(x, q) for x in t if isinstance(x, tuple))

def tests(st, q):
    return any(about(f, q) for f in st.facts) or any(about(x, q) for l in st.lin for x, _ in l[1])

def step_of(v, p):
    """how far an argument is from the parameter it is passed for"""
    c, m = lin_of(v)
    if list(m.items()) == [(p, 1)]: return c
    return None

def const_bound(E, st, v):
    """the least power of two which a value is known not to exceed"""
    for k in range(4, 33, 2):
        if E.prove_ge0(st, sub(I(1 << k), v)): return 1 << k
    return None

def check_P02(M, R):
    """On each recursive call of the two walks over a message, an argument which
    counts the levels must come strictly closer to a limit which the path
    tested; a call which passes none on, or passes the same again, is a
    recursion which the client alone ends."""
    if not have_decoders(M, R): return
    D = decoders(M)
    done = {}
    for name in DECODERS:
        ds = D[name]; by = {d.bid: d for d in ds}
        res = []                                  # (verdict, message, site)
        nrec = 0
        for d in ds:
            par = params(M, d)
            for t, a, p, e in edges(M, d):
                nrec += 1
                site = where(e)
                if t != d.bid:
                    # from outside: where the counting starts
                    if d is ds[0]: 
                        ints = [v[1] for k, v in a.items() if v[0] == 'int']
                        res.append(('start', ints, site, t))
                    else: res.append((None, 'functions which call one another', site, t))
                    continue
                best = None
                same = []; other = []
                for k, v in a.items():
                    q = par.get(k)
                    if q is None: continue
                    v = plain(v)
                    if is_cursor(M, d, k): continue
                    if v == q or v[0] == 'int': same.append(v); continue
                    c = step_of(v, q)
                    if c is None:
                        # computed of the level alone, wrapping or saturating,
                        # and never tested: it goes on for ever
                        if v[0] in ('call', 'rv') and len(v) > 2 and isinstance(v[1], str) and v[1].split('::')[-1] in ('wrapping_sub', 'wrapping_add', 'saturating_sub', 'saturating_add') and v[2][0] == q and v[2][1][0] == 'int' and not tests(p.st, q): same.append(v)
                        else: other.append(v)
                        continue
                    if c < 0 and M.E.prove_ge0(p.st, add(q, I(c))): best = ('down', -c, k)
                    elif c > 0 and const_bound(M.E, p.st, q): best = ('up', const_bound(M.E, p.st, q), k)
                    elif c != 0:
                        # a count which no test limits
                        (other if tests(p.st, q) else same).append(v)
                if best: res.append((True, best, site, t))
                elif other: res.append((None, 'what %s limits is not followed' % pt.pt(other[0], 4)[:100], site, t))
                else: res.append((False, 'the level is not counted down: %s' % (', '.join(pt.pt(x, 3)[:60] for x in same) or 'no argument counts it'), site, t))
        done[name] = (nrec, res, ds)
    # decoding only follows a successful check of the same bytes, which limits
    # it as well
    nc, rc, dc = done['Frame::check']
    guarded = parse_follows_check(M)
    cok = nc > 0 and all(x[0] in (True, 'start') for x in rc)
    for name in DECODERS:
        n, res, ds = done[name]
        if not n: R.unk('%s does not call itself' % name); continue
        for v, what, site, t in res:
            if v is True: R.hold('each level takes one from what is left of a limit', '%s: %s' % (site, what[:2]))
            elif v is None: R.unk('%s: %s at %s' % (name, what, site))
            elif v is False:
                if name == 'Frame::parse' and guarded and cok: R.hold('what is decoded was checked, which limits its levels', site)
                elif name == 'Frame::parse' and not guarded: R.unk('%s: %s at %s, and whether the message was checked is not known' % (name, what, site))
                else: R.bad('depth:%s' % site, '%s goes down one level for each nested message and nothing limits the levels: %s' % (name, what), site)
        # the limit
        measured = [x for x in res if x[0] is True]
        starts = [x for x in res if x[0] == 'start']
        lim = set()
        for v, what, site, t in measured:
            how, c, k = what
            if how == 'up': lim.add(c)
            else:
                st = [e[3] for d in ds[:1] for e in sum((p.recs for p in d.paths), []) if e[1] != d.bid or True]
                for d in ds:
                    for t2, a, p, e in edges(M, d):
                        if t2 == t and t2 != d.bid and k in a:
                            if a[k][0] == 'int': lim.add(a[k][1] // max(c, 1))
                            else: lim.add(None)
                if ds[0].bid == t: lim.add(None)
        for l in lim:
            if l is None: R.unk('%s: where the count starts is not known' % name)
            elif l <= DEPTH_OK: R.hold('the limit of the levels is small', '%s: %d' % (name, l))
            elif l > DEPTH_BAD and not (name == 'Frame::parse' and cok and guarded): R.bad('depth-limit:%s' % name, '%s allows %d nested levels, more than a stack of 2 MiB holds' % (name, l), M.F.bodies[ds[0].bid]['path'])
            else: R.unk('%s allows %d nested levels' % (name, l))

def is_cursor(M, d, k):
    b = M.F.bodies[d.bid]
    t = M.F.tys[b['locals'][k[0] + 1]['ty']]
    while t['k'] == 'ref': t = M.F.tys[t['args'][0]]
    return t['k'] == 'adt' and (t['def'].endswith('io::Cursor') or t['id'] == models.CURSOR)

# ---------------------------------------------------------------- the reader
class Step: pass

def canon(E, t):
    """one form for each sequence of bytes"""
    if not isinstance(t, tuple) or not t: return t
    if t[0] == 'take': return ('sl', canon(E, t[1]), I(0), t[2])
    if t[0] == 'dropn': return ('sl', canon(E, t[1]), t[2], length(canon(E, t[1])))
    if t[0] == 'sl':
        x = canon(E, t[1])
        if x[0] == 'sl': return ('sl', x[1], add(x[2], t[2]), add(x[2], t[3]))
        return ('sl', x, t[2], t[3])
    if t[0] == 'cat':
        ps = []
        for p in t[1]:
            c = canon(E, p)
            ps += list(c[1]) if c[0] == 'cat' else [c]
        ps = [p for p in ps if p not in (('str', ''), ('bytes', ''))]
        return ps[0] if len(ps) == 1 and ps[0][0] != 'one' else ('cat', tuple(ps))
    if t[0] in ('deref', '*') and isinstance(t[1], tuple): return canon(E, t[1])
    if t[0] == 'str' and t[1] == '': return ('cat', ())
    return t

def reader_units(M):
    return [u for u in M.W.units if any(M.is_check(e) for k, v, st in u.paths() for e in own_events(u, st))]

def parse_follows_check(M):
    """is each decoding preceded by a successful check?"""
    some = False
    for u in M.W.units:
        for k, v, st in u.paths():
            okk = None
            for e in own_events(u, st):
                if M.is_check(e): okk = ('recret', e[1], e[3], e[5])
                elif M.is_parse(e):
                    some = True
                    if okk is None or discr_fact(st, okk, ('Ok', 'Err')) != 'Ok': return False
                    okk = None
    return some

def err_names(M, bid):
    """the variants of the error a function answers with"""
    t = M.F.tys[M.F.bodies[bid]['locals'][0]['ty']]
    if t['k'] == 'adt' and len(t['args']) == 2:
        a = M.F.tys[t['args'][1]]
        if a['k'] == 'adt':
            v = M.E.variants(a['id'])
            if v: return [x[0] for x in v]
    return None

def err_of(M, st, res):
    """which error the path knows a failed check to be: 'Incomplete', another
    one, or None"""
    names = err_names(M, res[1])
    if not names: return None
    return discr_fact(st, ('fld', res, 'Err', 0), names) or not_incomplete(st, ('fld', res, 'Err', 0), names)

def not_incomplete(st, t, names):
    if 'Incomplete' not in names: return None
    n = names.index('Incomplete')
    for k, f in st.facts.items():
        if k[0] == 'discr' and k[1] == t and isinstance(f, tuple) and f[0] == 'ne' and n in f[1]: return 'Other'
    return None

class Walk:
    """what a path of the reading task does, in order: (kind, event, ...)"""
    def __init__(self, M, u, i, kind, v, st):
        self.M = M; self.u = u; self.kind = kind; self.v = v; self.st = st
        self.ev = own_events(u, st)
        self.back = u.backs[i - len(u.rets)] if kind != 'ret' else None
        self.steps = []
        for n, e in enumerate(self.ev):
            s = Step(); s.e = e; s.n = n; s.site = where(e)
            if M.is_check(e):
                s.k = 'check'; s.res = ('recret', e[1], e[3], e[5]); s.out = discr_fact(st, s.res, ('Ok', 'Err'))
                s.err = err_of(M, st, s.res) if s.out == 'Err' else None
                c = e[3][0]; s.cur = c if c[0] == 'agg' and c[2] == models.CURSOR else None
                s.content = e[6][0]
                s.end = ('posafter', ('rec', e[1], 0, e[5], e[3]))
            elif M.is_parse(e):
                s.k = 'parse'; s.res = ('recret', e[1], e[3], e[5]); s.out = discr_fact(st, s.res, ('Ok', 'Err'))
                c = e[3][0]; s.cur = c if c[0] == 'agg' and c[2] == models.CURSOR else None
                s.content = e[6][0]
            elif e[0] == 'io' and e[1].startswith('read'):
                s.k = 'read'; s.res = e[4]; s.out = discr_fact(st, s.res, ('Ok', 'Err'))
                s.size = ('fld', s.res, 'Ok', 0)
                f = st.facts.get(s.size)
                s.zero = None
                if s.out == 'Ok':
                    if f == 0: s.zero = True
                    elif isinstance(f, int) or isinstance(f, tuple) and f[0] == 'ne' and 0 in f[1]: s.zero = False
                    elif M.E.prove_ge0(st, sub(s.size, I(1))): s.zero = False
                    elif M.E.prove_ge0(st, sub(I(0), s.size)): s.zero = True
            elif e[0] == 'send': s.k = 'send'; s.val = e[2]
            elif e[0] in ('enter', 'loop'): s.k = e[0]
            elif e[0] == 'alloc': s.k = 'alloc'
            else: continue
            self.steps.append(s)
    def since_head(self):
        """the steps of the iteration a path goes back from"""
        stk, head, _ = self.back
        last = 0
        for i, s in enumerate(self.steps):
            if s.k in ('enter', 'loop') and s.e[1] == (stk[-1], head): last = i
        return self.steps[last:]

def walks(M):
    if not hasattr(M, '_walks'):
        M._walks = [Walk(M, u, i, k, v, st) for u in reader_units(M) for i, (k, v, st) in enumerate(u.paths())]
    return M._walks

# ---------------------------------------------------------------- P03
def announced(t):
    """numbers read from the bytes which a term is made of"""
    return [x for x in subterms(t) if x[0] == 'num']

def upper(M, st, n):
    """is a term known not to exceed a constant of some size?"""
    return M.E.prove_ge0(st, sub(I(1 << 20), n))

LOSSY = ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'overflowing_add', 'overflowing_mul', 'unchecked_add', 'unchecked_mul', 'unchecked_sub')

def check_P03(M, R):
    """Each reservation of memory whose size depends on a number read from a
    message is proved not to exceed the bytes received, or is made by the
    decoder for a number which the check walked over; arithmetic on such
    numbers is proved not to wrap."""
    if not have_decoders(M, R): return
    D = decoders(M)
    guarded = parse_follows_check(M)
    tot = {}
    for i, d in enumerate(D['Frame::check']):
        for T, x in totals(M, d).items(): tot.setdefault(T, []).append(x)
    seen = set()
    nalloc = 0
    for name in DECODERS:
        for d in D[name]:
            for o in d.obs:
                site, kind, data, proved, st, stack = o
                where_ = '%s at %s' % site
                if kind == 'alloc':
                    nalloc += 1
                    n = plain(data[1]) if isinstance(data[1], tuple) else None
                    if n is None: continue
                    if not announced(n):
                        if n[0] == 'int' or not from_input(n, (d.B, d.P)): R.hold('the size reserved is not announced', where_)
                        elif M.E.prove_ge0(st, sub(length(d.B), n)): R.hold('no more is reserved than was received', where_)
                        else: R.unk('the size reserved at %s is not followed' % where_)
                        continue
                    if M.E.prove_ge0(st, sub(length(d.B), n)) or upper(M, st, n): R.hold('no more is reserved than was received', where_); continue
                    if name == 'Frame::parse' and whole(M, d, (site, kind, ('ge0', sub(length(d.B), n)), None, st, stack)) and guarded:
                        R.hold('no more is reserved than was checked', where_); continue
                    p = DPath(d, 'part', None, st, None)
                    if name == 'Frame::parse' and guarded and p.T in tot and None not in tot[p.T]:
                        g = untyped(p.norm(n))
                        def within(t): return sub(t, g)[0] == 'int' and sub(t, g)[1] >= 0 or sub(half(t), g) == I(0)
                        if all(any(within(t) for t in x) for x in tot[p.T]):
                            R.hold('what is reserved for as many elements as were checked', where_); continue
                    key = (site, 'alloc')
                    if key in seen: continue
                    seen.add(key)
                    if fuzzy(strip_phi_lines(p, n)): R.unk('the size reserved at %s is not followed' % where_)
                    elif name == 'Frame::parse' and guarded and (p.T in tot and None in tot[p.T] or p.T is None or p.T not in tot or not all(clear(t) for x in tot[p.T] for t in x)): R.unk('whether what is reserved at %s was checked is not known' % where_)
                    elif name == 'Frame::parse' and not guarded and not any(M.is_parse(e) for u in M.W.units for k, v, s in u.paths() for e in own_events(u, s)): R.unk('who decodes is not known')
                    else: R.bad('alloc:%s' % site[0], 'memory is reserved for %s before the bytes it announces are there' % pt.pt(p.norm(n), 5)[:140], where_)
                elif data[0] == 'ge0' and announced(data[1]) and not kind.startswith(('slice', 'index')):
                    if proved or name == 'Frame::parse' and whole(M, d, o): R.hold('arithmetic on an announced number does not overflow', where_); continue
                    key = (site, kind)
                    if key in seen: continue
                    seen.add(key)
                    j, why = judge(M, o, (d.B, d.P))
                    if j: R.bad('overflow:%s' % site[0], 'an announced number overflows: %s' % why, where_)
                    else: R.unk('%s at %s: %s' % (kind, where_, why))
            # operations which lose part of the number
            for p in d.paths:
                if p.kind != 'ret': continue
                for t in [p.pos] + [e[1] for e in p.ev if e[0] in ('cur.advance', 'cur.set')] + ([p.v] if p.v else []):
                    if t is None: continue
                    for x in subterms(t):
                        if (x[0] == 'call' and isinstance(x[1], str) and x[1].split('::')[-1] in LOSSY or x[0] in ('wrap', 'trunc') or x[0] == 'cast') and announced(x):
                            if x[0] == 'cast' and not narrowing(M, x): continue
                            key = ('lossy', x[:2] if x[0] == 'call' else x[0], name)
                            if key in seen: continue
                            seen.add(key)
                            R.bad('lossy:%s:%s' % (name, x[1] if x[0] == 'call' else x[0]), 'part of an announced number is lost: %s' % pt.pt(p.norm(x), 5)[:140], M.F.bodies[d.bid]['path'])
                R.hold('no part of an announced number is lost', '%s: %s' % (name, p.T))
    # the reading task
    for w in walks(M):
        for s in w.steps:
            if s.k != 'alloc': continue
            n = s.e[2]
            if not isinstance(n, tuple): continue
            n = plain(n)
            told = mentions(n, lambda x: x[0] == 'recret' and x[1] in {d.bid for ds in D.values() for d in ds}) 
            direct = announced(n) and not any(fuzzy_but(x, lambda y: y[0] == "phi") for x in announced(n))
            if not told and announced(n) and not direct and not upper(M, w.st, n): R.unk('what the reading task reserves at %s is not followed' % s.site); continue
            if not told and not direct: R.hold('what the reading task reserves is not announced by the client', s.site); continue
            if upper(M, w.st, n): R.hold('what the reading task reserves is limited', s.site); continue
            if direct: R.bad('reserve:%s' % s.site, 'the reading task reserves what a message announces: %s' % pt.pt(n, 4)[:140], s.site); continue
            if has_number(M, D): R.bad('reserve:%s' % s.site, 'the reading task reserves what a message announces: %s' % pt.pt(n, 4)[:140], s.site)
            else: R.unk('what the reading task reserves at %s is not followed' % s.site)
    # the commands
    for o in M.E.oblig:
        site, kind, data, proved, st, stack = o
        if kind != 'alloc' or not in_request_part(M, o): continue
        n = plain(data[1]) if isinstance(data[1], tuple) else None
        if n is None: continue
        nums = [x for x in subterms(n) if x[0] == 'num' or x[0] == 'fld' and len(x) > 2 and x[2] == 'Integer']
        if not nums or not from_input(n): R.hold('what a command reserves is not announced', '%s at %s' % site); continue
        if upper(M, st, n): R.hold('what a command reserves is limited', '%s at %s' % site); continue
        if (site, kind) in seen: continue
        seen.add((site, kind))
        if fuzzy(n): R.unk('what is reserved at %s %s is not followed' % site)
        else: R.bad('alloc:%s' % site[0], 'a command reserves memory for a number the client sent: %s' % pt.pt(n, 5)[:140], '%s at %s' % site)

def spare(M, st, c):
    """does a test on the capacity of a buffer tell that there is room left?
    None: a test there is, which does not tell"""
    caps = {x for k in st.facts for x in subterms(k) if x[0] == 'cap'} | {x for l in st.lin for t, n in l[1] for x in subterms(t) if x[0] == 'cap'}
    n = length(c)
    for x in caps:
        if length(x[1]) != n: continue
        d = sub(x, n)
        if M.E.prove_ge0(st, sub(d, I(1))): return True
        if st.facts.get(('cmp', 'eq') + (x, n)) == 0 or st.facts.get(('cmp', 'eq') + (n, x)) == 0: return True
    known = [k for k in st.facts if mentions(k, lambda x: x in caps)]
    if not known and not caps: return False
    if all(k[0] == 'cmp' for k in known):
        # nothing which is known excludes that it is full
        for x in caps:
            s2 = st.copy()
            if length(x[1]) == n and E_full(M, s2, x, n): return False
    return None

def E_full(M, st, x, n):
    return M.E.add_lin(st, sub(n, x)) and not any(M.E.prove_ge0(st, sub(a, b)) for k, f in st.facts.items() if k[0] == 'cmp' and k[1] == 'lt' and f == 1 for a, b in ((k[2], k[3]),))

def half(t):
    c, m = lin_of(t)
    if c % 2 or any(k % 2 for k in m.values()): return ('none',)
    return mk_lin(c // 2, {x: k // 2 for x, k in m.items()})

def same_number(a, b):
    """numbers read from the same bytes, whatever type they were read as"""
    return untyped(a) == untyped(b)

def untyped(t):
    if not isinstance(t, tuple) or not t: return t
    if t[0] == 'num': return ('num', untyped(t[1]))
    if t[0] == 'lin':
        out = I(t[1])
        for b, k in t[2]:
            cc, mm = lin_of(untyped(b))
            out = add(out, mk_lin(cc * k, {x: y * k for x, y in mm.items()}))
        return out
    return tuple(untyped(x) if isinstance(x, tuple) else x for x in t)

def strip_phi_lines(p, n): return p.norm(n)

BITS = {'u8': 8, 'i8': 7, 'u16': 16, 'i16': 15, 'u32': 32, 'i32': 31, 'u64': 64, 'i64': 63, 'usize': 64, 'isize': 63, 'u128': 128, 'i128': 127}
def narrowing(M, x):
    ty = x[-1] if isinstance(x[-1], str) else None
    b = BITS.get(ty)
    if b is None: return False
    ns = [BITS.get(y[2], 64) for y in announced(x) if len(y) > 2]
    return bool(ns) and b < max(ns)

def has_number(M, D):
    """does an error of the check carry a number of the message?"""
    for d in D['Frame::check']:
        for p in d.paths:
            if p.kind == 'ret' and p.v is not None and p.v[0] == 'agg' and p.v[3] == 'Err' and announced(p.v): return True
    return False

# ---------------------------------------------------------------- totals
def element_loops(d, T):
    """{(bid, head): [paths which go back to it after nested messages]}"""
    out = {}
    for p in d.paths:
        if p.kind == 'ret' or p.T != T or p.back is None: continue
        stk, head, _ = p.back
        h = (stk[-1], head)
        last = max([i for i, e in enumerate(p.ev) if e[0] in ('enter', 'loop') and e[1] == h] or [-1])
        if last < 0: continue
        if any(e[0] == 'rec' for e in p.ev[last:]): out.setdefault(h, []).append((p, last))
    return out

def rec_ok(p, e):
    return discr_fact(p.st, ('recret', e[1], e[3], e[5]), ('Ok', 'Err'))

class Loop:
    """an element loop of a kind of message, as its general iteration"""
    def __init__(self, M, d, p, last):
        E = M.E
        self.p = p; self.eid = p.ev[last][2]; self.h = p.ev[last][1]
        ent, inst = E.entries[self.eid]
        self.ent = ent; self.recs = [e for e in p.ev[last:] if e[0] == 'rec']
        mine = lambda t: t[0] == 'phi' and t[1][:2] == self.h and t[1][3] == inst
        self.mine = mine
        s2 = p.st
        def swap(t, st):
            m = {x: at_place(E, st, x) for x in subterms(t) if mine(x)}
            if any(v is None for v in m.values()): return None
            return renorm2(t, m)
        self.swap = swap
        # what says that there is another element: it is one less each time
        self.left = None
        cands = []
        for k, f in p.st.facts.items():
            if k[0] != 'cmp' or not mentions(k, mine): continue
            if k[1] == 'lt': cands.append(sub(k[3], k[2]) if f == 1 else add(sub(k[2], k[3]), I(1)))
            elif k[1] == 'eq' and f == 0: cands += [sub(k[3], k[2]), sub(k[2], k[3])]
        for k, f in p.st.facts.items():
            if k[0] == 'phi' and mine(k) and isinstance(f, tuple) and f[0] == 'ne' and 0 in f[1]: cands.append(k)
        self.cands = []
        for c in cands:
            nx = swap(c, s2); i0 = swap(c, ent)
            if nx is None or i0 is None: continue
            g = sub(c, nx)
            if g[0] == 'int' and g[1] >= 1: self.cands.append((c, g[1], i0))
        if self.cands: self.left = min(self.cands, key=lambda x: (0 if announced(x[2]) else 1, len(repr(x[0]))))

def renorm2(t, m):
    """replace and simplify"""
    if not isinstance(t, tuple) or not t: return t
    if t in m: return m[t]
    if t[0] == 'lin':
        out = I(t[1])
        for b, k in t[2]:
            c, mm = lin_of(renorm2(b, m))
            out = add(out, mk_lin(c * k, {x: y * k for x, y in mm.items()}))
        return out
    return tuple(renorm2(x, m) if isinstance(x, tuple) else x for x in t)

def totals(M, d):
    """{type: set of the numbers of nested messages walked over (normal form),
    or None when that is not known}"""
    if hasattr(d, '_totals'): return d._totals
    d._totals = {}
    for T in {p.T for p in d.paths if p.T is not None}:
        s = set(); okk = True
        any_ = False
        for p in d.paths:
            if p.kind != 'ret' or p.T != T or p.out != 'Ok': continue
            r = tally(M, d, p)
            if r is None: okk = False
            elif r[0] == 'sum': s.add(untyped(p.norm(r[1]))); any_ = True
            elif r[0] == 'count': pass
        if any_: d._totals[T] = s if okk else None
    return d._totals

def tally(M, d, p):
    """the number of nested messages an accepted message has on a path:
    ('sum', term) after a whole loop, ('count', n) when they were counted one by
    one, ('early', n) when the loop was left before its end; None: not known"""
    loops = element_loops(d, p.T)
    if not loops: return ('count', len(p.recs))
    last = max([i for i, e in enumerate(p.ev) if e[0] in ('enter', 'loop') and e[1] in loops] or [-1])
    if last < 0: return ('count', len(p.recs))
    mark = p.ev[last]
    if mark[0] == 'enter': return ('count', len(p.recs))
    after = [e for e in p.ev[last:] if e[0] == 'rec']
    its = [Loop(M, d, q, n) for q, n in loops[mark[1]] if q.ev[n][0] == 'loop' and q.ev[n][2] == mark[2]]
    if not its: return None
    rs = {len(l.recs) for l in its}
    if len(rs) != 1: return None
    r = rs.pop()
    for l in its:
        if l.left is None: return None
    l = its[0]; c, k, i0 = l.left
    if any((x.left[0], x.left[1]) != (c, k) for x in its): return None
    if k != 1: return None
    if after: return ('early', len(after), l)
    if not M.E.prove_ge0(p.st, sub(I(0), c)) : return ('early', 0, l) if not fuzzy_but(c, l.mine) and M.E.prove_ge0(p.st, sub(c, I(1))) else None
    return ('sum', scale(i0, r), l)

def scale(t, r):
    c, m = lin_of(t)
    return mk_lin(c * r, {x: y * r for x, y in m.items()})

def fuzzy_but(t, okk):
    return mentions(t, lambda x: x[0] in ('undef', 'havoc', 'gone', 'proj', 'eff', 'collect', 'closarg', 'itafter', 'anyelem', 'rv', 'un', 'rmw', 'readinto', 'closure') or x[0] == 'phi' and not okk(x))

# ---------------------------------------------------------------- P04
def len_dir(d, k, f):
    """does a fact say that there are at least ('low') or at most ('up') so many
    bytes?  None: it does not speak of how many there are; '?': not known"""
    def is_len(t): return t[0] == 'len' and core_bytes(t[1]) == d.B
    if not mentions(k, is_len) and k[0] not in ('getres', 'firstres', 'discr', 'nopos'): return None
    if k[0] == 'nopos':
        x = k[1][1] if k[1][0] in ('iter', 'windows') else None
        while x is not None and x[0] in ('deref', '*', 'sl') and isinstance(x[1], tuple):
            if x[0] == 'sl' and not is_len(x[3]): return '?'
            x = x[1]
        return '?' if x is None else 'up' if x == d.B else None
    if k[0] == 'cmp':
        a, b = k[2], k[3]
        ca = sum(y for x, y in lin_of(a)[1].items() if is_len(x)); cb = sum(y for x, y in lin_of(b)[1].items() if is_len(x))
        n = cb - ca
        if n == 0: return '?'
        if k[1] == 'lt': return 'low' if (n > 0) == (f == 1) else 'up'
        if k[1] == 'eq': return 'up' if f == 1 else '?'
        return '?'
    if k[0] == 'discr':
        x = k[1]
        if x[0] in ('getres', 'firstres') and core_bytes(x[1]) == d.B: return 'low' if f == 1 else 'up'
        return None if not mentions(k, is_len) else '?'
    if k[0] in ('getres', 'firstres') and core_bytes(k[1]) == d.B: return 'low' if f == 1 else 'up'
    return '?' if mentions(k, is_len) else None

def core_bytes(t):
    while isinstance(t, tuple) and t and t[0] in ('deref', '*') and isinstance(t[1], tuple): t = t[1]
    return t

def ups(d, p):
    """(facts which more bytes would change, is one not understood?)"""
    up = []; unk = False
    for k, f in p.st.facts.items():
        r = len_dir(d, k, f)
        if r == 'up': up.append((k, f))
        elif r == '?': unk = True
    return up, unk

def check_P04(M, R):
    """The pending bytes are followed through each path of the reading task:
    what is checked starts at the first of them, what is decoded is exactly what
    was checked, what is left is the rest, what is received is appended; and in
    the check itself, only the answer 'incomplete' depends on how many bytes
    are there."""
    if not have_decoders(M, R): return
    D = decoders(M)
    # the answers of the check when more bytes arrive
    for d in D['Frame::check']:
        rets = [p for p in d.paths if p.kind == 'ret']
        for p in rets:
            up, unk = ups(d, p)
            if p.out is None:
                # the answer of a nested message
                if p.recs and p.v == ('recret', p.recs[-1][1], p.recs[-1][3], p.recs[-1][5]): R.hold('the answer for a nested message is passed on')
                else: R.unk('what the check answers is not followed')
                continue
            bad = nested_answer(M, d, p)
            if bad is not None:
                if bad is True: R.hold('the answer for a nested message is passed on')
                elif bad == '?': R.unk('what the check answers for a nested message is not followed')
                else: R.bad('nested:%s' % bad, 'a nested message which is not complete yet is %s' % bad, path_site(M, d, p))
                continue
            if p.out == 'Incomplete': continue        # P05, P06
            if not up: 
                if unk: R.unk('how an answer depends on the number of bytes is not followed')
                else: R.hold('an answer other than incomplete does not change when more bytes arrive', '%s: %s' % (p.T, p.out))
                continue
            # the same answer whatever the number of bytes?
            alts = [q for q in rets if q is not p and differs_only(p, q, up)]
            same = [q for q in alts if q.out == p.out and q.pos is not None and p.pos is not None and q.norm(q.pos) == p.norm(p.pos)]
            other = [q for q in alts if q.out != p.out and q.out in ('Ok', 'Incomplete')]
            if p.out == 'Err' and other and not any(fuzzy_but(k, lambda x: x in p.sub) for k, f in up):
                R.bad('cut:%s' % p.T, 'a message of which only a part has arrived is refused: when %s is %s' % (pt.pt(p.norm(up[-1][0]), 4)[:120], up[-1][1]), path_site(M, d, p))
            elif p.out == 'Ok' and other and not same and not any(fuzzy_but(k, lambda x: x in p.sub) for k, f in up):
                R.bad('cut:%s' % p.T, 'a message of which only a part has arrived is accepted: when %s is %s' % (pt.pt(p.norm(up[-1][0]), 4)[:120], up[-1][1]), path_site(M, d, p))
            elif p.out == 'Err' and any(longer(M, d, p, q, up) for q in rets if q.out == 'Ok'):
                R.bad('cut:%s' % p.T, 'a message is refused before the end of its line has arrived, and accepted when it arrives at once: when %s is %s' % (pt.pt(p.norm(up[-1][0]), 4)[:120], up[-1][1]), path_site(M, d, p))
            elif same and not other: R.hold('an answer other than incomplete does not change when more bytes arrive', '%s: %s' % (p.T, p.out))
            else: R.unk('whether an answer changes when more bytes arrive is not known')
    ws = walks(M)
    if not ws: R.unk('who reads messages is not known'); return
    seen = set()
    # the channels messages are delivered on
    chans = {s.e[1] for w in ws for s in w.steps if s.k == 'send' and mentions(s.val, lambda x: x[0] == 'recret')}
    for w in ws: follow(M, R, w, seen, chans)
    stale(M, R, ws)

def stale(M, R, ws):
    """A number of bytes kept from one round to the next, below which the
    pending ones are not checked again, does not outlive the message it was
    for."""
    E = M.E
    def at(w, s):
        v = E.read_root(w.st, s[1][2])
        for p in s[2]: v = E.project(v, p)
        return v
    kept = {}
    for w in ws:
        for i, s in enumerate(w.steps):
            if s.k != 'read': continue
            if any(x.k in ('check', 'read') for x in w.steps[:i]): break
            for k, f in w.st.facts.items():
                if k[0] != 'cmp' or k[1] != 'lt' or f != 1 or k[3][0] != 'phi' or not mentions(k[2], lambda x: x[0] == 'len'): continue
                if any(x == k[3] for x in subterms(k[2])): continue
                kept.setdefault((k[3][1][2], k[3][2]), (k[3], s.site))
            break
    for t, site in kept.values():
        vs = []
        for w in ws:
            if w.kind != 'back': continue
            v = at(w, t)
            vs.append((v, any(s.k == 'parse' and s.out == 'Ok' for s in w.steps)))
        same = lambda v: v[0] == 'phi' and (v[1][2], v[2]) == (t[1][2], t[2])
        if not any(not same(v) and v != I(0) for v, d in vs): continue
        if any(d and same(v) for v, d in vs): R.bad('stale:%s' % site.split(' at ')[0], 'how many bytes are waited for before checking again is still that of an earlier message once it was delivered: the next message is not seen when it is shorter', site)
        elif all(v == I(0) for v, d in vs if d): R.hold('how many bytes are waited for is forgotten once the message is delivered', site)
        else: R.unk('how many bytes are waited for at %s is not followed' % site)

def path_site(M, d, p):
    """the last construct of a path of a walk with a place in the source"""
    for e in reversed(p.ev):
        w = where(e)
        if w: return w
    return M.F.bodies[d.bid]['path']

def nested_answer(M, d, p):
    """when the answer is decided by a failed nested message: True when it is
    passed on, a word when it is changed, '?' when not followed; None when it
    is not so decided"""
    fails = [e for e in p.recs if rec_ok(p, e) == 'Err']
    if not fails: return None
    e = fails[-1]; res = ('recret', e[1], e[3], e[5]); pay = ('fld', res, 'Err', 0)
    if p.v is None: return '?'
    if p.v == res or p.v[0] == 'agg' and p.v[3] == 'Err' and p.v[4] and plain(p.v[4][0]) == pay: return True
    names = err_names(M, e[1])
    what = discr_fact(p.st, pay, names) or not_incomplete(p.st, pay, names) if names else None
    if p.out == 'Ok':
        return 'accepted' if what in (None, 'Incomplete') and not fuzzy_facts_of(p, res) else '?'
    if p.out == 'Incomplete':
        if what == 'Incomplete': return True
        return 'the same as a malformed one: waited for' if not fuzzy_facts_of(p, res) else '?'
    if p.v[0] == 'agg' and p.v[3] == 'Err' and p.v[4]:
        x = plain(p.v[4][0])
        if x[0] == 'agg' and not mentions(x, lambda y: y == res):
            if what is None: return 'refused' if not fuzzy_facts_of(p, res) else '?'
            return True if what != 'Incomplete' else 'refused'
        if what is not None and what != 'Incomplete': return True
    return '?'

def fuzzy_facts_of(p, res):
    """is something said of the answer beyond which variant it is?"""
    return any(mentions(k, lambda x: x == res) and k[0] not in ('discr',) for k in p.st.facts)

def longer(M, d, p, q, up):
    """p did not find, in the bytes there were, what it was looking for. Does q
    find it from the same place, in bytes which p says nothing against?"""
    if q.T != p.T: return False
    n = None
    for k, f in up:
        if not (k[0] == 'cmp' and k[1] == 'lt' and f == 0 and k[2][0] == 'phi' and k[2] not in p.sub): return False
        if n is not None and n[2] != k[2]: return False
        n = k
    ini = p.init(n[2])
    if ini is None: return False
    start = renorm(ini, p.sub)
    found = [y for v, y in q.kback.items() if v[1] == start]
    if len(found) != 1: return False
    if any(k[0] in ('call', 'pred') and k[1] not in CONTENT_PREDS and mentions(k, lambda x: x == found[0]) or k[0] == 'cmp' and mentions(k, lambda x: x[0] == 'call') for k in q.st.facts): return False
    is_len = lambda t: t[0] == 'len' and core_bytes(t[1]) == d.B
    L0 = ('sym', 'the bytes there were')
    def before(t):
        c, m = lin_of(t)
        return mk_lin(c, {(L0 if is_len(x) else x): y for x, y in m.items()})
    uk = {k for k, f in up}
    st = q.st.copy()
    for x in (sub(found[0], before(n[3])), sub(('len', d.B), L0), sub(('len', ('deref', d.B)), L0)):
        if not M.E.add_lin(st, x): return False
    for k, f in p.st.facts.items():
        if k in uk or q.st.facts.get(k) == f: continue
        if k in q.st.facts: return False
        if k[0] in ('idx',) or k[0] == 'cmp' and k[1] == 'eq' and k[2][0] == 'idx':
            return False
        if k[0] != 'cmp' or k[1] != 'lt' or mentions(k, lambda x: x[0] not in ('cmp', 'lin', 'len', 'sym', 'int', 'deref', '*') and isinstance(x[0], str) and x not in p.sub): return False
        a, b = before(k[2]), before(k[3])
        # what p says must not be excluded
        if M.E.prove_ge0(st, sub(a, b) if f == 1 else sub(sub(b, a), I(1))): return False
    return True

def differs_only(p, q, up):
    """does q do the same as p, but for facts on the number of bytes?"""
    if q.T != p.T: return False
    uk = {k for k, f in up}
    for k, f in p.st.facts.items():
        g = q.st.facts.get(k)
        if g is None or k in uk: continue
        if g != f and isinstance(g, int) and isinstance(f, int) and not (k[0] == 'cmp' and mentions(k, lambda x: x[0] == 'len')): return False
    return any(k in q.st.facts and q.st.facts[k] != f for k, f in up)

def loc_of_buffer(w):
    for s in w.steps:
        if s.k == 'check' and s.cur is not None and s.cur[4][0][0] == 'ref': return s.cur[4][0]
    return None

def loop_value(M, w, upto, X, C):
    """is C what the pending bytes X became at the head of a loop entered in
    between?"""
    if C[0] != 'phi': return False
    for s in reversed(w.steps[:upto]):
        if s.k == 'loop' and s.e[1] == C[1][:2]:
            ent, inst = M.E.entries[s.e[2]]
            if inst != C[1][3]: continue
            return ent
    return False

def skipped(M, w, upto, C):
    """the place where the rounds of a loop, which only goes over the pending
    bytes, drop some of them"""
    if C[0] != 'phi': return None
    E = M.E
    for s in w.steps[:upto]:
        if s.k != 'loop' or s.e[1] != C[1][:2] or s.e[2] not in E.entries or E.entries[s.e[2]][1] != C[1][3]: continue
        for b in M.backs_of(s.e[2]):
            ev = b.events()
            at = max(n for n, e in enumerate(ev) if e[0] == 'loop' and e[1:3] == s.e[1:3])
            if any(e[0] in ('rec', 'io', 'enter', 'loop') for e in ev[at + 1:]): continue
            v = E.read_root(b, C[1][2])
            for p in C[2]: v = E.project(v, p)
            v = canon(E, v)
            if v == ('cat', ()) or v[0] == 'sl' and v[1] == C and (v[2] != I(0) or v[3] != length(C)) or v[0] in ('truncated', 'dropn', 'take') and v[1] == C:
                if E.prove_ge0(b, sub(I(0), length(C))): continue
                for e in reversed(ev[at + 1:]):
                    if where(e): return where(e)
                return C[1][0]
    return None

def follow(M, R, w, seen, chans):
    E = M.E; nsend = bool(chans)
    X = None; pend = None; checked = None; site0 = None
    room = None
    def bad(key, msg, site):
        if (key, site) in seen: return
        seen.add((key, site)); R.bad('%s:%s' % (key, (site or '').split(' at ')[0]), msg, site)
    def unk(msg):
        R.unk(msg)
    for i, s in enumerate(w.steps):
        if s.k == 'check':
            if s.cur is None or s.content is None: unk('what is checked at %s is not followed' % s.site); return
            C = canon(E, s.content)
            sk = skipped(M, w, i, C)
            if sk: bad('skipped', 'bytes which were received are dropped without being decoded', sk); return
            if X is None:
                if C in (('cat', ()), ('str', '')) or C[0] == 'phi': X = C
                elif C[0] == 'fld' and mentions(C, lambda x: x[0] == 'phi'): X = C
                elif C[0] == 'sl' and C[1][0] == 'phi' and C[2][0] == 'int' and C[2][1] > 0 and C[3] == length(C[1]) and ('ref', C[1][1][2], C[1][2]) == loc_of_buffer(w):
                    bad('skipped', '%d bytes which were received are dropped without being decoded' % C[2][1], s.site); return
                else: unk('the pending bytes at %s are not followed: %s' % (s.site, pt.pt(C, 4)[:80])); return
            elif C != X:
                ent = loop_value(M, w, i, X, C)
                if ent: X = C
                elif fuzzy(C) and C[0] != 'phi' or C[0] == 'phi': unk('the pending bytes at %s are not followed: %s, not %s' % (s.site, pt.pt(C, 4)[:80], pt.pt(X, 4)[:80])); return
                else: bad('checked', 'what is checked is not what is pending: %s instead of %s' % (pt.pt(C, 5)[:100], pt.pt(X, 5)[:100]), s.site); return
            if pend is not None and nsend: bad('dropped', 'a decoded message is not delivered before the next one is looked for', s.site)
            pos = plain(s.cur[4][1])
            if pos != I(0):
                if pos[0] == 'int': bad('start', 'the check starts %d bytes after the first pending one' % pos[1], s.site); return
                unk('where the check at %s starts is not known' % s.site); return
            R.hold('the check starts at the first pending byte', s.site)
            checked = s
        elif s.k == 'parse':
            if s.cur is None or s.content is None: unk('what is decoded at %s is not followed' % s.site); return
            if checked is None or checked.out != 'Ok': unk('what is decoded at %s was not checked' % s.site); return
            if X is None: return
            C = canon(E, s.content); pos = plain(s.cur[4][1]); end = checked.end
            whole_ = canon(E, ('take', X, end))
            if pos == I(0) and C == whole_: R.hold('what is decoded is what was checked', s.site)
            elif pos == I(0) and C == X: R.hold('decoding starts at the first pending byte', s.site)
            elif C[0] == 'sl' and C[1] == (X if X[0] != 'sl' else X[1]) or pos != I(0) and C in (whole_, X):
                if pos != I(0) and pos[0] == 'int' : bad('decode-start', 'decoding starts %d bytes after the first pending one' % pos[1], s.site); return
                df = sub(C[3], whole_[3]) if C[0] == 'sl' and whole_[0] == 'sl' else None
                d0 = sub(C[2], whole_[2]) if df is not None else None
                if df is not None and (df[0] == 'int' and df[1] < 0 or d0[0] == 'int' and d0[1] != 0): bad('decode-part', 'what is decoded is not what was checked: %s' % pt.pt(C, 5)[:120], s.site); return
                if df is not None and df[0] == 'int' and d0 == I(0) and pos == I(0): R.hold('what is decoded is what was checked', s.site)
                else: unk('what is decoded at %s is not followed: %s' % (s.site, pt.pt(C, 4)[:80])); return
            elif fuzzy_but(C, lambda x: x == X or X[0] == 'sl' and x == X[1]) or mentions(C, lambda x: x[0] == 'call'): unk('what is decoded at %s is not followed: %s' % (s.site, pt.pt(C, 4)[:80])); return
            else: bad('decode', 'what is decoded is not what was checked: %s' % pt.pt(C, 5)[:120], s.site); return
            if s.out == 'Ok': 
                pend = ('fld', s.res, 'Ok', 0)
                X = canon(E, ('dropn', X, end))
            elif s.out == 'Err': X = None; checked = None; continue
            checked = None
        elif s.k == 'send':
            val = plain(s.val) if isinstance(s.val, tuple) else None
            if pend is not None and val is not None and (val == pend or mentions(val, lambda x: x == pend)):
                R.hold('each decoded message is delivered once', s.site); pend = None
            elif val is not None and mentions(val, lambda x: x[0] == 'recret' and M.is_parse(('rec', x[1]))):
                bad('again', 'a message is delivered again', s.site)
            elif s.e[1] in chans: unk('what is sent at %s is not followed' % s.site)
        elif s.k == 'alloc':
            if isinstance(s.e[2], tuple) and s.e[2][0] == 'int' and s.e[2][1] > 0 or isinstance(s.e[2], tuple) and s.e[2][0] != 'int': room = True
        elif s.k == 'read':
            if pend is not None and nsend: bad('dropped', 'a decoded message is not delivered before more bytes are read', s.site)
            data = s.e[3]
            if isinstance(data, tuple) and data[0] == 'slicemut' and not room:
                it = any(x.k == 'loop' for x in w.steps[:i])
                fits = spare(M, w.st, data[1])
                if fits: R.hold('there is room for what is read', s.site)
                elif it and fits is None: unk('whether there is room for what is read at %s is not followed' % s.site)
                elif it: bad('room', 'bytes are read after the pending ones without making room for them: when there is none, the end of the stream is assumed', s.site)
            room = None
            if X is not None:
                got = ('recv', s.res[-1]) if s.res[0] == 'iores' else None
                X = ('after', X, s)
                nx = next_content(M, w, i)
                X = received(M, R, w, s, X[1], nx, bad, unk)
                if X is None: return
    # what is left at the end
    if w.kind != 'back' or X is None: return
    if pend is not None and nsend: bad('dropped', 'a decoded message is not delivered', w.steps[-1].site)
    loc = loc_of_buffer(w)
    if loc is None: unk('where the pending bytes are kept is not known'); return
    F = canon(E, E.load(w.st, loc))
    if F == X: R.hold('what is pending is kept for the next turn', pt.pt(F, 4)[:120])
    elif fuzzy_but(F, lambda x: mentions(X, lambda y: y == x)): unk('what is kept of the pending bytes is not followed: %s' % pt.pt(F, 4)[:100])
    else: bad('kept', 'what is kept for the next turn is %s instead of %s' % (pt.pt(F, 6)[:160], pt.pt(X, 6)[:160]), last_place(w))

def last_place(w):
    for s in reversed(w.steps):
        if s.site: return s.site
    return w.u.name

def next_content(M, w, i):
    """what the buffer is the next time it is seen after a read"""
    for j in range(i + 1, len(w.steps)):
        s = w.steps[j]
        if s.k == 'check': return canon(M.E, s.content) if s.content is not None else None
        if s.k == 'read': return None
    loc = loc_of_buffer(w)
    return canon(M.E, M.E.load(w.st, loc)) if loc is not None else None

def received(M, R, w, s, X, F, bad, unk):
    """what is pending after a read: X and what was received after it"""
    got = [x for x in ([F] if F is not None else []) for x in subterms(x) if x[0] == 'recv']
    if s.out == 'Err' or s.zero: return None          # the end: P06
    if F is None: unk('what is pending after the read at %s is not known' % s.site); return None
    lab = s.res[-1] if s.res[0] == 'iores' else None
    rv = ('recv', lab)
    want = canon(M.E, ('cat', (X, rv))) if X != ('cat', ()) else rv
    if F == want: R.hold('what is received is put after what is pending', '%s: %s' % (s.site, pt.pt(F, 4)[:120])); return F
    if F[0] == 'readinto' and canon(M.E, F[1]) == X and F[2] == rv:
        bad('overwritten', 'what is received at %s is written over what is pending' % s.site, s.site); return None
    if F[0] == 'phi': 
        unk('what is pending after the read at %s is a value of a loop' % s.site); return None
    if fuzzy_but(F, lambda x: mentions(X, lambda y: y == x)) or mentions(F, lambda x: x[0] in ('call', 'ovw')): unk('what is pending after the read at %s is not followed: %s' % (s.site, pt.pt(F, 4)[:100])); return None
    if mentions(F, lambda x: x == rv): bad('lost', 'after a read, what is pending is %s instead of %s' % (pt.pt(F, 6)[:160], pt.pt(want, 6)[:160]), s.site)
    else: bad('lost', 'what was received is not kept: %s' % pt.pt(F, 6)[:160], s.site)
    return None

# ---------------------------------------------------------------- P05
NL = ((0, 13), (1, 10))
KIND = {43: 'Simple', 45: 'Error', 58: 'Integer', 36: 'Bulk', 42: 'Array', 37: 'Map'}
LINE, BULK, AGG = (43, 45, 58), (36,), (42, 37)

def line_end(p):
    """where the line after the type byte ends on a path (normal form)"""
    g = p.group()
    return g[0] if len(g) == 1 else None

def is_line(g):
    """is it the first line break after the type byte?"""
    s = add(('P',), I(1))
    return g == s or g[0] == 'K' and g[1] == s and g[2] == NL

def clash(p, q):
    """do the paths of two walks exclude each other?"""
    a = {untyped(p.norm(k)): f for k, f in p.st.facts.items() if k[0] in ('idx', 'pred', 'strval')}
    for k, f in q.st.facts.items():
        if k[0] not in ('idx', 'pred', 'strval'): continue
        k = untyped(q.norm(k))
        g = a.get(k)
        if g is None or g == f: continue
        if isinstance(f, int) and isinstance(g, int): return True
        if isinstance(f, int) and isinstance(g, tuple) and g[0] == 'ne' and f in g[1]: return True
        if isinstance(g, int) and isinstance(f, tuple) and f[0] == 'ne' and g in f[1]: return True
    return False

def clear(t):
    """is a normal form made only of the bytes, the position, the line and the
    numbers read from them?"""
    def ok_(x):
        if not isinstance(x, tuple): return True
        if x[0] in ('B', 'P', 'K', 'int', 'strval', 'str'): return True
        if x[0] == 'lin': return all(ok_(b) for b, k in x[2])
        if x[0] in ('num', 'len'): return ok_(x[1])
        if x[0] == 'idx': return ok_(x[1]) and ok_(x[2])
        if x[0] == 'sl': return ok_(x[1]) and ok_(x[2]) and ok_(x[3])
        return False
    return ok_(t)

def differ(a, b):
    """True: two normal forms of positions differ, False: they are equal, None"""
    d = sub(untyped(a), untyped(b))
    if d == I(0): return False
    if clear(a) and clear(b): return True
    return None

def payload(p):
    """the value a walk gives: (variant, [fields])"""
    if p.v is None or p.v[0] != 'agg' or p.v[3] != 'Ok' or not p.v[4]: return None
    x = plain(p.v[4][0])
    if x[0] != 'agg' or x[1] != 'adt': return None
    return x[3], [plain(y) for y in x[4]]

def deepplain(t):
    while isinstance(t, tuple) and t and (t[0] in ('deref', '*') and isinstance(t[1], tuple)): t = t[1]
    return t

def check_P05(M, R):
    """The two walks are compared path by path: the types accepted, where each
    accepted message ends, how many nested messages it has and from where to
    where, which bytes or numbers the value given is made of, and that a message
    is called incomplete only when its end is not there."""
    if not have_decoders(M, R): return
    D = decoders(M)
    C, P = D['Frame::check'], D['Frame::parse']
    acc = {}
    for name, ds in D.items():
        for d in ds:
            okk = set(); unk = False
            for p in d.paths:
                if p.kind != 'ret': continue
                if p.out == 'Ok' or p.out is None:
                    if p.T is not None: okk.add(p.T)
                    elif p.out == 'Ok':
                        if p.notT is not None: R.bad('unknown-type:%s' % name, 'a message of a type which is not known is accepted', path_site(M, d, p))
                        elif any(k[0] == 'idx' or mentions(k, lambda x: x[0] == 'idx' and x[2] == d.P) for k in p.st.facts): R.unk('a message is accepted for a type which is not followed'); unk = True
                        else: R.bad('any-type:%s' % name, 'a message is accepted whatever its type', path_site(M, d, p))
                elif p.T is None and p.notT is not None and p.out == 'Incomplete' and not ups(d, p)[0]:
                    R.bad('unknown-type:%s' % name, 'a message of a type which is not known is waited for', path_site(M, d, p))
                elif p.T is None and p.notT is not None and p.out == 'Err': R.hold('a type which is not known is refused', name)
            acc[d.bid] = None if unk else okk
    # pairs of walks which correspond
    pairs = [(C[0], P[0])]
    if len(C) == 2 and len(P) == 2: pairs.append((C[1], P[1]))
    elif len(C) > 1 or len(P) > 1: R.unk('how the functions of the two walks correspond is not known')
    for c, q in pairs:
        a, b = acc[c.bid], acc[q.bid]
        if a is None or b is None: continue
        for T in sorted(a | b):
            if T in a and T in b: R.hold('both accept the type', chr(T))
            elif T in a: R.bad('type:%d' % T, 'the check accepts a message of type %r, which the decoder refuses' % chr(T), M.F.bodies[q.bid]['path'])
            else: R.bad('type:%d' % T, 'the decoder accepts a message of type %r, which the check refuses' % chr(T), M.F.bodies[c.bid]['path'])
        ends(M, R, c, q, a & b)
    for d in C:
        consumed(M, R, 'Frame::check', d); nested(M, R, 'Frame::check', d); early(M, R, d)
    for d in P:
        consumed(M, R, 'Frame::parse', d); nested(M, R, 'Frame::parse', d); values(M, R, d)
    for name, ds in D.items():
        for d in ds: searches(M, R, name, d)
    refused(M, R, C, P)
    c, p = levels(M, C), levels(M, P)
    if c is not None and p is not None:
        if p < c: R.bad('levels', 'the decoder follows %d levels of nested messages, the check accepts %d' % (p, c), path_site(M, P[-1], P[-1].paths[0]))
        else: R.hold('as many levels of nested messages', '%d, %d' % (c, p))

def levels(M, ds):
    """how many levels of nested messages the functions follow: an argument
    counted down from a constant; None: not told"""
    start = set(); steps = set(); emin = set(); leaf = set()
    rec = {t for d in ds for t, _, _, _ in edges(M, d) if t == d.bid}
    if len(rec) != 1: return None
    rec = rec.pop(); key = None
    def least(st, q):
        n = 0
        while n < 64 and M.E.prove_ge0(st, sub(q, I(n + 1))): n += 1
        return n
    for d in ds:
        par = params(M, d)
        if d.bid != rec: continue
        for t, a, p, e in edges(M, d):
            if t != rec: return None
            cs = [(k, step_of(plain(v), par[k])) for k, v in a.items() if k in par and not is_cursor(M, d, k)]
            cs = [(k, c) for k, c in cs if c]
            if len(cs) != 1 or cs[0][1] >= 0 or key not in (None, cs[0][0]): return None
            key = cs[0][0]; steps.add(-cs[0][1]); emin.add(least(p.st, par[key]))
        if key is None: return None
        for T in LINE:
            for p in accepted(d, T): leaf.add(least(p.st, par[key]))
    for d in ds:
        if d.bid == rec and len(ds) > 1: continue
        for t, a, p, e in edges(M, d):
            if t == rec and key in a: start.add(plain(a[key]))
    if len(start) != 1 or len(steps) != 1 or not emin or not leaf: return None
    s0 = start.pop()
    if s0[0] != 'int': return None
    c = steps.pop(); n = s0[1]
    return max(0, min((n - min(emin)) // c + 1, (n - min(leaf)) // c))

def bounds_of(p):
    """what a path knows of announced numbers against constants"""
    out = set()
    for k, f in p.st.facts.items():
        if k[0] != 'cmp' or k[1] != 'lt': continue
        a, b = k[2], k[3]
        if a[0] == 'int' and b[0] == 'num': out.add((a[1], 'above' if f else 'upto'))
        elif b[0] == 'int' and a[0] == 'num': out.add((b[1] - 1, 'upto' if f else 'above'))
    return out

def known_key(p):
    """the fact that a key was in a map already when it is inserted"""
    for k, f in p.st.facts.items():
        if k[0] == 'discr' and k[1][0] == 'call' and k[1][1].split('::')[-1] == 'insert' and f == 1 and mentions(k[1], lambda x: x[0] == 'recret'): return True
        if k[0] in ('pred', 'call', 'insres') and f == 1 and mentions(k, lambda x: x[0] == 'recret') and 'contains_key' in repr(k)[:300]: return True
    return False

def refused(M, R, C, P):
    """what the check accepts is not refused by the decoder for a length or a
    key the check never looks at"""
    chk = set()
    for d in C:
        for p in d.paths: chk |= {c for c, _ in bounds_of(p)}
    for d in P:
        oks = [p for p in d.paths if p.kind == 'ret' and p.out == 'Ok']
        for p in d.paths:
            if p.kind != 'ret' or p.out != 'Err' or p.T is None: continue
            same = [o for o in oks if o.T == p.T]
            if any(rec_ok(p, e) != 'Ok' for e in p.recs): continue
            for c, w in bounds_of(p):
                if w == 'above' and c < (1 << 62) and c not in chk and c > 0 and not p.recs and any((c, 'upto') in bounds_of(o) for o in same):
                    R.bad('refused:%d' % p.T, 'the decoder refuses a message of type %r for a number above %d, which the check accepts' % (chr(p.T), c), path_site(M, d, p))
            if p.T in AGG and p.recs and known_key(p) and any(not known_key(o) for o in same):
                R.bad('refused:%d' % p.T, 'the decoder refuses a message of type %r with twice the same key, which the check accepts' % chr(p.T), path_site(M, d, p))
    R.hold('nothing the check accepts is refused for its length or its keys')

def accepted(d, T):
    return [p for p in d.paths if p.kind == 'ret' and p.out == 'Ok' and p.T == T]

def lone_cr(p):
    """does the line of a path end where a search found a carriage return,
    whatever byte follows it?"""
    ks = set(p.kback)
    if len(ks) != 1: return False
    k = ks.pop()
    if k[1] != add(('P',), I(1)) or k[2] != ((0, 13),): return False
    nxt = add(k, I(1))
    for f in p.st.facts:
        n = untyped(p.norm(f))
        if mentions(n, lambda x: x[0] == 'idx' and differ(x[2], nxt) is not True and x[2] != k): return False
        if mentions(n, lambda x: x[0] in ('K', 'call', 'pred', 'is', 'strval') and x != k) and mentions(n, lambda x: x == k) and n[0] not in ('cmp', 'idx', 'pred', 'num'): return False
    return True

def is_nl(p):
    g = p.group()
    return len(g) == 1 and is_line(g[0])

def ends(M, R, c, q, types):
    """the same bytes are consumed by both"""
    for T in sorted(types):
        if T in AGG or any(p.recs for p in accepted(c, T) + accepted(q, T)): continue
        for y in accepted(q, T):
            ws = [x for x in accepted(c, T) if (x.group() == y.group() or not x.group()) and not clash(x, y)]
            if not ws:
                other = [x for x in accepted(c, T) if not clash(x, y)]
                if other and all(differ(x.norm(x.pos), y.norm(y.pos)) for x in other if x.pos is not None) and y.pos is not None and len({repr(g) for g in [y.group()] + [o.group() for o in other]}) <= 3 and all(g[0] == 'K' for g in y.group()) and all(g[0] == 'K' for o in other for g in o.group()):
                    R.bad('lines:%d' % T, 'for type %r the check and the decoder look for different ends of line' % chr(T), path_site(M, q, y))
                elif other and (lone_cr(y) and all(x.group() and x.group()[0] and is_line(x.group()[0]) for x in other)):
                    R.bad('lines:%d' % T, 'for type %r the decoder ends a line at a lone carriage return, the check does not' % chr(T), path_site(M, q, y))
                elif other and is_nl(y) and all(lone_cr(x) for x in other if not x.group()) and any(lone_cr(x) for x in other):
                    R.bad('lines:%d' % T, 'for type %r the check ends a line at a lone carriage return, the decoder does not' % chr(T), path_site(M, q, y))
                else: R.unk('no check corresponds to a decoding of type %r' % chr(T))
                continue
            for x in ws:
                if x.pos is None or y.pos is None: R.unk('where a message of type %r ends is not known' % chr(T)); continue
                a, b = x.norm(x.pos), y.norm(y.pos)
                df = differ(a, b)
                if df is False: R.hold('both consume the same bytes', '%s: %s' % (chr(T), pt.pt(a, 5)[:120]))
                elif df is True: R.bad('end:%d' % T, 'for type %r the check ends at %s and the decoder at %s' % (chr(T), pt.pt(a, 5)[:120], pt.pt(b, 5)[:120]), path_site(M, q, y))
                else: R.unk('where a message of type %r ends is not followed: %s, %s' % (chr(T), pt.pt(a, 4)[:80], pt.pt(b, 4)[:80]))

def num_of(g):
    return ('num', ('sl', ('B',), add(('P',), I(1)), g))

def consumed(M, R, name, d):
    """each accepted message ends where the protocol says"""
    for T in LINE + BULK:
        for p in accepted(d, T):
            if p.pos is None: R.unk('where a message ends is not known'); continue
            a = untyped(p.norm(p.pos)); g = line_end(p)
            want = None
            minus = any(f == 45 and untyped(p.norm(k)) == ('idx', ('B',), add(('P',), I(1))) for k, f in p.st.facts.items() if k[0] == 'idx')
            if T in LINE and g is not None and is_line(g): want = add(g, I(2))
            elif T in BULK and minus: want = add(('P',), I(5))
            elif T in BULK and g is not None and is_line(g): want = add(add(g, num_of(g)), I(4))
            if want is None:
                if g is not None and g[0] == 'K' and not is_line(g): R.unk('what ends the line of a message of type %r is not followed' % chr(T))
                else: R.unk('where a message of type %r ends is not followed: %s' % (chr(T), pt.pt(a, 4)[:100]))
                continue
            want = untyped(want)
            df = differ(a, want)
            if df and T in BULK and minus and g is not None and differ(a, add(g, I(2))) is False: df = False
            if df is False: R.hold('%s consumes the whole message' % name, '%s: %s' % (chr(T), pt.pt(a, 5)[:120]))
            elif df: R.bad('length:%s:%d' % (name, T), '%s ends a message of type %r at %s instead of %s' % (name, chr(T), pt.pt(a, 5)[:120], pt.pt(want, 5)[:120]), path_site(M, d, p))
            else: R.unk('where a message of type %r ends is not followed: %s' % (chr(T), pt.pt(a, 4)[:100]))

def chain(M, d, p, recs, start):
    """do the nested messages follow one another from a position?  (True/False/
    None, where they end)"""
    at = start
    for e in recs:
        c = [x for x in e[3] if isinstance(x, tuple) and x[0] == 'agg' and x[2] == models.CURSOR]
        if not c: return None, None
        pos = plain(c[0][4][1])
        if pos != at:
            df = sub(pos, at) if at is not None else None
            if df is not None and df[0] == 'int': return False, None
            return None, None
        i = e[3].index(c[0])
        at = ('posafter', ('rec', e[1], i, e[5], e[3]))
    return True, at

def nested(M, R, name, d):
    for T in AGG:
        per = 1 if T == 42 else 2
        ps = accepted(d, T)
        for p in ps:
            r = tally(M, d, p)
            g = line_end(p)
            site = path_site(M, d, p)
            if g is None or not is_line(g): R.unk('the line of a message of type %r is not followed' % chr(T)); continue
            want = scale(num_of(g), per)
            # every nested message answers
            for e in p.recs:
                f = rec_ok(p, e)
                if f == 'Ok': R.hold('the answer of each nested message is used')
                elif f is None and not (p.v == ('recret', e[1], e[3], e[5])): R.bad('ignored:%s:%d' % (name, T), 'the answer for a nested message is not looked at', where(e))
            if r is None: R.unk('%s: how many nested messages a message of type %r has is not followed' % (name, chr(T))); continue
            if r[0] == 'sum':
                got = untyped(p.norm(r[1])); df = differ(got, want)
                if df is False: R.hold('as many nested messages as announced', '%s %s: %s' % (name, chr(T), pt.pt(got, 5)[:120]))
                elif df: R.bad('count:%s:%d' % (name, T), '%s takes %s nested messages for a message of type %r instead of %s' % (name, pt.pt(got, 5)[:100], chr(T), pt.pt(want, 5)[:100]), site)
                elif (got[0] == 'call' and got[1].split('::')[-1] in ('wrapping_mul', 'wrapping_add') and len(got[2]) == 2 and not strange_in(got[2])):
                    # cut to 64 bits: as announced only as far as it fits
                    raw = r[1]
                    raw = raw if raw[0] == 'call' else next((x for x in subterms(raw) if x[0] == 'call' and x[1] == got[1]), got)
                    a, b = raw[2]
                    full = add(a, b) if got[1].endswith('wrapping_add') else scale(a, b[1]) if b[0] == 'int' else scale(b, a[1]) if a[0] == 'int' else None
                    if full is None: R.unk('%s: how many nested messages a message of type %r has is not followed: %s' % (name, chr(T), pt.pt(got, 4)[:80]))
                    elif M.E.prove_ge0(p.st, sub(I((1 << 64) - 1), full)): R.hold('as many nested messages as announced')
                    else: R.bad('count:%s:%d' % (name, T), '%s takes the number of nested messages of a message of type %r modulo 2^64: %s' % (name, chr(T), pt.pt(got, 5)[:100]), site)
                else: R.unk('%s: how many nested messages a message of type %r has is not followed: %s' % (name, chr(T), pt.pt(got, 4)[:80]))
                l = r[2]
                turn(M, R, name, d, T, l, g, p)
            elif r[0] == 'count':
                n = r[1]
                nums = [t for k in list(p.st.facts) for t in subterms(k) if t[0] == 'num' and untyped(p.norm(t)) == num_of(g)]
                if not nums:
                    if n == 0 and not element_loops(d, T): R.unk('%s: how the nested messages of type %r are walked over is not followed' % (name, chr(T)))
                    else: R.unk('%s: the announced number of type %r is not followed' % (name, chr(T)))
                    continue
                q = scale(nums[0], per)
                a, b = M.E.prove_ge0(p.st, sub(q, I(n))), M.E.prove_ge0(p.st, sub(I(n), q))
                if a and b or b and n == 0: R.hold('as many nested messages as announced', '%s %s: %d' % (name, chr(T), n))
                elif n == 0 and b is False and not element_loops(d, T): R.unk('%s: how the nested messages of type %r are walked over is not followed' % (name, chr(T)))
                else:
                    s2 = p.st.copy()
                    more = M.E.add_lin(s2, sub(q, I(n + 1)))
                    if more and not strange(p): R.bad('early:%s:%d' % (name, T), '%s accepts a message of type %r after %d nested messages, whatever the number announced' % (name, chr(T), n), site)
                    else: R.unk('%s: how many nested messages a message of type %r has is not known' % (name, chr(T)))
            elif r[0] == 'early':
                if not strange(p): R.bad('early:%s:%d' % (name, T), '%s accepts a message of type %r before its last nested message' % (name, chr(T)), site)
                else: R.unk('%s: how many nested messages a message of type %r has is not known' % (name, chr(T)))

def strange_in(ts):
    return any(x[0] in ('undef', 'havoc', 'gone', 'proj', 'eff', 'collect', 'closarg', 'anyelem', 'rv', 'call', 'phi') for t in ts for x in subterms(t))

def strange(p):
    """does a path depend on something not followed?"""
    for k, f in p.st.facts.items():
        for x in subterms(k):
            if x[0] in ('undef', 'havoc', 'gone', 'proj', 'eff', 'collect', 'closarg', 'itafter', 'anyelem', 'rv', 'un', 'rmw', 'readinto', 'closure', 'call'): return True
    return False

def turn(M, R, name, d, T, l, g, p):
    """an iteration: the nested messages follow one another"""
    E = M.E
    q = l.p; last = [i for i, e in enumerate(q.ev) if e[0] == 'loop' and e[1] == l.h]
    cur0 = cursor_place(d, l)
    if cur0 is None: R.unk('%s: the position in a loop over nested messages is not followed' % name); return
    phi, ini = cur0
    okk, at = chain(M, d, q, l.recs, phi)
    end = q.pos
    site = path_site(M, d, q)
    want = add(g, I(2))
    i0 = p.norm(ini) if ini is not None else None
    if i0 is None or differ(i0, want) is None: R.unk('%s: where the nested messages start is not followed' % name)
    elif differ(i0, want): R.bad('first:%s:%d' % (name, T), '%s: the first nested message of type %r starts at %s instead of %s' % (name, chr(T), pt.pt(i0, 5)[:100], pt.pt(want, 5)[:100]), site)
    else: R.hold('the nested messages start after the line')
    if okk is None: R.unk('%s: whether the nested messages follow one another is not known' % name)
    elif okk is False: R.bad('gap:%s:%d' % (name, T), '%s: bytes are skipped between the nested messages of type %r' % (name, chr(T)), site)
    elif end == at and p.pos == phi: R.hold('the nested messages follow one another')
    else:
        a = sub(end, at); b = sub(p.pos, phi)
        if a[0] == 'int' and b[0] == 'int': R.bad('gap:%s:%d' % (name, T), '%s: bytes are skipped after a nested message of type %r' % (name, chr(T)), site)
        else: R.unk('%s: whether the nested messages follow one another is not known' % name)
    for e in l.recs:
        f = rec_ok(q, e)
        if f == 'Ok': R.hold('the answer of each nested message is used')
        elif f is None: R.bad('ignored:%s:%d' % (name, T), 'the answer for a nested message is not looked at', where(e))
        elif f == 'Err': R.bad('ignored:%s:%d' % (name, T), 'the next nested message is looked for although one failed', where(e))

def cursor_place(d, l):
    """the position at the head of a loop: (its value there, the one it was
    entered with)"""
    c = l.ent.mem.get(d.cur)
    if c is None or c[0] != 'agg': return None
    ini = c[4][1]
    inst = d.M.E.entries[l.eid][1]
    phi = ('phi', (l.h[0], l.h[1], d.cur, inst), (('f', 1, None),))
    return phi, ini

def early(M, R, d):
    """incomplete only when the end of the message is not there"""
    E = M.E
    for p in d.paths:
        if p.kind != 'ret' or p.out != 'Incomplete': continue
        if any(rec_ok(p, e) == 'Err' for e in p.recs): continue
        up, unk = ups(d, p)
        site = path_site(M, d, p)
        L = length(d.B)
        if p.T is None:
            need = [add(d.P, I(1))]
        else:
            qs = [q for q in accepted(d, p.T) if not q.recs and (q.group() == p.group()) and not clash(p, q)]
            need = []
            if p.group() or any(not q.group() for q in qs):
                back = unsub(p)
                for q in qs:
                    t = renorm2(q.norm(q.pos), back) if q.pos is not None else None
                    if t is not None and not mentions(t, lambda x: x[0] in ('B', 'P', 'K')): need.append(t)
                    else: need.append(None)
            if not p.group():
                # the line was not found: no line break can be left
                s = search_at(p)
                minus = any(f == 45 for k, f in p.st.facts.items() if k[0] == 'idx')
                if s is not None and not need: need.append(add(s, I(2)))
                elif not need and p.T in BULK and not [k for k in p.st.facts if k[0] == 'idx' and k[2] != d.P]: need.append(add(d.P, I(2)))
            elif p.T in AGG and not qs: pass
        if not need or None in need:
            if not up and not unk: R.hold('incomplete is only said of what is not there') if False else R.unk('%s: when a message of type %s is incomplete is not followed' % ('Frame::check', p.T))
            else: R.unk('when a message of type %s is incomplete is not followed' % p.T)
            continue
        # the end of the message, if it is there, lies within the bytes
        okk = all(E.prove_ge0(p.st, sub(t, add(L, I(1)))) for t in need)
        if okk: R.hold('incomplete is only said of what is not there', '%s: %s' % (p.T, pt.pt(p.norm(need[0]), 4)[:100])); continue
        s2 = p.st.copy()
        if all(E.add_lin(p.st.copy(), sub(L, t)) for t in need) and up and not unk and not strange(p): R.bad('waits:%s' % p.T, 'a message of type %s which is there is waited for: %s bytes would do' % (repr(chr(p.T)) if p.T else 'any', pt.pt(p.norm(need[0]), 4)[:100]), site)
        elif not up and not unk and not strange(p): R.bad('waits:%s' % p.T, 'a message of type %s is waited for whatever bytes are there' % (repr(chr(p.T)) if p.T else 'any'), site)
        else: R.unk('when a message of type %s is incomplete is not known' % p.T)

def unsub(p):
    back = {('B',): p.d.B, ('P',): p.d.P}
    back.update(p.kback)
    return back

def search_at(p):
    """where the search of the line stood when it gave up: the position the last
    test on the number of bytes speaks of"""
    d = p.d
    for e in reversed(p.ev):
        if e[0] in ('enter', 'loop') and len(e) > 2:
            ent, inst = d.M.E.entries[e[2]]
            for k, f in reversed(list(p.st.facts.items())):
                if k[0] == 'cmp' and k[1] == 'lt' and f == 0:
                    ph = [x for x in subterms(k) if x[0] == 'phi' and x[1][:2] == e[1] and x[1][3] == inst]
                    if ph and e[0] == 'loop': return ph[0]
            if e[0] == 'enter':
                # not even once round
                return add(d.P, I(1)) if p.pos == add(d.P, I(1)) else p.pos
    return None

def searches(M, R, name, d):
    """a search of the end of a line tries each position in turn"""
    E = M.E
    for p in d.paths:
        if p.kind == 'ret' or p.back is None: continue
        stk, head, _ = p.back
        last = max([i for i, e in enumerate(p.ev) if e[0] == 'loop' and e[1] == (stk[-1], head)] or [-1])
        if last < 0 or any(e[0] == 'rec' for e in p.ev[last:]): continue
        inst = E.entries[p.ev[last][2]][1]
        mine = lambda t: t[0] == 'phi' and t[1][:2] == (stk[-1], head) and t[1][3] == inst
        ph = {x for k in p.st.facts for x in subterms(k) if mine(x) and any(y[0] == 'idx' and lin_of(y[2])[1].get(x) for y in subterms(k))}
        for x in ph:
            nx = at_place(E, p.st, x)
            if nx is None: continue
            st = sub(nx, x)
            if st == I(1):
                # what was passed over is no line break
                at = {}
                for k, f in p.st.facts.items():
                    if k[0] == 'idx':
                        o = sub(k[2], x)
                        if o[0] == 'int': at[o[1]] = f
                def isnt(o, b):
                    f = at.get(o)
                    return isinstance(f, int) and f != b or isinstance(f, tuple) and f[0] == 'ne' and b in f[1]
                if isnt(0, 13) or isnt(1, 10): R.hold('no line break is passed over', name)
                elif strange(p) or not at: R.unk('what a search passes over is not followed')
                elif all(isinstance(f, int) for f in at.values()) and at.get(0) == 13 and at.get(1) == 10: R.bad('passed:%s' % name, '%s: a line break is passed over' % name, path_site(M, d, p))
                else: R.unk('what a search passes over is not known')
            elif st[0] == 'int' and st[1] > 1:
                R.bad('step:%s' % name, '%s: a search of the end of a line passes over %d bytes at once' % (name, st[1]), path_site(M, d, p))
            else: R.unk('how a search goes on is not followed')

def values(M, R, d):
    """what is decoded is what the bytes denote"""
    E = M.E
    s = add(('P',), I(1))
    for T in LINE + BULK + AGG:
        for p in accepted(d, T):
            g = line_end(p); site = path_site(M, d, p)
            pl = payload(p)
            if pl is None: R.unk('what a message of type %r is decoded to is not followed' % chr(T)); continue
            var, fs = pl
            minus = any(f == 45 and untyped(p.norm(k)) == ('idx', ('B',), s) for k, f in p.st.facts.items() if k[0] == 'idx')
            wantv = 'Null' if T in BULK and minus else KIND[T]
            if var != wantv:
                if var in list(KIND.values()) + ['Null']: R.bad('variant:%d' % T, 'a message of type %r is decoded to %s' % (chr(T), var), site)
                else: R.unk('a message of type %r is decoded to %s' % (chr(T), var))
                continue
            if wantv == 'Null': R.hold('the value decoded is what the bytes denote', 'Null'); continue
            if g is None or not is_line(g): R.unk('the line of a message of type %r is not followed' % chr(T)); continue
            if not fs: R.unk('a message of type %r is decoded to nothing' % chr(T)); continue
            x = deepplain(fs[0])
            if T in LINE[:2] or T in BULK:
                want = ('sl', ('B',), s, g) if T in LINE else ('sl', ('B',), add(g, I(2)), add(add(g, I(2)), num_of(g)))
                got = untyped(p.norm(bytes_in(x)))
                got = canon(E, got) if got[0] in ('take', 'dropn', 'sl') else got
                eq = got == untyped(want)
                if eq: R.hold('the value decoded is what the bytes denote', '%s: %s' % (chr(T), pt.pt(got, 5)[:120]))
                elif got[0] == 'sl' and clear(got): R.bad('value:%d' % T, 'a message of type %r is decoded to %s instead of %s' % (chr(T), pt.pt(got, 6)[:140], pt.pt(want, 6)[:140]), site)
                elif clear(got) : R.bad('value:%d' % T, 'a message of type %r is decoded to %s instead of %s' % (chr(T), pt.pt(got, 6)[:140], pt.pt(want, 6)[:140]), site)
                else: R.unk('what a message of type %r is decoded to is not followed: %s' % (chr(T), pt.pt(got, 4)[:100]))
            elif T == 58:
                got = untyped(p.norm(x)); want = num_of(g)
                cut = [y for y in subterms(p.v) if y[0] == 'cast' and narrowing(M, y)]
                if cut and got == want: R.bad('value:%d' % T, 'part of the number of a message of type %r is lost: %s' % (chr(T), pt.pt(p.norm(cut[0]), 5)[:120]), site)
                elif got == want: R.hold('the value decoded is what the bytes denote', '%s: %s' % (chr(T), pt.pt(got, 5)[:120]))
                elif clear(got): R.bad('value:%d' % T, 'a message of type %r is decoded to %s' % (chr(T), pt.pt(got, 6)[:140]), site)
                else: R.unk('what a message of type %r is decoded to is not followed: %s' % (chr(T), pt.pt(got, 4)[:100]))
            else: collection(M, R, d, T, p, x, site)

def bytes_in(t):
    """the bytes a text or buffer is over"""
    while isinstance(t, tuple) and t and t[0] == 'agg' and t[1] == 'adt' and len(t[4]) == 1: t = t[4][0]
    return deepplain(t)

REORDERS = ('reverse', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'rotate_left', 'rotate_right', 'dedup', 'pop', 'clear', 'sort_keys', 'shuffle')
def collection(M, R, d, T, p, x, site):
    """an array or a map holds the nested messages, in order"""
    E = M.E
    if x == ('cat', ()):
        r = tally(M, d, p)
        if r is not None and r[0] == 'count' and r[1] == 0: R.hold('the nested messages are kept in order', 'none')
        elif r is None: R.unk('what a message of type %r is decoded to is not followed' % chr(T))
        else: R.bad('kept:%d' % T, 'the nested messages of type %r are not kept' % chr(T), site)
        return
    by = x[1][1] if x[0] == 'eff' and x[1][0] == 'ext' and isinstance(x[1][1], str) and x[1][1].split('::')[-1] in REORDERS else 'reverse or sort' if x[0] == 'sorted' else None
    ini = x[2] if x[0] == 'eff' else x[1] if x[0] == 'sorted' else None
    if by is not None and (ini == ('cat', ()) or ini[0] in ('phi', 'cat')):
        # what was collected, if it is in order (looked at apart), no longer is
        if ini[0] == 'phi' and ini[1][:2] in element_loops(d, T): R.bad('order:%d' % T, 'the nested messages of type %r are put in another order: %s' % (chr(T), by), site)
        elif ini != ('cat', ()): R.unk('what a message of type %r is decoded to is not followed' % chr(T))
        return
    if x[0] != 'phi':
        R.unk('what a message of type %r is decoded to is not followed: %s' % (chr(T), pt.pt(x, 4)[:80])); return
    loops = element_loops(d, T)
    h = x[1][:2]
    if h not in loops: R.unk('what a message of type %r is decoded to is a value of another loop' % chr(T)); return
    ini = p.init(x)
    if ini != ('cat', ()):
        if ini is not None and ini[0] == 'cat' and ini[1]: R.bad('kept:%d' % T, 'what a message of type %r is decoded to does not start empty' % chr(T), site)
        else: R.unk('what a message of type %r is decoded to starts as %s' % (chr(T), pt.pt(ini, 3)[:60] if ini else None))
        return
    for q, last in loops[h]:
        if q.ev[last][0] != 'loop' or E.entries[q.ev[last][2]][1] != x[1][3]: continue
        nv = at_place(E, q.st, x)
        pays = [('fld', ('recret', e[1], e[3], e[5]), 'Ok', 0) for e in q.ev[last:] if e[0] == 'rec']
        if nv is None: R.unk('what is kept of a nested message is not followed'); continue
        qs = path_site(M, d, q)
        if T == 42:
            if nv[0] == 'cat' and nv[1] and nv[1][0] == x and [plain(y[1]) for y in nv[1][1:] if y[0] == 'one'] == pays and len(nv[1]) == 1 + len(pays): R.hold('the nested messages are kept in order', pt.pt(nv, 3)[:100])
            elif nv == x: R.bad('kept:%d' % T, 'a nested message of type %r is not kept' % chr(T), qs)
            elif nv[0] == 'cat' and x in nv[1] and all(y == x or y[0] == 'one' and plain(y[1]) in pays for y in nv[1]):
                R.bad('order:%d' % T, 'the nested messages of type %r are kept in another order, or not once each' % chr(T), qs)
            elif nv[0] == 'cat' and not fuzzy_but(nv, lambda y: y == x) and x in nv[1]: R.bad('order:%d' % T, 'what is kept of the nested messages of type %r is something else: %s' % (chr(T), pt.pt(nv, 4)[:100]), qs)
            else: R.unk('what is kept of a nested message is not followed: %s' % pt.pt(nv, 3)[:80])
        else:
            if nv[0] == 'mapins' and nv[1] == x and len(pays) == 2 and [plain(y) for y in nv[2:4]] == pays: R.hold('the nested messages are kept in order', pt.pt(nv, 3)[:100])
            elif nv == x: R.bad('kept:%d' % T, 'a nested message of type %r is not kept' % chr(T), qs)
            elif nv[0] == 'mapins' and nv[1] == x and all(plain(y) in pays for y in nv[2:4]): R.bad('order:%d' % T, 'keys and values of type %r are exchanged' % chr(T), qs)
            else: R.unk('what is kept of a nested message is not followed: %s' % pt.pt(nv, 3)[:80])

# ---------------------------------------------------------------- P06
def check_P06(M, R):
    """On each path of the reading task: a failed read, a read of no byte, a
    malformed message end the task without a message being delivered after it;
    an incomplete message leads to a read; the end of the stream is an error
    exactly when bytes are pending."""
    if not have_decoders(M, R): return
    E = M.E
    ws = walks(M)
    if not ws: R.unk('who reads messages is not known'); return
    heads = set()
    for w in ws:
        if w.kind == 'back' and any(s.k == 'check' for s in w.since_head()): heads.add((w.back[0][-1], w.back[1]))
    reads = False
    for w in ws:
        fatal = None; fsite = None; inc = False
        for i, s in enumerate(w.steps):
            if fatal is not None:
                if s.k == 'send' and mentions(s.val, lambda x: x[0] == 'recret'): R.bad('delivered:%s' % fatal, 'a message is delivered after %s' % fatal, s.site)
                elif s.k in ('read', 'check', 'parse') : R.bad('goes-on:%s' % fatal, 'the connection goes on after %s' % fatal, s.site); break
                continue
            if s.k == 'check':
                if s.out == 'Err':
                    if s.err == 'Incomplete': inc = True
                    elif s.err is not None: fatal = 'a malformed message'; fsite = s.site
                    else:
                        fatal = None; inc = None
                        nx = [x for x in w.steps[i + 1:] if x.k in ('read', 'check', 'parse', 'send')]
                        pay = ('fld', s.res, 'Err', 0)
                        if nx and nx[0].k == 'read' or not nx and w.kind == 'back':
                            if s.res is None or s.res[0] != 'recret' or any(mentions(k, lambda x: x == pay) for k in w.st.facts) or any(e[0] in ('ext', 'closure') and mentions(('x',) + tuple(x for x in e[2:] if isinstance(x, tuple)), lambda x: x == pay) for e in w.ev): R.unk('what is done of an error of the check at %s is not followed' % s.site)
                            else: R.bad('waits', 'whether a message is malformed or incomplete is not looked at: more bytes are waited for', s.site)
                elif s.out == 'Ok': inc = False
                else: 
                    nx = [x for x in w.steps[i + 1:] if x.k in ('read', 'parse', 'send')]
                    R.unk('the answer of the check at %s is not looked at' % s.site)
            elif s.k == 'parse':
                if s.out == 'Err': fatal = 'a message which cannot be decoded'; fsite = s.site
            elif s.k == 'read':
                reads = True
                if s.out == 'Err': fatal = 'a failed read'; fsite = s.site
                elif s.zero: fatal = 'the end of the stream'; fsite = s.site
                elif s.out is None or s.zero is None:
                    later = [x for x in w.steps[i + 1:] if x.k in ('read', 'check', 'parse', 'send')]
                    if (later or w.kind == 'back') and not fuzzy_read(w, s): R.bad('unchecked-read:%s' % s.site.split(' at ')[0], 'whether a read failed or reached the end of the stream is not looked at', s.site)
                    elif later or w.kind == 'back': R.unk('the result of the read at %s is not followed' % s.site)
                elif s.zero is False: inc = False
        if fatal is not None:
            if w.kind == 'back' and (w.back[0][-1], w.back[1]) in heads:
                R.bad('loop:%s' % fatal, 'the connection goes on after %s' % fatal, fsite)
            elif w.kind == 'ret':
                ended(M, R, w, fatal, fsite)
        elif w.kind == 'back' and (w.back[0][-1], w.back[1]) in heads:
            it = w.since_head()
            prog = any(s.k == 'read' and s.zero is False or s.k == 'parse' and s.out == 'Ok' for s in it)
            if prog: R.hold('each turn reads bytes or decodes a message')
            elif any(s.k == 'check' for s in it): 
                if any(s.k == 'read' for s in it): R.unk('whether a turn reads bytes is not known')
                elif any(s.k == 'check' and s.out is None for s in it): R.unk('what a turn does is not followed')
                else: R.bad('spin', 'a turn of the reading task neither reads bytes nor decodes a message', it[-1].site or w.steps[-1].site or w.u.name)
        elif w.kind == 'ret':
            # the task ends though nothing is wrong: only when nobody is left to
            # take the messages
            last = [s for s in w.steps if s.k in ('check', 'parse', 'read', 'send')]
            if last and last[-1].k == 'check' and last[-1].out == 'Err' and last[-1].err == 'Incomplete':
                if strange_end(w): R.unk('why the reading task ends is not followed')
                else: R.bad('gives-up', 'an incomplete message ends the connection', last[-1].site)
    for d in decoders(M)['Frame::check']:
        for p in d.paths:
            if p.kind != 'ret' or p.out != 'Incomplete' or p.T is None: continue
            if p.recs: continue
            up, unk = ups(d, p)
            if up: R.hold('an incomplete message is one which more bytes can complete'); continue
            if unk or strange(p): R.unk('what makes a message of type %r incomplete is not followed' % chr(p.T))
            else: R.bad('waits:%d' % p.T, 'a message of type %r which no more bytes can complete is waited for: %s' % (chr(p.T), ', '.join('%s is %s' % (pt.pt(p.norm(k), 4)[:80], f) for k, f in list(p.st.facts.items())[-2:])), path_site(M, d, p))
    if reads:
        # the end of the stream with nothing pending: some path ends without
        # error there
        def after_read(w):
            st = [s for s in w.steps if s.k in ('check', 'parse', 'read', 'send')]
            i = [j for j, s in enumerate(st) if s.k == 'read']
            return bool(i) and not any(s.k == 'send' for s in st[i[-1]:])
        fin = [w for w in ws if w.kind == 'ret' and after_read(w)]
        at_end = [w for w in fin if [s for s in w.steps if s.k == 'read'][-1].zero is not False and [s for s in w.steps if s.k in ('check', 'parse', 'read')][-1].k == 'read']
        if at_end:
            if any(not (w.v is not None and w.v[0] == 'agg' and w.v[3] == 'Err') for w in fin): R.hold('the stream can end without error')
            else: R.bad('clean-end', 'the stream cannot end between two messages without an error', [s for s in at_end[0].steps if s.k == 'read'][-1].site)
    # nobody else keeps the channel of the messages open
    chans = {}
    for w in ws:
        for s in w.steps:
            if s.k == 'send' and mentions(s.val, lambda x: x[0] == 'recret') and s.e[1][0] == 'tx': chans[s.e[1]] = w.u
    for tx, ru in chans.items():
        for u in M.W.units:
            if u is ru or getattr(u, 'value', None) is None: continue
            if mentions(u.value, lambda x: x == tx):
                waits = any(e[0] == 'recv' and e[1] == ('rx',) + tx[1:] for k, v, st in u.paths() for e in own_events(u, st))
                if waits: R.bad('kept-open:%s' % u.name, 'the task which waits for the messages keeps their channel open itself: it never ends', u.name)
                else: R.unk('%s keeps the channel of the messages open' % u.name)
            else: R.hold('the channel of the messages ends with the reading task', u.name)

def fuzzy_read(w, s):
    return any(mentions(k, lambda x: x == s.res) and k[0] not in ('discr', 'cmp') for k in w.st.facts) or any(k[0] == 'cmp' and mentions(k, lambda x: x == s.res) for k in w.st.facts)

def strange_end(w):
    """is how the task ends decided by something not followed, after the last
    read or check?"""
    ks = list(w.st.facts)
    res = [s.res for s in w.steps if s.k in ('read', 'check') and s.res is not None]
    at = [i for i, k in enumerate(ks) if res and mentions(k, lambda x: x == res[-1])]
    for k in ks[at[0]:] if at else ks:
        for x in subterms(k):
            if x[0] in ('undef', 'havoc', 'gone', 'eff', 'rv', 'call', 'out', 'clock', 'select'): return True
    return any(e[0] == 'select' and False for e in w.ev)

def ended(M, R, w, fatal, site):
    """with or without an error?"""
    E = M.E
    v = w.v
    res = v[3] if v is not None and v[0] == 'agg' and v[3] in ('Ok', 'Err') else None
    if res is None: R.unk('how the connection ends after %s is not followed' % fatal) if v is None or v[0] != 'agg' or v[1] != 'tuple' else R.hold('the connection ends after %s' % fatal, site); return
    if fatal != 'the end of the stream':
        if res == 'Err': R.hold('the connection ends with an error after %s' % fatal, site)
        else: R.bad('silent:%s' % fatal, 'the connection ends without error after %s' % fatal, site)
        return
    loc = loc_of_buffer(w)
    if loc is None: R.unk('what is pending at the end of the stream is not known'); return
    reads = [s for s in w.steps if s.k == 'read']
    B = E.load(w.st, loc)
    # what was pending before the last read, which gave nothing
    lab = reads[-1].res[-1] if reads and reads[-1].res[0] == 'iores' else None
    r = reads[-1].e[3] if lab else None
    if B == EMPTY and r is not None and r[0] == 'slicemut' and r[2] == length(r[1]):
        # dropped meanwhile: what was pending when the read was made
        B = cat(r[1], ('recv', lab))
    n = renorm2(length(canon(E, B)), {('len', ('recv', lab)): I(0)}) if lab else length(canon(E, B))
    empty = E.prove_ge0(w.st, sub(I(0), n)) or sub(n, I(0)) == I(0)
    # nothing was received then, so what is known of both together is known of it
    full = E.prove_ge0(w.st, sub(n, I(1))) or E.prove_ge0(w.st, sub(length(canon(E, B)), I(1)))
    if fuzzy_but(B, lambda x: x[0] == 'phi'): R.unk('what is pending at the end of the stream is not followed'); return
    if res == 'Ok' and empty or res == 'Err' and full: R.hold('the end of the stream is an error exactly when bytes are pending', '%s: %s' % (res, pt.pt(n, 4)[:80]))
    elif strange_end(w): R.unk('how the connection ends at the end of the stream is not followed')
    elif res == 'Ok': R.bad('truncated', 'the stream can end in the middle of a message without an error', site)
    else: R.bad('clean-end', 'the stream can end between two messages with an error', site)
