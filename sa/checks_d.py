"""S08: the ranges of hash slots given to the segments.

The ranges are taken, as terms over the number of segments and the index of the
segment, from the loop (or the closure) which makes them, and compared as
polynomials: the first starts at 0, each starts where the one before ended, and
the last ends at 16384.  MAX % n is MAX - n * (MAX / n).  What cannot be shown
so is looked at for some numbers of segments, to name one which fails."""
from engine import *
from lib import *
import pt

MAXSLOT = 16384

class Cannot(Exception): pass

# ---------------------------------------------------------------- polynomials
def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]: del r[k]
    return r

def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=repr)); r[m] = r.get(m, 0) + v * w
            if not r[m]: del r[m]
    return r

def frozen(p): return tuple(sorted(p.items(), key=repr))

def poly(t, rem=False):
    """{sorted atoms: coefficient}; rem: remainders are atoms"""
    k = t[0]
    if k == 'int': return {(): t[1]} if t[1] else {}
    if k == 'lin':
        r = {(): t[1]} if t[1] else {}
        for b, c in t[2]: r = padd(r, pmul({(): c}, poly(b, rem)))
        return r
    if k in ('cast', 'conv', 'ranged'): return poly(t[1], rem)
    if k == 'bin' and not (rem and t[1] == 'Rem'):
        a, b = poly(t[2], rem), poly(t[3], rem)
        if t[1] == 'Mul': return pmul(a, b)
        if t[1] == 'Add': return padd(a, b)
        if t[1] == 'Sub': return padd(a, b, -1)
        if t[1] == 'Div': return pdiv(a, b)
        if t[1] == 'Rem': return padd(a, pmul(b, pdiv(a, b)), -1)
    return {(t,): 1}

def linear(p):
    """the term of a polynomial without products, None for others"""
    t = I(p.get((), 0))
    for k, v in p.items():
        if len(k) > 1: return None
        for a in k: t = add(t, mk_lin(0, {a: v}))
    return t

def subst(t, m):
    """terms replaced, sums and products made anew"""
    if t in m: return m[t]
    if t[0] == 'lin':
        r = I(t[1])
        for b, c in t[2]:
            x = subst(b, m)
            for _ in range(abs(c)) if abs(c) < 4 else (): r = add(r, x, 1 if c > 0 else -1)
            if abs(c) >= 4:
                k, l = lin_of(x); r = add(r, mk_lin(k * c, {z: w * c for z, w in l.items()}))
        return r
    if t[0] == 'bin' and t[1] == 'Mul':
        a, b = subst(t[2], m), subst(t[3], m)
        if I(0) in (a, b): return I(0)
        if a == I(1): return b
        if b == I(1): return a
        return ('bin', 'Mul', a, b)
    if t[0] == 'bin': return ('bin', t[1], subst(t[2], m), subst(t[3], m))
    if t[0] in ('cmp', 'minof', 'maxof', 'cast', 'not', 'conv', 'ranged'): return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return replace(t, m)

def pdiv(a, b):
    if a == b: return {(): 1}
    if len(b) == 1:
        (m, c), = b.items()
        # what is divided by one atom, when it is a factor of everything
        if c == 1 and len(m) == 1 and a and all(m[0] in k for k in a):
            r = {}
            for k, v in a.items():
                l = list(k); l.remove(m[0]); r[tuple(l)] = v
            return r
        if m == () and all(v % c == 0 for v in a.values()): return {k: v // c for k, v in a.items()}
    if not a: return {}
    return {(('pdiv', frozen(a), frozen(b)),): 1}

def positive(p):
    """no less than 0, all atoms being so"""
    neg = [(k, v) for k, v in p.items() if v < 0]
    if not neg: return True
    p = dict(p)
    for k, v in neg:
        if v != -1 or len(k) != 1 or k[0][0] != 'pdiv': return False
        for l, w in list(p.items()):
            if w >= 1 and len(l) == 1 and l[0][0] == 'pdiv' and l[0][2] == k[0][2] and positive(padd(dict(l[0][1]), dict(k[0][1]), -1)):
                p = padd(padd(p, {k: 1}), {l: -1}); break
        else: return False
    return positive(p)

# ---------------------------------------------------------------- evaluation
def value(t, env):
    if t in env: return env[t]
    k = t[0]
    if k == 'int': return t[1]
    if k == 'lin': return t[1] + sum(c * value(b, env) for b, c in t[2])
    if k == 'cast':
        v = value(t[1], env)
        if t[2] in ('u8', 'u16', 'u32', 'u64', 'usize'): return v % (1 << {'u8': 8, 'u16': 16, 'u32': 32}.get(t[2], 64))
        return v
    if k in ('conv', 'ranged'): return value(t[1], env)
    if k == 'bin':
        a, b = value(t[2], env), value(t[3], env)
        if t[1] in ('Div', 'Rem') and b == 0: raise Cannot('division by 0')
        if t[1] == 'Mul': return a * b
        if t[1] == 'Add': return a + b
        if t[1] == 'Sub': return a - b
        if t[1] == 'Div': return a // b
        if t[1] == 'Rem': return a % b
        if t[1] == 'BitAnd': return a & b
        if t[1] == 'Shr': return a >> b
        if t[1] == 'Shl': return a << b
    if k == 'minof': return min(value(t[1], env), value(t[2], env))
    if k == 'maxof': return max(value(t[1], env), value(t[2], env))
    if k == 'cmp':
        a, b = value(t[2], env), value(t[3], env)
        return int(a < b if t[1] == 'lt' else a <= b if t[1] == 'le' else a == b)
    if k == 'not': return 1 - value(t[1], env)
    if k == 'call' and t[1].startswith('u16::wrapping_'):
        a, b = (value(x, env) for x in t[2]); op = t[1][14:]
        if op in ('mul', 'add', 'sub'): return {'mul': a * b, 'add': a + b, 'sub': a - b}[op] % 65536
    if k == 'call' and t[1] in ('u16::saturating_sub', 'usize::saturating_sub'): return max(0, value(t[2][0], env) - value(t[2][1], env))
    raise Cannot(pt.pt(t, 4))

def holds(facts, env):
    """is the path with these facts the one taken?"""
    for f, v in facts:
        if f[0] == 'cmp' and v in (0, 1):
            try:
                if value(f, env) != v: return False
            except Cannot:
                if mentions(('x',) + f, lambda y: y in env): raise
    return True

# ---------------------------------------------------------------- the ranges
def ranges_of(v):
    """the ranges inside an element, all of them"""
    out = set()
    def go(x):
        if x[0] != 'agg': return
        if x[1] == 'adt' and x[2] == 'core::ops::range::Range' and len(x[4]) == 2: out.add((x[4][0], x[4][1])); return
        # slots which are those of something else
        if x[1] == 'adt' and x[2].endswith('::Slot') and len(x[4]) == 1 and x[4][0][0] != 'agg': out.add((('fld', x[4][0], None, 0), ('fld', x[4][0], None, 1)))
        for y in x[4]: go(y)
    go(v)
    return out

def one_range(v):
    rs = ranges_of(v)
    if len(rs) == 1: return next(iter(rs))
    raise Cannot('an element with %d ranges' % len(rs))

class Loop:
    """the elements made by a loop, one each round"""
    def __init__(self, M, u, phi, ret):
        E = M.E; self.E = E
        bid, head, root, inst = phi[1]
        backs = []
        for stk, h, s in u.backs:
            if stk[-1] != bid or h != head: continue
            ls = [e for e in s.events() if e[0] == 'loop' and e[1] == (bid, head)]
            if ls and ls[-1][2] in E.entries and E.entries[ls[-1][2]][1] == inst: backs.append((s, ls[-1][2]))
        if not backs: raise Cannot('a loop whose rounds are not followed')
        e0 = E.entries[backs[0][1]][0]
        self.mine = lambda y: y[0] == 'phi' and y[1][:2] == (bid, head) and y[1][3] == inst
        def place(s, p):
            v = E.read_root(s, p[1][2])
            for q in p[2]: v = E.project(v, q)
            return v
        self.rounds = []           # (range, facts, {phi: value after the round})
        base = set(e0.facts.items())
        if place(e0, phi) not in (EMPTY, ('agg', 'array', '', '', ())) and place(e0, phi)[0] != 'cat': raise Cannot('what a loop starts with')
        self.before = [p[1] for p in place(e0, phi)[1]] if place(e0, phi)[0] == 'cat' else []
        seen = set()
        for s, _ in backs:
            v = place(s, phi)
            if v[0] != 'cat' or len(v[1]) != 2 or v[1][0] != phi or v[1][1][0] != 'one': raise Cannot('a round which does not add one element: %s' % pt.pt(v, 4))
            rg = ranges_of(v[1][1][1])
            if len(rg) != 1:
                self.odd = rg
            facts = [(f, x) for f, x in s.facts.items() if f[0] == 'cmp' and mentions(('x',) + f, self.mine)]
            over = tuple(f for f, x in s.facts.items() if f[0] == 'ovf' and x == 0)
            used = {y for f, _ in facts for y in subterms(f) if self.mine(y)} | {y for r in rg for z in r for y in subterms(z) if self.mine(y)}
            todo = list(used); after = {}
            while todo:
                y = todo.pop()
                if y in after: continue
                after[y] = place(s, y)
                todo += [z for z in subterms(after[y]) if self.mine(z)]
            k = (frozen_set(rg), frozen_set(facts), frozen_set(after.items()), over)
            if k not in seen: seen.add(k); self.rounds.append((rg, facts, after, s, over))
        phis = {y for r in self.rounds for y in r[2]}
        self.init = {y: place(e0, y) for y in phis}
        for r in self.rounds:
            for y in phis:
                if y not in r[2]: r[2][y] = place(r[3], y)
        # the index: goes up by one while it is below a bound
        self.index = None
        for y in phis:
            if all(r[2][y] == add(y, I(1)) for r in self.rounds):
                bs = None
                for r in self.rounds:
                    b = {f[3] for f, x in r[1] if f[:3] == ('cmp', 'lt', y) and x == 1} | {add(f[3], I(1)) for f, x in r[1] if f[:3] == ('cmp', 'le', y) and x == 1}
                    bs = b if bs is None else bs & b
                bs = [b for b in bs or () if not mentions(b, self.mine)]
                # the bound the loop stops at, when several are known
                rets = [ret.facts]
                bs = [b for b in bs if all(f.get(('cmp', 'lt', y, b)) == 0 or f.get(('cmp', 'le', y, sub(b, I(1)))) == 0 for f in rets)]
                if len(bs) == 1: self.index = (y, self.init[y], bs[0]); break

class Mapped:
    """the elements made by a closure, one for each number of a range"""
    def __init__(self, M, c):
        src = c[1][1] if c[1][0] == 'collect' else c[1]
        if src[0] != 'agg' or src[2] != 'core::ops::range::Range': raise Cannot('elements made of %s' % pt.pt(src, 3))
        self.E = M.E; self.before = []
        y = c[2]; self.index = (y, src[4][0], src[4][1]); self.init = {y: src[4][0]}
        self.rounds = []
        for case in c[3]:
            v, fs = case[0], case[1]
            fs = list(dict(fs).items())
            self.rounds.append((ranges_of(v), [(f, x) for f, x in fs if f[0] == 'cmp'] + [(('cmp', 'lt', y, src[4][1]), 1)], {y: add(y, I(1))}, None, tuple(f for f, x in fs if f[0] == 'ovf' and x == 0)))

def frozen_set(x): return frozenset(x)

def split(E, st, ts, f):
    """do the terms satisfy f, whatever min, max and comparisons inside are?"""
    for t in ts:
        for x in subterms(t):
            if x[0] in ('minof', 'maxof', 'cmp'):
                cond = x if x[0] == 'cmp' else ('cmp', 'lt', x[1], x[2])
                for b in (True, False):
                    s = st.copy()
                    if E.assume(s, cond, b):
                        if not b and cond[1] == 'lt' and not E.add_lin(s, sub(cond[2], cond[3])): continue
                        if x[0] == 'cmp': v = I(int(b))
                        else: v = x[1] if b == (x[0] == 'minof') else x[2]
                        if not split(E, s, [subst(z, {x: v}) for z in ts], f): return False
                return True
    return f(st, ts)

def remainders(E, st, ts):
    """what is known of the remainders inside"""
    for t in ts:
        for x in subterms(t):
            if x[0] == 'bin' and x[1] == 'Rem':
                E.add_lin(st, x)
                if E.prove_ge0(st, sub(x[3], I(1))): E.add_lin(st, sub(sub(x[3], x), I(1)))

def same(E, st, a, b):
    """are two terms the same number on this path?"""
    def f(s, ts):
        d = padd(poly(ts[0]), poly(ts[1]), -1)
        if not d: return True
        l = linear(padd(poly(ts[0], True), poly(ts[1], True), -1))
        return l is not None and E.prove_ge0(s, l) and E.prove_ge0(s, sub(I(0), l))
    remainders(E, st, (a, b))
    return split(E, st, [a, b], f)

def taken(E, st, facts, m=None):
    return all(E.assume(st, subst(f, m) if m else f, bool(x)) for f, x in facts)

def rising(E, st, S, T, n):
    remainders(E, st, (S, T))
    def f(s, ts):
        if positive_under(padd(poly(ts[1]), poly(ts[0]), -1), n): return True
        l = linear(padd(poly(ts[1], True), poly(ts[0], True), -1))
        return l is not None and E.prove_ge0(s, l)
    return split(E, st, [S, T], f)

def bounded(E, st, x, hi, n, top):
    """is a product or sum of what is at most MAX small enough?"""
    def most(t):
        if t[0] == 'int': return t[1]
        if t[0] == 'lin':
            if any(c < 0 for _, c in t[2]): return None
            ms = [most(b) for b, _ in t[2]]
            return None if None in ms else t[1] + sum(c * m for (_, c), m in zip(t[2], ms))
        if t[0] in ('cast', 'conv'): return most(t[1])
        if t[0] == 'bin' and t[1] in ('Div', 'Rem'): return most(t[2])
        if t[0] == 'bin' and t[1] == 'Mul':
            a, b = most(t[2]), most(t[3]); return None if None in (a, b) else a * b
        if E.prove_ge0(st, sub(n, t)): return MAXSLOT
        return None
    m = most(x)
    return m is not None and m <= top

def proves(M, L, tail, n, base):
    """what could not be shown of: the first starts at 0, each starts where the
    one before ends, the last ends at MAX, none ends before it starts"""
    E = M.E; left = []
    goal = I(MAXSLOT)
    if tail or L is None:
        ts = [one_range(v) for v in tail]
        # a number of segments which is known
        k = [c for c in range(1, 4) if E.prove_ge0(base, sub(n, I(c))) and E.prove_ge0(base, sub(I(c), n))]
        m = {n: I(k[0])} if k else {}
        def div(t):
            if t[0] == 'bin' and t[3] == I(1): return t[2] if t[1] == 'Div' else I(0) if t[1] == 'Rem' else t
            return t
        fix = lambda t: subst(t, m)
        if L is None and not same(E, base.copy(), fix(ts[0][0]), I(0)): left.append('the first starts at %s' % pt.pt(ts[0][0], 5))
        for (a, b), (c, d) in zip(ts, ts[1:]):
            if not same(E, base.copy(), fix(b), fix(c)): left.append('one ends at %s, the next starts at %s' % (pt.pt(b, 5), pt.pt(c, 5)))
        if not same(E, base.copy(), fix(ts[-1][1]), goal): left.append('the last ends at %s' % pt.pt(ts[-1][1], 5))
        for a, b in ts:
            if not rising(E, base.copy(), fix(a), fix(b), n): left.append('%s can be above %s' % (pt.pt(a, 5), pt.pt(b, 5)))
        if L is None: return left
        goal = ts[0][0]
    y, lo, hi = L.index; last = sub(hi, I(1))
    for rg, facts, after, s0, over in L.rounds:
        if len(rg) != 1: return ['an element with %d ranges' % len(rg)]
        (S, T), = rg
        # the first
        st = base.copy()
        if E.add_lin(st, sub(last, lo)) and taken(E, st, facts, L.init) and not same(E, st, subst(S, L.init), I(0)): left.append('the first starts at %s' % pt.pt(subst(S, L.init), 5))
        # the next
        st = base.copy()
        if E.add_lin(st, sub(y, lo)) and E.add_lin(st, sub(sub(hi, y), I(2))) and taken(E, st, facts):
            for rg2, facts2, _, _, _ in L.rounds:
                if len(rg2) != 1: continue
                (S2, _), = rg2; s = st.copy()
                if taken(E, s, facts2, after) and not same(E, s, T, subst(S2, after)): left.append('one ends at %s, the next starts at %s' % (pt.pt(T, 5), pt.pt(subst(S2, after), 5)))
        # the last
        st = base.copy(); m = {y: last}
        if E.add_lin(st, sub(last, lo)) and taken(E, st, facts, m):
            t = subst(T, m)
            # what goes up by the same each round: so many times after its first value
            for p in {z for z in subterms(('x', t)) if z in L.init}:
                ds = set()
                for r in L.rounds:
                    s1 = base.copy()
                    if E.add_lin(s1, sub(sub(hi, y), I(2))) and E.add_lin(s1, sub(y, lo)) and taken(E, s1, r[1]): ds.add(sub(r[2][p], p))
                if len(ds) == 1 and not mentions(list(ds)[0], lambda z: z in L.init):
                    t = subst(t, {p: add(L.init[p], ('bin', 'Mul', list(ds)[0], sub(last, lo)))})
            if not same(E, st, t, goal): left.append('the last ends at %s' % pt.pt(t, 5))
        # nothing overflows on the way
        for f in over:
            _, op, a, b, ty = f
            st = base.copy()
            if not (E.add_lin(st, sub(y, lo)) and taken(E, st, facts)): continue
            if op == 'Sub': fine = rising(E, st, b, a, n)
            else:
                x = add(a, b) if op == 'Add' else ('bin', 'Mul', a, b)
                top = (1 << {'u8': 8, 'u16': 16, 'u32': 32}.get(ty, 64)) - 1
                fine = any(rising(E, st.copy(), x, z, n) for z in (S, T, n, hi, I(top)))
                if not fine: fine = bounded(E, st, x, hi, n, top)
            if not fine: left.append('%s can overflow' % pt.pt(('bin', op, a, b), 5))
        # none ends before it starts
        st = base.copy()
        if E.add_lin(st, sub(y, lo)) and taken(E, st, facts) and not rising(E, st, S, T, n): left.append('%s can be above %s' % (pt.pt(S, 5), pt.pt(T, 5)))
    return left

def positive_under(d, n):
    """no less than 0: remainders written out, MAX - n * (MAX / n), are not negative"""
    if positive(d): return True
    q = pdiv({(): MAXSLOT}, poly(n)); r = padd({(): MAXSLOT}, pmul(poly(n), q), -1)
    # one remainder taken away
    if positive(padd(d, r, -1)): return True
    # MAX - i * (MAX / n), with i below n
    if d.get((), 0) == MAXSLOT:
        e = padd({(): MAXSLOT}, d, -1)         # what is taken from MAX
        f = padd(pmul(poly(n), q), e, -1)      # is at most n * (MAX / n)?
        (a,), = [k for k in q] if len(q) == 1 else ((None,),)
        if a is not None and all(a in k for k in f):
            g = {}
            for k, v in f.items():
                l = list(k); l.remove(a); g[tuple(l)] = v
            # n - i, or n - i - c with i + c <= n
            neg = [k for k, v in g.items() if v < 0]
            if len([k for k in neg if k]) <= 1 and g.get(poly_atom(n)) == 1: return True
    return False

def poly_atom(n):
    (k, _), = poly(n).items()
    return k

def witness(L, tail, n, N):
    """the ranges for N segments, checked: None or what is wrong"""
    env = {n: N}
    out = [tuple(value(z, env) for z in one_range(v)) for v in L.before] if L is not None else []
    if L is not None:
        y = L.index[0] if L.index else None
        cur = {p: value(v, env) for p, v in L.init.items() if num_like(v)}
        for k in range(N + 2):
            env1 = dict(env); env1.update(cur)
            if L.index and not value(L.index[0], env1) < value(L.index[2], env1): break
            r = [r for r in L.rounds if holds(r[1], env1)]
            if not r:
                if L.index: raise Cannot('no round is taken')
                break
            for x in r:
                for _, op, a, b, ty in x[4]:
                    a1, b1 = value(a, env1), value(b, env1); v = {'Mul': a1 * b1, 'Add': a1 + b1, 'Sub': a1 - b1}.get(op, 0)
                    if len(r) == 1 and not 0 <= v < 1 << {'u8': 8, 'u16': 16, 'u32': 32}.get(ty, 64): return 'with %d segments, %s overflows for segment %d' % (N, {'Mul': '%d * %d', 'Add': '%d + %d', 'Sub': '%d - %d'}[op] % (a1, b1), k)
            if len(r) > 1 and len({frozen_set(x[0]) for x in r}) > 1: raise Cannot('which round is taken')
            if len(r[0][0]) > 1 and any(z[0] == 'fld' and z[1][0] == 'fld' and z[1][1] == L.whole for x in r[0][0] for z in x):
                return 'a segment is given the slots of the whole server'
            rg = {tuple(value(z, env1) for z in x) for x in r[0][0]}
            if len(rg) != 1: return 'the slots recorded for segment %d of %d are %s' % (k, N, ' and '.join('%d..%d' % x for x in sorted(rg)))
            out.append(next(iter(rg)))
            cur = {p: value(v, env1) for p, v in r[0][2].items() if p in cur}
        else: raise Cannot('a loop which does not stop')
    env1 = dict(env)
    out += [tuple(value(z, env1) for z in one_range(v)) for v in tail]
    if not out:
        if L.index is None: raise Cannot('no round')
        return 'no segment is made for %d' % N
    at = 0
    for k, (a, b) in enumerate(out):
        if a != at: return 'with %d segments, segment %d starts at %d, the slots before end at %d' % (N, k, a, at)
        if b < a: return 'with %d segments, segment %d is %d..%d' % (N, k, a, b)
        at = b
    if at != MAXSLOT: return 'with %d segments, the last slots given end at %d, not %d' % (N, at, MAXSLOT)
    return None

def num_like(v): return v[0] in ('int', 'lin', 'sym', 'bin', 'cast', 'minof', 'maxof')

SAMPLES = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 48, 100, 127, 128, 1000, 4095, 4096, 8191, 8192, 8193, 10000, 16383, 16384]

def vec_in(M, v, st):
    """the sequence of elements with a range in what was built"""
    if v[0] == 'agg' and v[1] == 'adt':
        c = [x for x in v[4] if x[0] in ('phi', 'cat', 'collect', 'mapped', 'filled')]
        if len(c) == 1: return c[0]
    raise Cannot('what holds the segments: %s' % pt.pt(v, 3))

def check_S08(M, R):
    """For every number n of segments, as polynomials in n, the index and 16384 / n: the range of the first segment starts at 0, each starts where the one before ends and does not end before it starts, the last ends at 16384; a part number is reduced below the number of segments before a segment is taken."""
    W = M.W; E = M.E
    nu, no = len(W.units), len(E.oblig)
    keep = W.notes[:]; peel = E.opts.get('peel'); E.opts['peel'] = False
    try: partition(M, R)
    finally:
        # these are not part of the program's own paths
        E.opts['peel'] = peel
        del W.units[nu:]; del E.oblig[no:]; W.notes[:] = keep

def partition(M, R):
    W = M.W; E = M.E
    b = W.find('domain::storage::Storage::new')
    if b is None or b['argc'] != 2: R.unk('no Storage::new'); return
    site = ('%s at %s' % (b['path'], b.get('file') or 'app/roster/src/domain/storage/mod.rs'))
    u = W.run_fn(None, bid=b['id'], name='S08:new')
    n = u.args[0]
    if not u.rets: R.unk('Storage::new is not followed'); return
    for v, st in u.rets:
        try:
            c = vec_in(M, v, st); tail = []; L = None
            if c[0] == 'cat':
                ps = list(c[1])
                if ps and ps[0][0] != 'one': head, ps = ps[0], ps[1:]
                else: head = None
                if any(p[0] != 'one' for p in ps): raise Cannot('the segments are %s' % pt.pt(c, 3))
                tail = [p[1] for p in ps]; c = head
            if c is not None:
                if c[0] == 'phi': L = Loop(M, u, c, st)
                elif c[0] == 'mapped': L = Mapped(M, c)
                else: raise Cannot('the segments are %s' % pt.pt(c, 3))
            left = None
            if L is not None: L.whole = u.args[1]
            base = st.copy()
            base.facts = {f: x for f, x in st.facts.items() if not mentions(('x',) + f, lambda y: y[0] == 'phi')}
            base.lin = tuple(x for x in st.lin if not any(mentions(y, lambda z: z[0] == 'phi') for y, _ in x[1]))
            if L is None and not tail: left = ['no segment']
            elif L is not None and (not L.index or L.before): left = ['how far a loop goes']
            else: left = proves(M, L, tail, n, base)
            wrong = None
            if left:
                # fixed, or not shown: some numbers of segments
                for N in SAMPLES:
                    if holds([(f, x) for f, x in st.facts.items() if not mentions(('x',) + f, lambda y: y[0] == 'phi')], {n: N}):
                        wrong = witness(L, tail, n, N)
                        if wrong: break
            if wrong: R.bad('slots', wrong, site)
            elif left: R.unk('the ranges of the slots: %s' % left[0][:150])
            else:
                R.hold('the first range starts at 0', '; '.join('%s..%s' % (pt.pt(x[0], 5), pt.pt(x[1], 5)) for r in (L.rounds if L else ()) for x in r[0])[:300])
                R.hold('each range starts where the one before ends'); R.hold('the last range ends at 16384'); R.hold('no range ends before it starts')
        except Cannot as e: R.unk('the ranges of the slots: %s' % str(e)[:150])
    # the segment of a part
    for suffix, what in (('domain::storage::Storage::part', 'segment'), ('domain::dialer::RootDialer::part', 'range')):
        b = W.find(suffix)
        if b is None: R.unk('no %s' % suffix); continue
        u = W.run_fn(None, bid=b['id'], name='S08:part'); p = u.args[1] if len(u.args) > 1 else None
        s = b['path']
        for v, st in u.rets:
            if v[0] == 'agg' and v[3] == 'Err' or p is None: continue
            got = [x for x in subterms(('x', v)) if x[0] in ('idx', 'elem') and mentions(x[1], lambda y: y[0] == 'sym') and x[2] != p or x[0] == 'idx' and x[2] == p]
            got = [x for x in set(got) if mentions(x[2], lambda y: y == p) or x[2][0] == 'int']
            if not got: R.unk('which %s a part number gives: %s' % (what, pt.pt(v, 4)[:100])); continue
            for x in got:
                k, ln = x[2], length(x[1])
                bare = lambda t: bare(t[1]) if t[0] in ('cast', 'conv') else t
                kk = bare(k)
                if kk[0] == 'bin' and kk[1] == 'Rem' and bare(kk[3]) == ln or kk[0] == 'minof' and any(poly(z) == padd(poly(ln), {(): 1}, -1) for z in kk[1:3]) or kk == I(0):
                    R.hold('a part number is reduced to the %s of one segment' % what, pt.pt(k, 5)); continue
                wrong = None
                try:
                    for N in (1, 2, 3, 4, 8):
                        for q in range(0, 20):
                            z = value(k, {ln: N, p: q})
                            if not 0 <= z < N: wrong = 'with %d segments, part %d is looked for at %d' % (N, q, z); break
                        if wrong: break
                except Cannot as e: R.unk('which %s a part number gives: %s' % (what, e)); continue
                if wrong: R.bad('part:%s' % s, wrong, s)
                else: R.unk('which %s a part number gives: %s' % (what, pt.pt(k, 5)[:100]))
    # the ranges handed to the dialer
    b = W.find('domain::storage::Storage::slots')
    if b is None: R.unk('no Storage::slots'); return
    u = W.run_fn(None, bid=b['id'], name='S08:slots')
    for v, st in u.rets:
        a = u.args[0]
        whole = lambda c: c[0] == 'fld' and mentions(c, lambda y: y[0] == 'sym')
        if v[0] in ('mapped', 'collect') :
            c = v[1]
            while c[0] in ('collect',): c = c[1]
            if c[0] == 'iter': c = c[1] if c[2] == I(0) else ('dropn', c[1], c[2])
            if whole(c) and v[0] == 'mapped' and len(v[3]) == 1: R.hold('all ranges are handed on', pt.pt(v, 4)); continue
            if c[0] in ('dropn', 'take', 'sl', 'filtered', 'filtiter') or c[0] == 'call' and c[1] in ('Iterator::skip', 'Iterator::take', 'Iterator::step_by'): R.bad('handed', 'only some of the ranges are handed on: %s' % pt.pt(v, 5)[:120], b['path']); continue
        if v[0] == 'call' and any(x[0] == 'call' and x[1] in ('Iterator::skip', 'Iterator::take', 'Iterator::step_by') for x in subterms(v)): R.bad('handed', 'only some of the ranges are handed on: %s' % pt.pt(v, 5)[:120], b['path']); continue
        R.unk('the ranges handed on: %s' % pt.pt(v, 4)[:100])
