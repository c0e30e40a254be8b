"""Disjunctive abstract interpreter over the extracted MIR.

It enumerates the paths of a root function, inlining every function, closure
and future of the crate, over symbolic values (terms).  Library calls are
either modelled (models.py) or opaque.  Loops are explored from the entry state
and then from one widened state, until that state is stable.  Nothing of the
analysed program is executed.
"""
import re, sys
from collections import defaultdict
sys.setrecursionlimit(20000)

USIZE_MAX = (1 << 64) - 1
ISIZE_MAX = (1 << 63) - 1
UNIT = ('agg', 'tuple', '', '', ())
UNDEF = ('undef',)
MOVED = ('moved',)
TRUE, FALSE = ('int', 1), ('int', 0)

class Budget(Exception):
    pass

# ---------------------------------------------------------------- terms
def I(v): return ('int', v)
def agg_tuple(*fs): return ('agg', 'tuple', '', '', tuple(fs))
def enum(adt, var, *fs): return ('agg', 'adt', adt, var, tuple(fs))
OPTION, RESULT = 'core::option::Option', 'core::result::Result'
CFLOW, POLL = 'core::ops::control_flow::ControlFlow', 'core::task::poll::Poll'
def some(x): return enum(OPTION, 'Some', x)
NONE = enum(OPTION, 'None')
ERR_ANY = enum(RESULT, 'Err', ('anyhow',))
def ok(x): return enum(RESULT, 'Ok', x)
def err(x): return enum(RESULT, 'Err', x)
STD_ENUMS = {OPTION: ['None', 'Some'], RESULT: ['Ok', 'Err'], CFLOW: ['Continue', 'Break'], POLL: ['Ready', 'Pending']}

def is_int(t): return t[0] == 'int'

def lin_of(t):
    """(const, {base: coef})"""
    if t[0] == 'int': return t[1], {}
    if t[0] == 'lin': return t[1], dict(t[2])
    return 0, {t: 1}

def mk_lin(c, m):
    m = {b: k for b, k in m.items() if k}
    if not m: return ('int', c)
    if c == 0 and len(m) == 1:
        (b, k), = m.items()
        if k == 1: return b
    return ('lin', c, tuple(sorted(m.items(), key=lambda x: repr(x[0]))))

def add(a, b, s=1):
    ca, ma = lin_of(a); cb, mb = lin_of(b)
    m = dict(ma)
    for k, v in mb.items(): m[k] = m.get(k, 0) + s * v
    return mk_lin(ca + s * cb, m)

def sub(a, b): return add(a, b, -1)

def cat(*parts):
    out = []
    for p in parts:
        if p[0] == 'cat': out.extend(p[1])
        elif p in (('bytes', ''), ('str', '')): pass
        elif p[0] == 'agg' and p[1] == 'array': out.extend(('one', x) for x in p[4])
        elif p[0] == 'dropn' and out and out[-1][0] == 'take' and out[-1][1] == p[1] and out[-1][2] == p[2]:
            # the two parts of what was split
            out.pop(); out.extend(p[1][1] if p[1][0] == 'cat' else (p[1],))
        else: out.append(p)
    if len(out) == 1 and out[0][0] != 'one': return out[0]
    return ('cat', tuple(out))

EMPTY = ('cat', ())

def length(c):
    if c[0] == 'cat':
        r = I(0)
        for p in c[1]: r = add(r, I(1) if p[0] == 'one' else length(p))
        return r
    if c[0] == 'str': return I(len(c[1].encode()))
    if c[0] == 'bytes': return I(len(c[1]) // 2)
    if c[0] == 'agg' and c[1] == 'array': return I(len(c[4]))
    if c[0] == 'sl': return sub(c[3], c[2])
    if c[0] == 'take': return c[2]
    if c[0] == 'upto':
        n = length(c[1])
        if n == I(0) or is_int(n) and is_int(c[2]): return n if n == I(0) or n[1] <= c[2][1] else c[2]
        return ('minof', n, c[2])
    if c[0] == 'dropn': return sub(length(c[1]), c[2])
    if c[0] == 'rep': return c[2]
    if c[0] == 'ovw': return length(c[1])
    if c[0] == 'upd' and all(it[0] == 'i' for it, _ in c[2]): return length(c[1])
    return ('len', c)

def subterms(t):
    """every term inside a term, itself first"""
    if isinstance(t[0], str): yield t
    for x in t:
        if isinstance(x, tuple) and x: yield from subterms(x)

def newer(t, cnt):
    """does the term carry a label given after the counts cnt?"""
    if isinstance(t, tuple):
        if len(t) == 3 and isinstance(t[0], str) and isinstance(t[1], int) and isinstance(t[2], int) and (t[0], t[1]) in cnt or \
           len(t) == 3 and isinstance(t[0], str) and '::' in t[0] and isinstance(t[1], int) and isinstance(t[2], int):
            if t[2] > cnt.get((t[0], t[1]), 0): return True
        return any(newer(x, cnt) for x in t if isinstance(x, tuple))
    return False

def replace(t, m):
    """substitute subterms (m: dict term->term)"""
    if not isinstance(t, tuple): return t
    r = m.get(t)
    if r is not None: return r
    if not t: return t
    return tuple(replace(x, m) if isinstance(x, tuple) else x for x in t)

def mentions(t, pred):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and pred(t): return True
        return any(mentions(x, pred) for x in t if isinstance(x, tuple))
    return False

# ---------------------------------------------------------------- state
class St:
    __slots__ = ('mem', 'facts', 'lin', 'trace', 'cnt', 'loops', 'prov')
    def __init__(self):
        self.mem = {}; self.facts = {}; self.lin = (); self.trace = None; self.cnt = {}; self.loops = {}
    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.lin = self.lin
        s.trace = self.trace; s.cnt = dict(self.cnt); s.loops = dict(self.loops)
        return s
    def ev(self, *e):
        self.trace = (self.trace, e)
    def events(self):
        out = []; t = self.trace
        while t is not None:
            out.append(t[1]); t = t[0]
        out.reverse()
        return out

def strip_generics(p):
    out = []; d = 0; i = 0
    # "::<...>" and "<'a>" groups are dropped; "<impl X>" becomes X
    while i < len(p):
        if p.startswith('<impl ', i):
            j = i; dd = 0
            while j < len(p):
                if p[j] == '<': dd += 1
                elif p[j] == '>' and p[j-1] != '-':
                    dd -= 1
                    if dd == 0: break
                j += 1
            inner = p[i+6:j]
            if ' for ' in inner: inner = inner.split(' for ')[1]
            out.append(strip_generics(inner)); i = j + 1; continue
        if p.startswith('::<', i) and not p.startswith('::<impl ', i):
            j = i + 2; dd = 0
            while j < len(p):
                if p[j] == '<': dd += 1
                elif p[j] == '>' and p[j-1] != '-':
                    dd -= 1
                    if dd == 0: break
                j += 1
            i = j + 1; continue
        if p[i] == '<':
            dd = 0; j = i
            while j < len(p):
                if p[j] == '<': dd += 1
                elif p[j] == '>' and p[j-1] != '-':
                    dd -= 1
                    if dd == 0: break
                j += 1
            i = j + 1; continue
        out.append(p[i]); i += 1
    return ''.join(out)

_short = {}
def short(path):
    r = _short.get(path)
    if r is None:
        s = strip_generics(path).split('::')
        r = '::'.join(s[-2:])
        _short[path] = r
    return r

# ---------------------------------------------------------------- engine
def table(v):
    """an array of structures known when the program is compiled (texts, numbers,
    functions): a table which is looked up"""
    def plain(x):
        if x[0] == 'addr': return plain(x[1])
        if x[0] == 'agg': return all(plain(y) for y in x[4])
        return x[0] in ('str', 'bytes', 'int', 'fn', 'fnid')
    return v[0] == 'agg' and v[1] == 'array' and 0 < len(v[4]) <= 64 and all(plain(x) and x[0] != 'int' for x in v[4])

def listed(v):
    """an array whose few elements are known one by one"""
    return table(v) or v[0] == 'agg' and v[1] == 'array' and 0 < len(v[4]) <= 12 and all(x[0] == 'agg' for x in v[4])

class Engine:
    def __init__(self, facts, models, opts=None):
        self.F = facts
        self.models = models
        self.opts = opts or {}
        self.steps = 0
        self.max_steps = self.opts.get('max_steps', 6_000_000)
        self.deferred = []          # (site, closure value, state, kind, stack)
        self.oblig = []             # (site, kind, data, proved, feasible state)
        self.paths_cut = 0
        self.unknown = defaultdict(int)
        self.visited_bodies = set()
        self.call_sites = set()
        self.backedges = []
        self.nent = 0; self.entries = {}   # where each loop was entered from
        self.peeling = False         # (stack, head, state): paths which end in a loop
        self.impl_index = defaultdict(list)
        for im in facts.impls:
            st = facts.tys[im['self']] if im.get('self') is not None else None
            for m, bid in im['items']:
                self.impl_index[(im['trait'], m)].append((st, bid, im['trait_ref']))
        self.cfg = {}
        self.merging = False
        self.consts = {}
        self.default_methods = {}
        for b in facts.bodies.values():
            if b.get('trait_default') and b.get('method'):
                self.default_methods[(b.get('trait'), b['method'])] = b['id']

    # ---- type helpers
    def adt_of(self, tyi):
        """adt record for a type index, looking through references"""
        if tyi is None: return None
        t = self.F.tys[tyi]
        while t['k'] == 'ref': t = self.F.tys[t['args'][0]]
        if t['k'] == 'adt': return t
        return None

    def variants(self, adt_id):
        a = self.F.adts.get(adt_id)
        if a and a['enum']:
            return [(v['name'], int(v['discr'])) for v in a['variants']]
        for k, vs in STD_ENUMS.items():
            if adt_id == k: return [(v, i) for i, v in enumerate(vs)]
        return None

    # ---- memory
    def read_root(self, st, root):
        v = st.mem.get(root)
        if v is not None: return v
        if root[0] == '*': return self.deref_default(root[1])
        return UNDEF

    def deref_default(self, p):
        if p[0] in ('str', 'bytes'): return p
        if p[0] == 'elemref': return ('elem',) + p[1:]
        if p[0] == 'slot': return ('stored',) + p[1:]
        if p[0] == 'guard': return ('shared', p[1], p[3])
        if p[0] == 'sl': return ('sl', self.deref_default(p[1]), p[2], p[3])
        if p[0] == 'addr': return p[1]
        return ('deref', p)

    def project(self, v, e):
        k = e[0]
        if k == 'd':
            if v[0] == 'agg':
                return v
            if v[0] == 'upd' and v[1][0] != 'agg':
                return v
            return v
        if k == 'f':
            idx, var = e[1], e[2]
            if v[0] == 'agg':
                if idx < len(v[4]): return v[4][idx]
                return UNDEF
            if v[0] == 'upd':
                for it, x in v[2]:
                    if it == e: return x
                return self.project(v[1], e)
            if v in (UNDEF, MOVED): return v
            if v[0] == 'ovfpair':
                return v[1] if idx == 0 else v[2]
            if v[0] == 'iter' and idx == 1: return v[2]
            if v[0] in ('enumiter', 'mapiter') and idx == 10: return v[1]
            if v[0] == 'enumiter' and idx == 11: return v[2]
            return ('fld', v, var, idx)
        if k == 'i':
            ix = e[1]
            if v[0] == 'agg' and v[1] == 'array' and is_int(ix) and ix[1] < len(v[4]): return v[4][ix[1]]
            if v[0] == 'cat' and is_int(ix) and all(p[0] == 'one' for p in v[1]) and ix[1] < len(v[1]): return v[1][ix[1]][1]
            if v[0] == 'bytes' and is_int(ix) and ix[1] * 2 < len(v[1]): return I(int(v[1][ix[1]*2:ix[1]*2+2], 16))
            if v[0] == 'upd':
                for it, x in v[2]:
                    if it == e: return x
                return ('idx', v, ix)
            if v[0] == 'sl': return ('idx', v[1], add(v[2], ix))
            return ('idx', v, ix)
        if k == 'ss':
            return ('sl', v, I(e[1]), I(e[2]) if not e[3] else sub(length(v), I(e[2])))
        if k == 'ciend':
            return self.project(v, ('i', sub(length(v), I(e[1]))))
        return ('proj', v, str(e))

    def read(self, st, root, proj):
        v = self.read_root(st, root)
        for e in proj: v = self.project(v, e)
        return v

    def write(self, st, root, proj, val):
        if root[0] == '*':
            st.ev('store', root[1], proj, val)
        st.mem[root] = self._upd(self.read_root(st, root), proj, val)

    def _upd(self, v, proj, val):
        if not proj: return val
        e = proj[0]
        if e[0] == 'd': return self._upd(v, proj[1:], val) if v[0] != 'agg' or v[3] == e[1] or len(proj) == 1 else self._upd(v, proj[1:], val)
        if e[0] == 'f' and v[0] == 'agg' and e[1] < len(v[4]):
            fs = list(v[4]); fs[e[1]] = self._upd(fs[e[1]], proj[1:], val)
            return v[:4] + (tuple(fs),)
        if e[0] == 'i' and v[0] == 'agg' and v[1] == 'array' and is_int(e[1]) and e[1][1] < len(v[4]):
            fs = list(v[4]); fs[e[1][1]] = self._upd(fs[e[1][1]], proj[1:], val)
            return v[:4] + (tuple(fs),)
        old = self.project(v, e)
        new = self._upd(old, proj[1:], val)
        if v[0] == 'upd':
            items = tuple((it, x) for it, x in v[2] if it != e) + ((e, new),)
            return ('upd', v[1], items)
        return ('upd', v, ((e, new),))

    def load(self, st, p):
        if p[0] == 'ref': return self.read(st, p[1], p[2])
        if p[0] in ('str', 'bytes', 'static'): return p
        if p[0] == 'sl':
            base = self.load(st, p[1])
            return self.slice_of(base, p[2], p[3])
        return self.read_root(st, ('*', p))

    def slice_of(self, c, a, b):
        if a == I(0) and b == length(c): return c
        if c[0] == 'sl': return ('sl', c[1], add(c[2], a), add(c[2], b))
        if c[0] == 'ovw' and a == I(0) and b == length(c[3]) and c[2] == I(0): return c[3]
        if c[0] == 'bytes' and is_int(a) and is_int(b): return ('bytes', c[1][2*a[1]:2*b[1]])
        return ('sl', c, a, b)

    def save(self, st, p, v):
        if p[0] == 'ref': self.write(st, p[1], p[2], v)
        else: self.write(st, ('*', p), (), v)

    def lplace(self, st, d, p):
        root = ('L', d, p[0]); proj = ()
        var = None
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, root, proj)
                if v[0] == 'ref': root, proj = v[1], v[2]
                else: root, proj = ('*', v), ()
                var = None
            elif k == 'd':
                var = e[1]; proj = proj + (('d', var),)
            elif k == 'f':
                proj = proj + (('f', e[1], var),); var = None
            elif k == 'i':
                proj = proj + (('i', self.read(st, ('L', d, e[1]), ())),)
            elif k == 'ci':
                proj = proj + ((('i', I(e[1])) if not e[2] else ('ciend', e[1])),)
            elif k == 'ss':
                proj = proj + (('ss', e[1], e[2], e[3]),)
            elif k == 'o': pass
            else: raise Exception('proj %r' % (e,))
        return root, proj

    def operand(self, st, d, o):
        k = o['k']
        if k == 'const': return self.const(o)
        root, proj = self.lplace(st, d, o['p'])
        v = self.read(st, root, proj)
        if v == UNDEF and root[0] == 'L': v = ('undef',)
        if k == 'move' and root[0] == 'L' and root[1] == d and not (v[0] in ('int',)):
            # moved out (drop elaboration is not done at this stage of MIR)
            if not any(e[0] == 'i' for e in proj):
                st.mem[root] = self._upd(self.read_root(st, root), proj, MOVED)
        return v

    def const(self, o):
        if 'fn' in o: return ('fn', FnRef(o['fn']))
        if 'int' in o:
            v = o['int']
            return ('int', int(v) if not isinstance(v, int) else v)
        if 'str' in o: return ('str', o['str'])
        if 'bytes' in o: return ('bytes', o['bytes'])
        if 'static' in o:
            v = self.const_item(o['static'])
            if v is not None and (v[0] in ('str', 'bytes') or table(v)): return ('addr', v)
            return ('static', o['static'])
        t = self.F.tys[o['ty']]
        if t['k'] == 'tuple': return UNIT
        if t['k'] == 'fndef': return ('fnid', t['id'], t['def'])
        if t['k'] in ('closure',): return ('agg', 'closure', t['id'], '', ())
        if t['k'] == 'bool' and 'val' in o: return I(int(o['val']))
        if 'def' in o:
            v = self.const_item(o['def'])
            if v is not None: return v
            return ('constdef', str(o['def']), t['s'])
        if o.get('zst'):
            if t['k'] == 'adt':
                a = self.F.adts.get(t['id'])
                if a and not a['enum']:
                    return ('agg', 'adt', t['def'], a['variants'][0]['name'] if a['variants'] else '', ())
            return ('zst', t['s'])
        return ('const', t['s'], str(sorted((k, v) for k, v in o.items() if k not in ('k', 'ty'))))

    def const_item(self, path):
        """value of a constant or static of the crate, from its initializer"""
        c = self.consts
        if path in c: return c[path]
        c[path] = None
        b = next((b for b in self.F.bodies.values() if b['path'] == path and (b['dk'].startswith(('Const', 'AssocConst', 'InlineConst')) or b['dk'].startswith('Static') and 'mutability: Not' in b['dk'])), None)
        if b is None: return None
        nb, no, nd = len(self.backedges), len(self.oblig), len(self.deferred)
        try: outs = self.run(b['id'], [], St(), ())
        except Budget: outs = []
        del self.backedges[nb:]; del self.oblig[no:]; del self.deferred[nd:]
        if len(outs) == 1:
            v = outs[0][0]
            if v[0] == 'ref': v = None if v[1][0] == 'L' else v
            if v is not None and not mentions(v, lambda t: t[0] in ('L', 'undef', 'moved')): c[path] = v
        return c[path]

    # ---- truth & facts
    def facts_lin(self, st):
        return st.lin

    def prove_ge0(self, st, d, depth=5):
        """prove linear term d >= 0, every base being unsigned"""
        c, m = lin_of(d)
        return self._ge0(st, c, m, depth, frozenset())

    def _ge0(self, st, c, m, depth, used):
        for b, k in m.items():
            if depth and (b[0] == 'minof' and k > 0 or b[0] == 'maxof' and k < 0):
                # either of the two
                rest = {x: y for x, y in m.items() if x != b}
                for alt in b[1:3]:
                    c2, m2 = lin_of(alt); m3 = dict(rest)
                    for x, y in m2.items():
                        m3[x] = m3.get(x, 0) + k * y
                        if m3[x] == 0: del m3[x]
                    if not self._ge0(st, c + k * c2, m3, depth - 1, used): break
                else: return True
        neg = [b for b, k in m.items() if k < 0]
        if not neg:
            lo = c
            for b, k in m.items():
                f = st.facts.get(b)
                if isinstance(f, int): lo += k * f
            if lo >= 0: return True
            if depth == 0 or not m: return False
            # subtract a fact whose positive part is below the goal's
            for i, (fc, fm) in enumerate(st.lin):
                if (i, None) in used: continue
                pos = [(x, y) for x, y in fm if y > 0]
                if not pos or any(m.get(x, 0) < y for x, y in pos): continue
                m2 = dict(m)
                for x, y in fm:
                    m2[x] = m2.get(x, 0) - y
                    if m2[x] == 0: del m2[x]
                if self._ge0(st, c - fc, m2, depth - 1, used | {(i, None)}): return True
            return False
        if depth == 0: return False
        b = neg[0]
        f = st.facts.get(b)
        if isinstance(f, int):
            m2 = dict(m); k = m2.pop(b)
            return self._ge0(st, c + k * f, m2, depth, used)
        cands = []
        for i, (fc, fm) in enumerate(st.lin):
            if dict(fm).get(b, 0) < 0: cands.append((i, fc, fm))
        ub = self.upper_bound(b)
        if ub is not None: cands.append((None, ub, ((b, -1),)))
        if b[0] == 'bin' and b[1] in ('Div', 'Shr', 'Rem', 'BitAnd') and len(b) > 3:
            # not above what it is made of
            xc, xm = lin_of(b[2])
            if b not in xm and (b[1] != 'Div' or b[3][0] == 'int' and b[3][1] > 0): cands.append((None, xc, tuple(xm.items()) + ((b, -1),)))
        for i, fc, fm in cands:
            if i is not None and (i, b) in used: continue
            fm = dict(fm)
            k = (-m[b]) / (-fm[b])
            if k != int(k) or k <= 0: 
                if (-m[b]) % (-fm[b]): continue
            k = int(k)
            m2 = dict(m)
            for x, y in fm.items():
                m2[x] = m2.get(x, 0) - k * y
                if m2[x] == 0: del m2[x]
            if self._ge0(st, c - k * fc, m2, depth - 1, used | {(i, b)}): return True
        return False

    def upper_bound(self, b):
        if b[0] == 'len': return ISIZE_MAX
        if b[0] == 'ranged': return b[2]
        if b[0] == 'idx' : return None
        return None

    def add_lin(self, st, d):
        c, m = lin_of(d)
        if not m: return c >= 0
        e = (c, tuple(sorted(m.items(), key=lambda x: repr(x[0]))))
        if e not in st.lin: st.lin = st.lin + (e,)
        # contradiction?
        return not self.prove_ge0(st, sub(I(-1), d), 4)

    def truth(self, st, t):
        k = t[0]
        if k == 'int': return bool(t[1])
        f = st.facts.get(t)
        if isinstance(f, int): return bool(f)
        if k == 'not':
            r = self.truth(st, t[1])
            return None if r is None else not r
        if k == 'and':
            a, b = self.truth(st, t[1]), self.truth(st, t[2])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if k == 'or':
            a, b = self.truth(st, t[1]), self.truth(st, t[2])
            if a or b: return True
            if a is False and b is False: return False
            return None
        if k == 'cmp':
            op, a, b = t[1:]
            if op == 'lt':
                if self.prove_ge0(st, sub(sub(b, a), I(1))): return True
                if self.prove_ge0(st, sub(a, b)): return False
                return None
            if op == 'eq':
                if a == b: return True
                va = a[1] if a[0] == 'int' else st.facts.get(a)
                vb = b[1] if b[0] == 'int' else st.facts.get(b)
                if isinstance(va, int) and isinstance(vb, int): return va == vb
                if isinstance(va, tuple) and isinstance(vb, int) and va[0] == 'ne' and vb in va[1]: return False
                if isinstance(vb, tuple) and isinstance(va, int) and vb[0] == 'ne' and va in vb[1]: return False
                if a[0] in ('str', 'bytes') and b[0] in ('str', 'bytes'): return const_bytes(a) == const_bytes(b)
                if self.is_num(a) and self.is_num(b):
                    if self.prove_ge0(st, sub(sub(b, a), I(1))) or self.prove_ge0(st, sub(sub(a, b), I(1))): return False
                    if self.prove_ge0(st, sub(b, a)) and self.prove_ge0(st, sub(a, b)): return True
                return None
        if k == 'streq':
            f = st.facts.get(('strval', t[1]))
            if f is not None:
                if f[0] == 'is': return f[1] == t[2]
                if t[2] in f[1]: return False
            return None
        if k == 'ovf':
            op, a, b, ty = t[1:]
            lo, hi = ty_range(ty)
            if op == 'Add': d = sub(I(hi), add(a, b)); s = add(a, b)
            elif op == 'Sub': d = sub(a, b); s = None
            elif op == 'Mul':
                if is_int(a) or is_int(b):
                    kk = a[1] if is_int(a) else b[1]; o = b if is_int(a) else a
                    c, m = lin_of(o); s = None
                    d = sub(I(hi), mk_lin(c * kk, {x: y * kk for x, y in m.items()}))
                else: return None
            else: return None
            if op == 'Sub' and lo < 0: return None
            if self.prove_ge0(st, d): return False
            if op == 'Sub' and self.prove_ge0(st, sub(sub(b, a), I(1))): return True
            return None
        return None

    def is_num(self, t):
        return t[0] not in ('str', 'bytes', 'agg', 'ref')

    def assume(self, st, t, val):
        """returns False if infeasible"""
        r = self.truth(st, t)
        if r is not None: return r == val
        k = t[0]
        if k == 'not': return self.assume(st, t[1], not val)
        if k == 'and':
            if val: return self.assume(st, t[1], True) and self.assume(st, t[2], True)
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if self.truth(st, x): return self.assume(st, y, False)
            st.facts[t] = 0; return True
        if k == 'or':
            if not val: return self.assume(st, t[1], False) and self.assume(st, t[2], False)
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if self.truth(st, x) is False: return self.assume(st, y, True)
            st.facts[t] = 1; return True
        if k == 'streq':
            key = ('strval', t[1]); f = st.facts.get(key)
            if val: st.facts[key] = ('is', t[2])
            else: st.facts[key] = ('ne', (f[1] if f else frozenset()) | {t[2]})
            st.facts[t] = int(val)
            return True
        st.facts[t] = int(val)
        if k == 'cmp':
            op, a, b = t[1:]
            if not (self.is_num(a) and self.is_num(b)): return True
            if op == 'lt':
                return self.add_lin(st, sub(sub(b, a), I(1)) if val else sub(a, b))
            if op == 'eq':
                if val:
                    for x, y in ((a, b), (b, a)):
                        if is_int(y) and not is_int(x) and x[0] != 'lin': st.facts[x] = y[1]
                    if is_int(a) or is_int(b) or a[0] in ('lin', 'len') or b[0] in ('lin', 'len'):
                        return self.add_lin(st, sub(a, b)) and self.add_lin(st, sub(b, a))
                else:
                    for x, y in ((a, b), (b, a)):
                        if is_int(y) and not is_int(x):
                            f = st.facts.get(x)
                            if not isinstance(f, int):
                                st.facts[x] = ('ne', (f[1] if isinstance(f, tuple) else frozenset()) | {y[1]})
                            if y[1] == 0: self.add_lin(st, sub(x, I(1)))
                            else:
                                # x <= y and x != y
                                if self.prove_ge0(st, sub(y, x)): self.add_lin(st, sub(sub(y, x), I(1)))
                                elif self.prove_ge0(st, sub(x, y)): self.add_lin(st, sub(sub(x, y), I(1)))
        if k == 'ovf' and not val:
            op, a, b, ty = t[1:]
            if op == 'Sub': return self.add_lin(st, sub(a, b))
            if op == 'Add': return self.add_lin(st, sub(I(ty_range(ty)[1]), add(a, b)))
        return True

    def switch_on(self, st, v, targets, otherwise):
        """[(target, state)] feasible"""
        out = []
        if v[0] == 'int':
            for val, bb in targets:
                if int(val) == v[1]: return [(bb, st)]
            return [(otherwise, st)] if otherwise is not None else []
        if v[0] == 'discr':
            vs = self.variants(v[2])
            f = st.facts.get(v)
            if isinstance(f, int):
                for val, bb in targets:
                    if int(val) == f: return [(bb, st)]
                return [(otherwise, st)] if otherwise is not None else []
            excl = f[1] if isinstance(f, tuple) else frozenset()
            seen = set(excl)
            for val, bb in targets:
                val = int(val); 
                if val in excl: continue
                seen.add(val)
                s2 = st.copy(); s2.facts[v] = val
                if self.refine_discr(s2, v): out.append((bb, s2))
            if otherwise is not None and (vs is None or any(dv not in seen for _, dv in vs)):
                s2 = st.copy()
                if vs is not None:
                    rest = [dv for _, dv in vs if dv not in seen]
                    s2.facts[v] = rest[0] if len(rest) == 1 else ('ne', frozenset(seen))
                else: s2.facts[v] = ('ne', frozenset(seen))
                if self.refine_discr(s2, v): out.append((otherwise, s2))
            return out
        # booleans and integers
        boolish = v[0] in ('cmp', 'not', 'and', 'or', 'streq', 'ovf', 'pred')
        if boolish or (len(targets) == 1 and int(targets[0][0]) == 0 and v[0] in ('call', 'fld', 'deref') and False):
            for val, bb in targets:
                s2 = st.copy()
                if self.assume(s2, v, bool(int(val))): out.append((bb, s2))
            if otherwise is not None:
                vals = {int(x) for x, _ in targets}
                for val in (0, 1):
                    if val not in vals:
                        s2 = st.copy()
                        if self.assume(s2, v, bool(val)): out.append((otherwise, s2))
            return out
        for val, bb in targets:
            s2 = st.copy()
            if self.assume(s2, ('cmp', 'eq', v, I(int(val))), True): out.append((bb, s2))
        if otherwise is not None:
            s2 = st.copy()
            if all(self.assume(s2, ('cmp', 'eq', v, I(int(val))), False) for val, _ in targets): out.append((otherwise, s2))
        return out

    def refine_discr(self, st, v):
        """hook: consequences of learning a discriminant"""
        t = v[1]
        h = self.models.on_discr
        return h(self, st, t, v[2], st.facts.get(v))

    # ---- rvalues
    def rvalue(self, st, d, r, body):
        k = r['k']
        if k == 'use': return self.operand(st, d, r['o'])
        if k == 'ref':
            root, proj = self.lplace(st, d, r['p'])
            if root[0] == '*' and not proj and root not in st.mem and r['p'][1] and r['p'][1][-1][0] == '*':
                return root[1]
            if root[0] == '*' and not proj: return root[1]
            return ('ref', root, proj)
        if k == 'rawptr' or k == 'addr':
            root, proj = self.lplace(st, d, r['p'])
            if root[0] == '*' and not proj: return root[1]
            return ('ref', root, proj)
        if k == 'bin': return self.binop(st, r['op'], self.operand(st, d, r['a']), self.operand(st, d, r['b']), self.op_ty(body, r['a'], r['b']))
        if k == 'un':
            a = self.operand(st, d, r['a'])
            if r['op'] == 'Not':
                if a[0] == 'int': return I(1 - a[1]) if a[1] in (0, 1) else ('un', 'Not', a)
                if a[0] == 'not': return a[1]
                return ('not', a)
            if r['op'] == 'PtrMetadata': return length(self.load(st, a))
            return ('un', r['op'], a)
        if k == 'len':
            root, proj = self.lplace(st, d, r['p'])
            return length(self.read(st, root, proj))
        if k == 'cast':
            a = self.operand(st, d, r.get('o') or r.get('a'))
            if r['c'] == 'IntToInt':
                ft = self.op_ty(body, r.get('o') or r.get('a'), None)
                tt = self.F.tys_s(r['ty'])
                return self.cast_int(a, ft, tt)
            return a
        if k == 'discr':
            root, proj = self.lplace(st, d, r['p'])
            v = self.read(st, root, proj)
            return self.discr(v, r['p'][2])
        if k == 'agg':
            ops = tuple(self.operand(st, d, o) for o in r['ops'])
            a = r['a']
            if a == 'tuple': return ('agg', 'tuple', '', '', ops)
            if a == 'array': return ('agg', 'array', '', '', ops)
            if a == 'adt' and r.get('newtype'): return ops[0]     # a struct around one value is that value
            if a == 'adt': return ('agg', 'adt', r['adt'], r.get('variant', ''), ops)
            return ('agg', a, r.get('id', ''), '', ops)
        if k == 'repeat':
            n = r.get('n')
            a = self.operand(st, d, r['o'])
            return ('rep', a, I(int(n)) if n is not None and str(n).isdigit() else ('sym', 'n'))
        return ('rv', k)

    def discr(self, v, tyi):
        t = self.F.tys[tyi] if tyi is not None else None
        adt = t['def'] if t and t['k'] == 'adt' else None
        if adt is not None and adt.startswith('crate::') is False and t: adt = t['def']
        if v[0] == 'agg' and v[1] == 'adt':
            vs = self.variants_by(v[2], t)
            if vs:
                for n, dv in vs:
                    if n == v[3]: return I(dv)
        aid = t['id'] if t and t['k'] == 'adt' else None
        if aid in ('core::option::Option',): aid = OPTION
        if v[0] == 'upd' and all(it[0] != 'd' for it, _ in v[2]) : v = v[1]
        return ('discr', v, aid)

    def variants_by(self, name, t):
        if t and t['k'] == 'adt':
            vs = self.variants(t['id'])
            if vs: return vs
        return self.variants_path(name)

    def variants_path(self, path):
        for a in self.F.adts.values():
            if a['path'] == path and a['enum']:
                return [(v['name'], int(v['discr'])) for v in a['variants']]
        vs = STD_ENUMS.get(path)
        return [(v, i) for i, v in enumerate(vs)] if vs else None

    def op_ty(self, body, a, b):
        for o in (a, b):
            if o is None: continue
            if o['k'] == 'const': return self.F.tys_s(o['ty'])
            return self.F.tys_s(o['p'][2])
        return '?'

    def cast_int(self, a, ft, tt):
        if a[0] == 'int':
            lo, hi = ty_range(tt)
            v = a[1]
            if lo <= v <= hi: return a
            n = hi - lo + 1
            return I((v - lo) % n + lo)
        fl, fh = ty_range(ft); tl, th = ty_range(tt)
        if fl >= tl and fh <= th: return a
        if a[0] == 'ranged' and a[2] <= th: return a
        return ('cast', a, tt)

    def binop(self, st, op, a, b, ty):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if op.endswith('WithOverflow'):
            r = self.arith(base, a, b)
            return ('ovfpair', r, ('ovf', base, a, b, ty)) if not (is_int(a) and is_int(b)) else ('ovfpair', r, I(0 if ty_range(ty)[0] <= r[1] <= ty_range(ty)[1] else 1) if r[0] == 'int' else ('ovf', base, a, b, ty))
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return mk_cmp(base, a, b)
        return self.arith(base, a, b)

    def arith(self, op, a, b):
        if op == 'Add': return add(a, b)
        if op == 'Sub': return sub(a, b)
        if is_int(a) and is_int(b):
            x, y = a[1], b[1]
            try:
                if op == 'Mul': return I(x * y)
                if op == 'Div' and y: return I(x // y)
                if op == 'Rem' and y: return I(x % y)
                if op == 'BitAnd': return I(x & y)
                if op == 'BitOr': return I(x | y)
                if op == 'BitXor': return I(x ^ y)
                if op == 'Shl': return I(x << y)
                if op == 'Shr': return I(x >> y)
            except Exception: pass
        if op == 'Mul' and (is_int(a) or is_int(b)):
            kk = a[1] if is_int(a) else b[1]; o = b if is_int(a) else a
            c, m = lin_of(o)
            return mk_lin(c * kk, {x: y * kk for x, y in m.items()})
        if op == 'BitAnd' and (a[0] in BOOLK or b[0] in BOOLK): return ('and', a, b)
        if op == 'BitOr' and (a[0] in BOOLK or b[0] in BOOLK): return ('or', a, b)
        if op == 'Rem' and b == I(1): return I(0)
        if op == 'Rem' and is_int(b) and b[1] > 0:
            return ('ranged', ('bin', 'Rem', a, b), b[1] - 1)
        return ('bin', op, a, b)

    # ---- cfg
    def cfg_of(self, b):
        c = self.cfg.get(b['id'])
        if c: return c
        blocks = b['blocks']
        def succ(i):
            t = blocks[i]['te']; k = t['k']
            if k in ('goto', 'drop', 'assert'): return [t['t']]
            if k == 'call': return [t['t']] if t.get('t') is not None else []
            if k == 'switch': return [x[1] for x in t['ts']] + ([t['ow']] if t.get('ow') is not None else [])
            if k == 'yield': return [t['t']] if t.get('t') is not None else []
            return []
        back = set(); color = {}
        stack = [(0, iter(succ(0)))]; color[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1; stack.append((s, iter(succ(s)))); break
                elif color[s] == 1: back.add((n, s))
            else:
                color[n] = 2; stack.pop()
        pred = {}
        for n in color:
            for s in succ(n): pred.setdefault(s, []).append(n)
        loops = {}
        for n, h in back:
            body = loops.setdefault(h, {h}); w = [n]
            while w:
                x = w.pop()
                if x in body: continue
                body.add(x); w += pred.get(x, [])
        c = (back, {h for _, h in back}, loops)
        self.cfg[b['id']] = c
        return c

    def peel(self, b, head, body, st, d, stack, limit=500):
        """runs a loop from its head on for as long as a single path is
        possible: the state in which it leaves the loop, None when it forks"""
        if self.peeling or not self.opts.get('peel'): return None
        marks = [(l, len(l)) for l in (self.oblig, self.deferred, self.backedges)]
        save = self.max_steps
        self.peeling = True; self.max_steps = min(save, self.steps + limit)
        rets = []; res = None
        try:
            bb, s = head, st
            while True:
                self.steps += 1
                if self.steps > self.max_steps: break
                nxt = self.block(b, bb, s, d, stack, rets)
                if len(nxt) != 1 or rets: break
                _, bb, s = nxt[0]
                if bb not in body:
                    res = (bb, s); break
        except Budget: pass
        finally:
            self.peeling = False; self.max_steps = save
        if res is None:
            for l, n in marks: del l[n:]
        return res

    def tabled(self, old, new, d):
        """the loop goes through a table and is at the next element of it"""
        for k, v in new.mem.items():
            if k[0] != 'L' or k[1] != d or v[0] != 'iter' or not is_int(v[2]): continue
            o = old.mem.get(k)
            if o is None or o[:2] != v[:2] or not is_int(o[2]) or o[2][1] >= v[2][1]: continue
            c = v[1]
            while c[0] == 'addr': c = c[1]
            if listed(c): return True
        return False

    # ---- running bodies
    def run(self, bid, args, st, stack):
        """[(ret, state)]: every way the function can return"""
        b = self.F.bodies[bid]
        self.visited_bodies.add(bid)
        d = len(stack)
        stack = stack + (bid,)
        for i, a in enumerate(args): st.mem[('L', d, i + 1)] = a
        back, heads, bodies = self.cfg_of(b)
        rets = []
        work = [(0, st)]
        pool = {}                 # (head, entry id) -> [states]
        entry = {}                # (head, entry id) -> current widened state
        while work or pool:
            if not work:
                key = next(iter(pool)); states = pool.pop(key)
                w, changed = self.widen(key, entry[key], states, d, b)
                if changed:
                    entry[key] = w.copy()
                    w.loops[(d, key[0])] = key[1]
                    w.ev('loop', (bid, key[0]), key[1])
                    work.append((key[0], w))
                continue
            bb, s = work.pop()
            self.steps += 1
            if self.steps > self.max_steps: raise Budget('steps')
            while True:
                nxt = self.block(b, bb, s, d, stack, rets)
                # follow a single successor without going through the worklist
                cont = []
                for (src, t, s2) in nxt:
                    if (src, t) in back:
                        k = (t, s2.loops.get((d, t)))
                        if k in entry and self.tabled(entry[k], s2, d):
                            # a table known in full: its elements one by one
                            del s2.loops[(d, t)]
                            k = None
                        if k in entry:
                            e = self.peel(b, t, bodies[t], s2.copy(), d, stack)
                            if e is not None:
                                e[1].loops.pop((d, t), None)
                                cont.append(e)
                                continue
                            self.backedges.append((stack, t, s2))
                            pool.setdefault(k, []).append(s2)
                        if k is not None: continue
                    if t in heads:
                        self.nent += 1; nent = self.nent
                        kc = ('head', bid, t)
                        s2.cnt[kc] = inst = min(s2.cnt.get(kc, 0) + 1, 9)
                        s2.loops[(d, t)] = nent
                        entry[(t, nent)] = s2.copy()
                        self.entries[nent] = (entry[(t, nent)], inst)
                        s2.ev('enter', (bid, t), nent)
                    cont.append((t, s2))
                if len(cont) == 1:
                    bb, s = cont[0]; self.steps += 1
                    if self.steps > self.max_steps: raise Budget('steps')
                    continue
                work.extend(reversed(cont))
                break
        return self.merge_rets(rets) if self.merging and len(rets) > 1 else rets

    def merge_rets(self, rets):
        """returns with the same value, memory and effects become one, which
        keeps the facts they share"""
        groups = {}
        for v, s in rets:
            k = (v, self.tkey(s), frozenset(s.mem.items()))
            if v != ERR_ANY: k += (frozenset(s.facts.items()), s.lin)
            else: k += (any(x == 1 and t[0] == 'discr' and isinstance(t[1], tuple) and t[1][:1] == ('iores',) for t, x in s.facts.items()),)
            g = groups.get(k)
            if g is None: groups[k] = (v, s)
            else:
                o = g[1]
                o.cnt[('merged',)] = s.cnt[('merged',)] = 1
                lin = o.lin
                if o.lin != s.lin:
                    # what one of them states and the other one implies
                    ls = set(s.lin); lo = set(o.lin)
                    lin = tuple(l for l in o.lin if l in ls or self._ge0(s, l[0], dict(l[1]), 2, frozenset()))
                    lin += tuple(l for l in s.lin if l not in lo and self._ge0(o, l[0], dict(l[1]), 2, frozenset()))
                o.facts = {k2: x for k2, x in o.facts.items() if s.facts.get(k2) == x}
                o.lin = lin
                for k2, x in s.cnt.items():
                    if o.cnt.get(k2, 0) < x: o.cnt[k2] = x
        return list(groups.values())

    def tkey(self, s):
        return tuple(e for e in s.events() if e[0] not in ('enter', 'loop', 'closure', 'endclosure', 'branch'))

    def widen(self, key, base, states, d, b):
        w = base.copy(); changed = False
        head = key[0]; inst = self.entries[key[1]][1]
        for s in states:
            for root in list(w.mem):
                v0 = w.mem[root]
                v1 = s.mem.get(root)
                if v1 is None:
                    if root[0] == 'L' and root[1] == d:
                        # dead on the other side: never live at the head
                        del w.mem[root]
                    continue
                if v0 != v1:
                    nv = self.widen_val(w, s, v0, v1, (b['id'], head, root, inst))
                    if nv != v0:
                        w.mem[root] = nv; changed = True
            for root in s.mem:
                # what an iteration allocates or points into is not reachable
                # from the values which stay the same
                if root not in w.mem and root[0] == '*' and not newer(root[1], base.cnt):
                    w.mem[root] = ('phi', (b['id'], head, root, inst), ()); changed = True
            nf = {k: v for k, v in w.facts.items() if s.facts.get(k) == v}
            for k, v in w.facts.items():
                if k not in nf:
                    v1 = s.facts.get(k)
                    if isinstance(v, tuple) and v[0] == 'ne' and isinstance(v1, tuple) and v1[0] == 'ne' and (v[1] & v1[1]):
                        nf[k] = ('ne', v[1] & v1[1])
                    elif isinstance(v, tuple) and v[0] == 'ne' and isinstance(v1, int) and v1 not in v[1]: nf[k] = v
            if nf != w.facts:
                w.facts = nf; changed = True
            nl = []
            # what the loops left before, or around this one, stood at does
            # not change in this one
            mine = lambda t: t[0] == 'phi' and t[1][0] == b['id'] and t[1][1] == head and t[1][3] == inst
            for c, m in w.lin:
                # instantiate phis by the values they have in s
                if (c, m) in s.lin and not any(mentions(x, mine) for x, _ in m): nl.append((c, m)); continue
                tot = I(c)
                for x, k in m:
                    y = self.subst_phi(x, s, mine)
                    cc, mm = lin_of(y)
                    tot = add(tot, mk_lin(cc * k, {z: q * k for z, q in mm.items()}))
                if self.prove_ge0(s, tot): nl.append((c, m))
            nl = tuple(nl)
            if nl != w.lin: w.lin = nl; changed = True
            for k, v in s.cnt.items():
                if w.cnt.get(k, 0) < v: w.cnt[k] = v
        if not changed and not base.loops.get(('w', d, head)):
            # the loop changes nothing: explored already
            return w, False
        w.loops[('w', d, head)] = True
        return w, changed

    def subst_phi(self, x, s, mine):
        if mine(x):
            root = x[1][2]
            v = s.mem.get(root)
            if v is None: return ('gone',)
            for e in x[2]: v = self.project(v, e)
            return v
        return x

    def widen_val(self, w, s, v0, v1, where, proj=()):
        if v0 == v1: return v0
        if v0[0] == 'phi' and v0[1] == where and v0[2] == proj: return v0
        if v0 == MOVED or v1 == MOVED or v0 == UNDEF or v1 == UNDEF:
            return v0 if v1 in (MOVED, UNDEF) else ('phi', where, proj)
        if v0[0] == 'agg' and v1[0] == 'agg' and v0[:4] == v1[:4] and len(v0[4]) == len(v1[4]):
            nv = v0[:4] + (tuple(self.widen_val(w, s, a, c, where, proj + (('f', i, None),)) for i, (a, c) in enumerate(zip(v0[4], v1[4]))),)
            if v0[2] == self.models.CURSOR and nv[4][1] != v0[4][1] and nv[4][0] == v0[4][0]:
                # a candidate invariant: the position stays within the bytes
                ln = length(self.models.content(self, w, v0[4][0]))
                if self.prove_ge0(w, sub(ln, v0[4][1])) and self.prove_ge0(s, sub(ln, v1[4][1])):
                    c, m = lin_of(sub(ln, nv[4][1]))
                    w.lin = w.lin + ((c, tuple(sorted(m.items(), key=lambda x: repr(x[0])))),)
            return nv
        if v0[0] == 'iter' and v1[0] == 'iter' and v0[1] == v1[1] and v0[3:] == v1[3:]:
            return ('iter', v0[1], ('phi', where, proj + (('f', 1, None),))) + v0[3:]
        if v0[0] == v1[0] == 'enumiter':
            inner = self.widen_val(w, s, v0[1], v1[1], where, proj + (('f', 10, None),))
            if v0[1][0] == v1[1][0] == 'iter' and sub(v0[2], v0[1][2]) == sub(v1[2], v1[1][2]):
                # counted as many as given
                return ('enumiter', inner, add(inner[2], sub(v0[2], v0[1][2])))
            return ('enumiter', inner, self.widen_val(w, s, v0[2], v1[2], where, proj + (('f', 11, None),)))
        if v0[0] == v1[0] == 'mapiter' and v0[2] == v1[2]:
            return ('mapiter', self.widen_val(w, s, v0[1], v1[1], where, proj + (('f', 10, None),)), v0[2])
        p = ('phi', where, proj)
        # a candidate invariant: the value never goes below the one at entry
        if v0[0] in ('int', 'lin', 'fld', 'sym', 'deref', 'len', 'posafter') and self.prove_ge0(s, sub(v1, v0)) and v0[0] != 'phi':
            c, m = lin_of(sub(p, v0))
            if m: w.lin = w.lin + ((c, tuple(sorted(m.items(), key=lambda x: repr(x[0])))),)
        return p

    def site(self, b, te):
        return (b['path'], te.get('s', ''))

    def fresh(self, st, stack, bb):
        k = (stack[-1], bb)
        n = st.cnt.get(k, 0) + 1
        st.cnt[k] = n
        return (stack[-1], bb, min(n, 99))

    def block(self, b, bb, st, d, stack, rets):
        """[(bb, target, state)]"""
        bl = b['blocks'][bb]
        for s in bl['st']:
            k = s['k']
            if k == 'assign':
                v = self.rvalue(st, d, s['r'], b)
                root, proj = self.lplace(st, d, s['p'])
                if root[0] == 'L' and not proj: st.mem[root] = v
                else: self.write(st, root, proj, v)
            elif k == 'dead':
                st.mem.pop(('L', d, s['l']), None)
            elif k == 'live':
                st.mem.pop(('L', d, s['l']), None)
            elif k == 'setdiscr':
                pass
        te = bl['te']; k = te['k']
        self.cur = (b, te, stack, bb)
        if k == 'goto': return [(bb, te['t'], st)]
        if k == 'switch':
            v = self.operand(st, d, te['o'])
            r = self.switch_on(st, v, te['ts'], te.get('ow'))
            return [(bb, t, s) for t, s in r]
        if k == 'return':
            v = st.mem.get(('L', d, 0), UNIT)
            if d == 0 and v[0] == 'ref' and v[1][0] == 'L':
                # a constant which refers to a table of its own initializer
                x = self.load(st, v)
                if table(x): v = ('addr', x)
            for root in [r for r in st.mem if r[0] == 'L' and r[1] >= d]: del st.mem[root]
            for kk in [x for x in st.loops if (x[0] == 'w' and x[1] >= d) or (x[0] != 'w' and x[0] >= d)]: del st.loops[kk]
            rets.append((v, st))
            return []
        if k == 'drop':
            return [(bb, te['t'], s) for s in self.do_drop(st, d, te, b, stack)]
        if k == 'assert':
            v = self.operand(st, d, te['o'])
            exp = te['e']
            tr = self.truth(st, v)
            okk = tr is not None and tr == exp
            self.oblige(st, b, te, 'assert:' + te['m'], (v, exp), okk, stack)
            if tr is not None and tr != exp:
                st.ev('panic', self.site(b, te), te['m'])
                return []
            if tr is None and not self.assume(st, v, exp): return []
            return [(bb, te['t'], st)]
        if k == 'call':
            outs = self.call(st, d, te, b, stack, bb)
            res = []
            if te.get('t') is None and outs: self.oblige(outs[0][1], b, te, 'diverge', ('reach', ''), False, stack)
            for v, s in outs:
                if te.get('t') is None: continue
                root, proj = self.lplace(s, d, te['d'])
                if root[0] == 'L' and not proj: s.mem[root] = v
                else: self.write(s, root, proj, v)
                res.append((bb, te['t'], s))
            return res
        if k == 'yield':
            st.ev('yield', self.site(b, te))
            if te.get('d') is not None: pass
            return [(bb, te['t'], st)] if te.get('t') is not None else []
        return []

    def oblige(self, st, b, te, kind, data, proved, stack):
        self.oblig.append((self.site(b, te), kind, data, proved, st.copy() if not proved else None, stack))

    def do_drop(self, st, d, te, b, stack):
        root, proj = self.lplace(st, d, te['p'])
        v = self.read(st, root, proj)
        return self.drop_value(st, v, ('ref', root, proj), b, te, stack)

    def drop_value(self, st, v, ref, b, te, stack):
        if v in (MOVED, UNDEF): return [st]
        return self.models.drop(self, st, v, ref, stack)

    # ---- calls
    def call(self, st, d, te, b, stack, bb):
        f = te['f']
        args = [self.operand(st, d, a) for a in te['a']]
        atys = [(a['ty'] if a['k'] == 'const' else a['p'][2]) for a in te['a']]
        ctx = Ctx(self, b, te, stack, bb, d, atys, te['d'][2])
        if f['k'] == 'const' and 'fn' in f:
            return self.call_fn(ctx, st, f['fn'], args)
        fv = self.operand(st, d, f)
        return self.call_value(ctx, st, fv, args)

    def call_value(self, ctx, st, fv, args):
        """call of a function value with separate arguments"""
        if fv[0] == 'ref': 
            inner = self.load(st, fv)
            if inner[0] in ('agg', 'fn', 'fnid'): 
                return self.call_value_ref(ctx, st, inner, fv, args)
        return self.call_value_ref(ctx, st, fv, None, args)

    def call_value_ref(self, ctx, st, fv, ref, args):
        if fv[0] == 'fn':
            return self.call_fn(ctx, st, fv[1].d, args)
        if fv[0] == 'fnid':
            return self.call_fn(ctx, st, {'id': fv[1], 'path': fv[2], 'local': fv[1] in self.F.bodies, 'targs': []}, args)
        if fv[0] == 'agg' and fv[1] == 'closure' and fv[2] in self.F.bodies:
            body = self.F.bodies[fv[2]]
            t1 = self.F.tys[body['locals'][1]['ty']]
            if t1['k'] == 'ref':
                if ref is None:
                    h = ('H', 'clo', self.fresh(st, ctx.stack, ctx.bb))
                    st.mem[h] = fv; ref = ('ref', h, ())
                self_arg = ref
            else: self_arg = fv
            return self.inline(ctx, st, fv[2], [self_arg] + list(args))
        lab = self.fresh(st, ctx.stack, ctx.bb)
        self.unknown['indirect'] += 1
        st.ev('ext', 'indirect', tuple(args), ctx.site(), lab)
        return [(('call', 'indirect', (fv,) + tuple(args), lab), st)]

    def inline(self, ctx, st, bid, args):
        if bid in ctx.stack or len(ctx.stack) > 60:
            return self.recursion(ctx, st, bid, args)
        return self.run(bid, args, st, ctx.stack)

    def recursion(self, ctx, st, bid, args, mut=None):
        lab = self.fresh(st, ctx.stack, ctx.bb)
        b = self.F.bodies[bid]
        loaded = []
        for i, a in enumerate(args):
            loaded.append(self.load(st, a) if a[0] == 'ref' else a)
        def read(v):
            # the bytes a cursor is over
            if v[0] == 'agg' and v[2] == self.models.CURSOR: return self.models.content(self, st, v[4][0])
            return None
        st.ev('rec', bid, tuple(args), tuple(loaded), ctx.site(), lab, tuple(read(v) for v in loaded))
        for i, a in enumerate(args):
            if mut is not None: m = mut[i]
            else:
                t = self.F.tys[b['locals'][i + 1]['ty']]
                m = t['k'] == 'ref' and t.get('mut')
            if m and a[0] == 'ref':
                old = loaded[i]
                self.write(st, a[1], a[2], self.models.havoc(self, st, old, ('rec', bid, i, lab, tuple(loaded))))
        return [(('recret', bid, tuple(loaded), lab), st)]

    def resolve_impl(self, fn, args, st):
        """body id for a trait method call on a local implementation, decided by
        the value of self when the type is generic"""
        tr, m = fn.get('trait'), fn.get('method')
        cands = self.impl_index.get((tr, m))
        if not cands or not args: return None
        v = args[0]
        for _ in range(4):
            if v[0] == 'agg' and v[1] == 'adt':
                for stt, bid, _ in cands:
                    if stt and stt['k'] == 'adt' and stt['def'] == v[2] and bid in self.F.bodies: return bid
                return None
            if v[0] == 'ref': v = self.load(st, v)
            else: return None
        return None

    def call_fn(self, ctx, st, fn, args):
        ctx.fn = fn
        if fn.get('ctor'):
            if fn.get('newtype'): return [(args[0], st)]
            return [(('agg', 'adt', fn['adt'], fn.get('variant', ''), tuple(args)), st)]
        bid = None
        if fn.get('rlocal') and fn.get('res') in self.F.bodies: bid = fn['res']
        elif fn.get('local') and not fn.get('trait') and fn['id'] in self.F.bodies: bid = fn['id']
        elif fn.get('trait') and (fn['trait'], fn.get('method')) in self.impl_index and not fn.get('res'):
            bid = self.resolve_impl(fn, args, st)
        if bid is None and fn.get('trait') and fn.get('local') and fn['id'] in self.F.bodies and fn.get('res') in (None, fn['id']):
            bid = fn['id']
        key = short(fn['path'])
        self.call_sites.add((ctx.b['id'], ctx.bb))
        # calls of closures through Fn* traits
        if key in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
            tup = args[1]
            fa = list(tup[4]) if tup[0] == 'agg' and tup[1] == 'tuple' else [tup]
            return self.call_value(ctx, st, args[0], fa)
        if bid is not None:
            body = self.F.bodies[bid]
            hook = self.models.local_hook(self, ctx, st, bid, args)
            if hook is not None: return hook
            # closures called directly by their id
            outs = self.inline(ctx, st, bid, args)
            rt = self.F.tys[body['locals'][0]['ty']]['s']
            if rt == 'u16' or rt.endswith('Option<u16>'):
                for v, s in outs: s.ev('u16', v, bid, ctx.site())
            return outs
        return self.models.external(self, ctx, st, fn, key, args)

class FnRef:
    __slots__ = ('d', 'h')
    def __init__(self, d):
        self.d = d; self.h = d.get('res') or d['id']
    def __eq__(self, o): return isinstance(o, FnRef) and self.h == o.h
    def __hash__(self): return hash(self.h)
    def __repr__(self): return 'fn:' + (self.d.get('rpath') or self.d['path'])

class Ctx:
    def __init__(self, E, b, te, stack, bb, d, atys, dty):
        self.E = E; self.b = b; self.te = te; self.stack = stack; self.bb = bb; self.d = d
        self.atys = atys; self.dty = dty; self.fn = None
    def site(self): return (self.b['path'], self.te.get('s', ''))

BOOLK = ('cmp', 'not', 'and', 'or', 'streq', 'pred')

def mk_cmp(op, a, b):
    if op == 'Eq': return mk_eq(a, b)
    if op == 'Ne':
        r = mk_eq(a, b)
        return I(1 - r[1]) if r[0] == 'int' else ('not', r)
    if is_int(a) and is_int(b):
        x, y = a[1], b[1]
        return I(int({'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]))
    if op == 'Lt': return ('cmp', 'lt', a, b)
    if op == 'Gt': return ('cmp', 'lt', b, a)
    if op == 'Le': return ('not', ('cmp', 'lt', b, a))
    return ('not', ('cmp', 'lt', a, b))

def mk_eq(a, b):
    if a == b: return TRUE
    if is_int(a) and is_int(b): return I(int(a[1] == b[1]))
    if a[0] in BOOLK and is_int(b): return a if b[1] else ('not', a)
    if b[0] in BOOLK and is_int(a): return b if a[1] else ('not', b)
    if repr(a) > repr(b): a, b = b, a
    return ('cmp', 'eq', a, b)

def const_bytes(t):
    if t[0] == 'str': return t[1].encode()
    if t[0] == 'bytes': return bytes.fromhex(t[1])
    if t[0] == 'agg' and t[1] == 'array' and all(x[0] == 'int' for x in t[4]): return bytes(x[1] for x in t[4])
    if t[0] == 'cat':
        out = b''
        for p in t[1]:
            if p[0] == 'one':
                if p[1][0] != 'int': return None
                out += bytes([p[1][1]])
            else:
                x = const_bytes(p)
                if x is None: return None
                out += x
        return out
    return None

_R = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1),
      'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1),
      'bool': (0, 1), 'char': (0, 0x10ffff)}
def ty_range(s): return _R.get(s, (0, 2**64 - 1))
