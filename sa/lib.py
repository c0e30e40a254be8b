"""What the checkers share: the runs of the interpreter, the requests found in
them, and helpers on terms."""
import world, engine, models, pt, text
from world import own_events
from engine import *

FRAME = ('sym', 'FRAME')

class Req:
    """one path through the treatment of one request: from the moment the
    message is taken to the moment the next one is asked for or the task ends"""
    __slots__ = ('unit', 'kind', 'v', 'st', 'ev', 'root', 'done', 'start', 'src', 'back')

    def fact_strings(self):
        """{index of element: (canonical term, fact)} for comparisons of text"""
        out = []
        for k, f in self.st.facts.items():
            if k[0] == 'strval': out.append((k[1], f))
        return out

    def io(self):
        return [e for e in self.ev if e[0] == 'io']

class Model:
    def __init__(self, facts_path, tier="quick"):
        self.W = world.World(facts_path)
        self.W.run_main()
        self.E = self.W.E; self.F = self.W.F
        self.notes = list(self.W.notes)
        self.decoders = {}
        self._reqs = None

    # ---- units
    def units_with(self, pred, kinds=None):
        return [u for u in self.W.units if (kinds is None or u.kind in kinds)
                and any(pred(e) for p in u.paths() for e in own_events(u, p[2]))]

    def answer_units(self):
        """the tasks which write replies"""
        return self.units_with(lambda e: e[0] == 'io' and e[1].startswith('write'))

    def is_parse(self, e):
        return e[0] == 'rec' and e[1] in self.F.bodies and self.F.bodies[e[1]]['path'].endswith('Frame::parse')

    def is_check(self, e):
        return e[0] == 'rec' and e[1] in self.F.bodies and self.F.bodies[e[1]]['path'].endswith('Frame::check')

    def reader_units(self):
        return self.units_with(self.is_parse)

    # ---- sequences built by a loop
    def resolve(self, t, st):
        """a term in which what a loop assembled, element by element, from a
        sequence is written ('flat', sequence, element, cases)"""
        if not isinstance(t, tuple): return t
        phis = set()
        def f(x):
            if x[0] == 'phi': phis.add(x); return False
            return False
        mentions(t, f)
        if not phis: return t
        m = {}
        for x in phis:
            r = self.loop_text(x, st)
            if r is not None: m[x] = r
        return replace(t, m) if m else t

    def loop_text(self, phi, st):
        if not hasattr(self, '_loops'): self._loops = {}
        bid, head, root, inst = phi[1]
        for e in st.events():
            if e[0] != 'loop' or e[1] != (bid, head) or e[2] not in self.E.entries or self.E.entries[e[2]][1] != inst: continue
            k = (phi[1:], e[2])
            if k not in self._loops:
                try: self._loops[k] = self._loop_text(phi, e[2])
                except (KeyError, IndexError, TypeError): self._loops[k] = None
            if self._loops[k] is not None:
                term, ends = self._loops[k]
                if ends is None:
                    return replace(term, {x: x[1] if self.E.prove_ge0(st, sub(x[2], length(x[1]))) else self.part(x[1], st) for x in subterms(term) if x[0] == 'upto'})
                if any(x in st.facts and st.facts[x] == f for x, f in ends): return term
        return None

    def backs_of(self, eid):
        if not hasattr(self, '_backs'): self._backs = {}; self._backed = 0
        us = self.W.units + [u for u, _, _ in getattr(self, '_enc', ())]
        for u in us[self._backed:]:
            for stk, h, s in u.backs:
                ls = [e for e in s.events() if e[0] == 'loop' and e[1] == (stk[-1], h)]
                if ls: self._backs.setdefault(ls[-1][2], []).append(s)
        self._backed = len(us)
        return self._backs.get(eid, [])

    def written(self, st, ev):
        """what the events write, loops included: [(data, event)]"""
        out = []; raw = None
        for e in ev:
            if e[0] == 'io' and e[1].startswith('write'):
                d = e[3]
                if raw is not None and raw[0] == 'take' and d[0] == 'dropn' and raw[1:] == d[1:]:
                    # the second of two parts
                    out.pop(); d = d[1]
                raw = d
                out.append((self.resolve(d, st), e))
            elif e[0] == 'loop' and len(e) > 2:
                x = self.loop_writes(st, e)
                if x is not None: out.append(x); raw = None
        return out

    def empty(self, st):
        return lambda c: c[0] not in ('mapof', 'cat', 'agg', 'collect') and self.E.prove_ge0(st, sub(I(0), length(c)))

    def part(self, c, st):
        # what told how far a loop went can be lost where error paths meet
        return ('undef', 'part of', c) if st.cnt.get(('merged',)) else ('part', c)

    def loop_writes(self, st, loop):
        """what was written by the rounds of a loop before this one, None if
        nothing was"""
        got = []; E = self.E
        for s in self.backs_of(loop[2]):
            ev = s.events()
            at = max(n for n, e in enumerate(ev) if e[0] == 'loop' and e[1:3] == loop[1:3])
            got.append(([e for e in ev[at + 1:] if e[0] == 'io' and e[1].startswith('write')], s))
        if not any(ws for ws, _ in got): return None
        e = [ws for ws, _ in got if ws][0][0]
        unk = (('undef', 'written by a loop', loop[2]), e)
        if any(len(ws) != 1 or ws[0][3] != e[3] for ws, _ in got) or loop[2] not in E.entries: return unk
        e0, inst = E.entries[loop[2]]
        d = e[3]
        mine = lambda y: y[0] == 'phi' and y[1][:2] == loop[1] and y[1][3] == inst
        if d[0] in ('elem', 'elemref') and d[1][0] == 'chunks' and mine(d[2]):
            P = d[2]; c = d[1][1]; step = add(P, I(1))
            whole = st.facts.get(('discr', ('nextres', 0, d[1], P), OPTION)) == 0
        elif d[0] == 'sl' and mine(d[2]):
            P = d[2]; c = d[1]; step = d[3]
            whole = E.prove_ge0(st, sub(P, length(c)))
        else: return unk
        def place(s):
            v = E.read_root(s, P[1][2])
            for p in P[2]: v = E.project(v, p)
            return v
        if place(e0) != I(0) or any(place(s) != step for _, s in got) or any(mine(y) for y in subterms(c)): return unk
        return (c if whole else self.part(c, st), e)

    def _loop_text(self, phi, eid):
        bid, head, root, inst = phi[1]; E = self.E
        backs = self.backs_of(eid)
        if not backs: return None
        e0 = E.entries[eid][0]
        def place(s):
            v = E.read_root(s, root)
            for p in phi[2]: v = E.project(v, p)
            return v
        init = place(e0)
        vs = [place(s) for s in backs]
        if all(v[0] == 'truncated' and v[1] == phi and E.prove_ge0(s, sub(sub(length(phi), I(1)), v[2])) for v, s in zip(vs, backs)):
            # every round cuts something off its end
            return ('truncated', init, ('fewer', init)), None
        mine = lambda y: y[0] == 'phi' and y[1][0] == bid and y[1][1] == head and y[1][3] == inst
        # what the loop goes through
        src = xs = ends = pos = None
        for r, v in e0.mem.items():
            if v[0] == 'iter' and v[2] == I(0) and not v[3].endswith('map'):
                P = ('phi', (bid, head, r, inst), (('f', 1, None),))
                if all(s.mem.get(r, UNDEF)[:3] == ('iter', v[1], add(P, I(1))) for s in backs):
                    if src is not None: return None
                    src = v[1]; pos = P; mutr = v[4] if v[3] == 'mut' else None
                    xs = [('elem', src, P), ('idx', src, P), ('deref', ('elemref', src, P)), ('elemref', src, P)]
                    ends = [(('discr', ('nextres', 0, src, P), OPTION), 0)]
            elif v[0] == 'call' and text.iter_kind(v) in ('chars', 'bytes'):
                if all(s.mem.get(r, UNDEF) == ('itafter', v) for s in backs):
                    els = {y for s in backs for k in s.facts for y in subterms(k) if y[0] == 'fld' and y[1][0] == 'call' and y[1][1] == 'Iterator::next' and y[1][2][0] == v}
                    els |= {y for s in backs for y in subterms(('x', place(s))) if y[0] == 'fld' and y[1][0] == 'call' and y[1][1] == 'Iterator::next' and y[1][2][0] == v}
                    if not els or src is not None: return None
                    src = ('collect', v); xs = list(els)
                    ends = [(('discr', y[1], OPTION), 0) for y in els]
        if src is None:
            # one piece after the other, from the start on
            v = place(backs[0])
            if v[0] != 'cat' or len(v[1]) != 2 or v[1][0] != phi or v[1][1][0] != 'sl' or any(place(s) != v for s in backs): return None
            c, P, Q = v[1][1][1:4]
            if not mine(P) or any(mine(y) for y in subterms(c)): return None
            def at(s):
                r = E.read_root(s, P[1][2])
                for p in P[2]: r = E.project(r, p)
                return r
            if at(e0) != I(0) or any(at(s) != Q for s in backs): return None
            t = ('upto', c, P)
            if init[0] == 'cat': return ('cat', init[1] + (t,)), None
            return (t if init in (('bytes', ''), ('str', '')) else ('cat', (init, t)), None) if init[0] in ('str', 'bytes') else None
        if src[0] == 'chunks':
            # one chunk after the other makes the whole
            for s in backs:
                v = place(s)
                if v[0] != 'cat' or len(v[1]) != 2 or v[1][0] != phi or v[1][1] not in xs: return None
            if any(mine(y) for y in subterms(src[1])): return None
            if init[0] == 'cat': return ('cat', init[1] + (src[1],)), ends
            if init in (('bytes', ''), ('str', '')): return src[1], ends
            return (('cat', (init, src[1])), ends) if init[0] in ('str', 'bytes') else None
        x0 = ('anyelem', ('iter', src, I(0), 'val') if src[0] != 'collect' else src[1])
        m = {y: x0 for y in xs}
        inplace = init == src
        if inplace: m[('idx', phi, pos)] = x0
        known = set(e0.facts)
        cases = set()
        for s in backs:
            v = place(s)
            if v == phi: out = (x0,) if inplace else ()
            elif inplace and v[0] == 'upd' and v[1] == phi and len(v[2]) == 1 and v[2][0][0] == ('i', pos): out = (replace(v[2][0][1], m),)
            elif not inplace and v[0] == 'cat' and v[1] and v[1][0] == phi:
                out = []
                for p in v[1][1:]:
                    if p[0] == 'one': out.append(replace(p[1], m))
                    elif const_bytes(p) is not None: out += [I(b) for b in const_bytes(p)]
                    else: return None
                out = tuple(out)
            else: return None
            fs = []
            for k, f in s.facts.items():
                if k in known: continue
                if k[0] == 'discr' and (k[1][0] == 'nextres' or k[1][0] == 'call' and k[1][1] == 'Iterator::next'): continue
                k2 = replace(k, m)
                if mentions(k2, lambda y: y == x0): fs.append((k2, f))
                elif mentions(k2, mine): return None
                else: return None
            if any(mentions(y, mine) for y in out): return None
            cases.add((out, tuple(sorted(fs, key=repr))))
        term = ('flat', src, x0, tuple(sorted(cases, key=repr)))
        if not inplace:
            if init[0] == 'cat': term = ('cat', init[1] + (term,))
            elif init in (('bytes', ''), ('str', '')): term = term
            elif init[0] in ('str', 'bytes'): term = ('cat', (init, term))
            else: return None
        return term, ends

    def requests(self):
        if self._reqs is None:
            self._reqs = [r for u in self.answer_units() for r in self.reqs_of(u)]
        return self._reqs

    def reqs_of(self, u):
        """request segments of the unit's paths.  The message comes from a
        channel, or directly from the decoder."""
        chan = any(e[0] == 'recv' for p in u.paths() for e in own_events(u, p[2]))
        out = []
        for i, (kind, v, st) in enumerate(u.paths()):
            ev = own_events(u, st)
            idx = [j for j, e in enumerate(ev) if (e[0] == 'recv' if chan else self.is_parse(e))]
            if not idx: continue
            j = idx[-1]; e = ev[j]
            if chan:
                res = e[2]; some_ = 'Some'
                f = discr_fact(st, res, ('None', 'Some'))
                if f != 'Some': continue                # no message: the end
                root = ('fld', res, 'Some', 0)
            else:
                res = ('recret', e[1], e[3], e[5])
                if discr_fact(st, res, ('Ok', 'Err')) != 'Ok': continue
                root = ('fld', res, 'Ok', 0)
            r = Req(); r.unit = u; r.kind = kind; r.v = v; r.st = st; r.ev = ev[j + 1:]; r.root = root; r.start = j; r.src = res
            r.done = True; r.back = None
            if kind == 'back':
                stk, head, _ = u.backs[i - len(u.rets)]
                r.back = (stk[-1], head)
                pos = [k for k, x in enumerate(ev) if x[0] in ('enter', 'loop') and x[1] == (stk[-1], head)]
                r.done = bool(pos) and pos[-1] < j
            out.append(r)
        return out

def discr_fact(st, t, names):
    """name of the variant the path knows t to be"""
    if t[0] == 'agg' and t[1] == 'adt': return t[3]
    for k, f in st.facts.items():
        if k[0] == 'discr' and k[1] == t:
            if isinstance(f, int) and f < len(names): return names[f]
            if isinstance(f, tuple) and f[0] == 'ne':
                rest = [n for i, n in enumerate(names) if i not in f[1]]
                if len(rest) == 1: return rest[0]
    return None

# ---------------------------------------------------------------- terms
def of_filled(t):
    """is it an element of a sequence whose content is not known?"""
    return mentions(t, lambda x: x[0] in ('elem', 'idx', 'anyelem') and isinstance(x[1], tuple) and x[1] and x[1][0] in ('phi', 'collect', 'mapped', 'filtered', 'flat', 'call', 'mapiter'))

OPAQUE = {'call', 'rv', 'undef', 'gone', 'proj', 'eff', 'phi', 'collect', 'closarg', 'itafter', 'text', 'readinto', 'havoc', 'un', 'zst', 'const', 'constdef', 'recret', 'rmw', 'anyelem', 'out', 'sorted'}
# functions whose result is a known transformation of their argument
KNOWN = ('str::trim', 'str::replace', 'str::repeat', '[u8]::trim', '[u8]::repeat', 'str::escape', '[u8]::escape')
def unknown_in(t, allow=()):
    """does the value come, even partly, from something not understood?"""
    return mentions(t, lambda x: x[0] in OPAQUE and not (x[0] == 'call' and isinstance(x[1], str) and x[1].startswith(KNOWN)) and not any(x == a for a in allow))

def tokens(t):
    """flat list of what a sequence of bytes is made of: ints for constant
    bytes, terms for the rest"""
    if t is None: return []
    if t[0] == 'cat':
        out = []
        for p in t[1]: out += tokens(p)
        return out
    if t[0] == 'one':
        return [t[1][1]] if t[1][0] == 'int' else [t]
    if t[0] in ('str', 'bytes'): return list(const_bytes(t))
    if t[0] == 'agg' and t[1] == 'array':
        out = []
        for x in t[4]: out += tokens(('one', x))
        return out
    if t[0] == 'dec' and t[1][0] == 'int': return list(str(t[1][1]).encode())
    if t[0] == 'dec' and t[1][0] in ('str', 'bytes', 'cat', 'lower', 'upper', 'mapped'): return tokens(t[1])
    if t[0] == 'lower' and t[1][0] in ('str', 'bytes'): return list(const_bytes(t[1]).lower())
    if t[0] in ('mapped', 'filtered', 'flat', 'collect', 'call', 'dec') and text.child(t) is not None and not text.leaves(t):
        s = text.ev(t, [])
        if s is not None: return list(s)
    return [t]

def untok(ts):
    """a readable form of tokens"""
    out = ''; 
    for x in ts:
        out += chr(x) if isinstance(x, int) and 32 <= x < 127 else ('\\x%02x' % x if isinstance(x, int) else '<%s>' % pt.pt(x, 7)[:120])
    return out

def unclear(x):
    """a piece of a text whose relation with what it is made of is not known"""
    if isinstance(x, int): return False
    ls = text.leaves(x)
    if ls == [x]: return unknown_in(x)
    if text.ev(x, [(l, text.PLAIN) for l in ls]) is None: return True
    return any(unknown_in(l) for l in ls)

def same_text(ts, wanted):
    """is the text (a term, or tokens) exactly one of the wanted ones?
    True, False (it is something else), None (cannot be told)"""
    if ts and isinstance(ts[0], str): ts = tokens(ts)
    ts = list(ts)
    wanted = list(wanted)
    for w in wanted:
        if ts == tokens(w): return True
    if len(ts) == 1 and not isinstance(ts[0], int):
        t = ts[0]
        for w in wanted:
            if text.leaves(t) == [w]:
                a = text.alters(t, w, raw=True)
                return None if a is None else not a
    if any(unclear(x) for x in ts): return None
    return False

def copy_of(ts, is_it):
    """same_text, what is wanted being told by a predicate"""
    if ts and isinstance(ts[0], str): ts = tokens(ts)
    return same_text(ts, [l for x in ts if not isinstance(x, int) for l in text.leaves(x) if is_it(l)])

def digit(x):
    """a byte computed as a digit is: the text is written digit by digit"""
    return x[0] == 'one' and any(t[0] == 'bin' and t[1] in ('Rem', 'Div') or t[0] == 'call' for t in subterms(x[1]))

class Bad(Exception): pass
class Unk(Exception): pass

def toklen(ts):
    r = I(0)
    for x in ts: r = add(r, I(1) if isinstance(x, int) or x[0] == 'one' else length(x[1] if x[0] == 'dec' and x[1][0] not in ('int',) and isinstance_text(x[1]) else x))
    return r

def isinstance_text(t): return False

def parse_resp(ts, i=0, depth=0, empty=None):
    """(value, next index); Bad: not RESP, Unk: cannot be told"""
    if i >= len(ts): raise Bad('nothing where a value should start')
    t = ts[i]
    if not isinstance(t, int): raise Unk('starts with %s' % pt.pt(t, 4))
    c = chr(t)
    def line(j):
        k = j
        while k < len(ts):
            if ts[k] == 13 and k + 1 < len(ts) and ts[k + 1] == 10: return ts[j:k], k + 2
            if ts[k] in (13, 10): raise Bad('a lone line break within a line')
            k += 1
        if any(not isinstance(x, int) and unknown_in(x) for x in ts[j:]): raise Unk('line end not seen')
        raise Bad('a line which is not terminated')
    def number(l):
        if all(isinstance(x, int) for x in l):
            s = bytes(l).decode('latin1')
            if s.lstrip('-').isdigit(): return I(int(s))
            raise Bad('%r is not a number' % s)
        if len(l) == 1 and l[0][0] == 'dec': return l[0][1]
        if any(not isinstance(x, int) and (unknown_in(x) or digit(x)) for x in l): raise Unk('count not understood')
        raise Bad('the count is written %s' % untok(l))
    if c in '+-':
        l, j = line(i + 1)
        return ({'+': 'simple', '-': 'error'}[c], tuple(l)), j
    if c == ':':
        l, j = line(i + 1)
        return ('int', number(l)), j
    if c == '_':
        l, j = line(i + 1)
        if l: raise Bad('null with a content')
        return ('null',), j
    if c == '$':
        l, j = line(i + 1)
        n = number(l)
        if n == I(-1): return ('null',), j
        # the content: as many tokens as the count says
        if n == I(0): k = j
        else:
            k = j; acc = I(0)
            while k < len(ts) and acc != n:
                x = ts[k]
                acc = add(acc, I(1) if isinstance(x, int) or x[0] == 'one' else length(x))
                k += 1
            if acc != n and n[0] == 'len' and empty is not None and ts[j:j + 2] == [13, 10] and empty(n[1]):
                # nothing is written of an empty content
                return ('bulk', (n[1],)), j + 2
            if acc != n:
                body = ts[j:-2] if ts[-2:] == [13, 10] else ts[j:]
                if any(not isinstance(x, int) and unknown_in(x) for x in body + [n]): raise Unk('length not related to the bytes')
                raise Bad('a bulk string announced as %s bytes but made of %s' % (pt.pt(n, 5), untok(body)))
        if ts[k:k + 2] != [13, 10]:
            if any(not isinstance(x, int) and unknown_in(x) for x in ts[k:]): raise Unk('end of bulk')
            raise Bad('a bulk string which is not followed by a line break')
        return ('bulk', tuple(ts[j:k])), k + 2
    if c in '*%~>':
        l, j = line(i + 1)
        n = number(l)
        kind = {'*': 'array', '%': 'map', '~': 'set', '>': 'push'}[c]
        if n[0] != 'int':
            return (kind, n, None), len(ts)
        m = n[1] * (2 if c == '%' else 1)
        out = []
        if j == len(ts) and m: return (kind, n, None), j
        for _ in range(m):
            v, j = parse_resp(ts, j, depth + 1, empty)
            out.append(v)
        return (kind, n, tuple(out)), j
    if c in '#,(=!': raise Unk('type %s' % c)
    raise Bad('starts with %r, which is no type of value' % c)

# ---------------------------------------------------------------- requests
FRAME_VARIANTS = None
NAMES = ['acl', 'client', 'get', 'hello', 'ping', 'set']
SUBS = {'acl': ['cat'], 'client': ['getname', 'help', 'id', 'info', 'list', 'setinfo', 'setname']}

class Info:
    """what a path knows of its request"""
    def __init__(self, M, r):
        self.M = M; self.r = r; self.st = r.st
        self.F = ('fld', r.root, 'Array', 0)
        self.len = length(self.F)
        self.texts = {}          # index -> list of (ci?, variant, fact)
        for k, f in r.st.facts.items():
            if k[0] != 'strval': continue
            t = k[1]; ci = False
            if t[0] in ('lower', 'upper'): ci = True; t = t[1]
            e = self.arg(t)
            if e: self.texts.setdefault(e[0], []).append((ci, e[1], f))
        self.name = self.text(0); self.sub = self.text(1)

    def arg(self, t):
        """(index, variant) when t is the content of an argument"""
        if t[0] == 'fld' and t[3] == 0 and t[1][0] == 'elem' and t[1][1] == self.F: return (t[1][2], t[2]) if t[1][2][0] != 'int' else (t[1][2][1], t[2])
        return None

    def text(self, i):
        """lower case text the element is known to be"""
        for ci, v, f in self.texts.get(i, ()):
            if f[0] == 'is': return f[1].lower() if isinstance(f[1], str) else f[1]
        return None

    def not_text(self, i):
        s = set()
        for ci, v, f in self.texts.get(i, ()):
            if f[0] == 'ne': s |= {x.lower() if isinstance(x, str) else x for x in f[1]}
        return s

    def bytes_of(self, i):
        """terms for the bytes of argument i"""
        return [('fld', ('elem', self.F, I(i)), v, 0) for v in ('Bulk', 'Simple')]

    def len_le(self, n):
        return self.M.E.prove_ge0(self.st, sub(I(n), self.len))
    def len_ge(self, n):
        return self.M.E.prove_ge0(self.st, sub(self.len, I(n)))

    def tainted(self):
        """is the request handed to something which is not understood?"""
        for e in self.r.ev:
            if e[0] == 'ext' and e[1] not in HARMLESS and not e[1].startswith(('str::', 'char::', 'fmt::', 'String::')) and mentions(('x',) + tuple(x for x in e[2] if isinstance(x, tuple)), lambda t: t == self.r.root): return e
            if e[0] == 'closure': return e
        return None

    def reply_data(self):
        return [d for d, e in self.M.written(self.st, self.r.ev)]

    def reply(self):
        """('ok', value) | ('none',) | ('bad', why) | ('unk', why)"""
        ds = self.reply_data()
        if not ds: return ('none',)
        ts = []
        if len(ds) > 1: ds = [cat(*ds)]
        for d in ds: ts += tokens(d)
        try:
            v, j = parse_resp(ts, empty=self.M.empty(self.st))
        except Bad as e: return ('bad', str(e))
        except Unk as e: return ('unk', str(e))
        if j != len(ts): return ('bad', 'followed by %s' % untok(ts[j:])[:200]) if not any(not isinstance(x, int) and unknown_in(x) for x in ts[j:]) else ('unk', 'more data')
        return ('ok', v)

    def describe(self):
        n = self.name or ('(none of %s)' % ','.join(sorted(map(str, self.not_text(0)))) if self.not_text(0) else '(not looked at)')
        s = self.sub or ('(none of %s)' % ','.join(sorted(map(str, self.not_text(1)))) if self.not_text(1) else '')
        return ('%s %s' % (n, s)).strip()

HARMLESS = {'stdio::_eprint', 'stdio::_print', 'future::get_context', '__private::format_err', 'TraitKind::anyhow_kind', 'Trait::new', 'AdhocKind::anyhow_kind', 'Adhoc::new', 'Error::msg', 'Crc::new'}
