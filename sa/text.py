"""Texts made from other texts: what a chain of known transformations (map,
filter, replace, trim, take ...) found by the interpreter does to each
character.  The transformation is a term; it is evaluated on every character
which matters, never run."""
from engine import *

WS = set(list(range(9, 14)) + [0x20, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000])
CTRL = set(range(0, 32)) | set(range(127, 160))
CHARS = sorted(WS | CTRL)
DOMAIN = sorted(set(range(128)) | set(CHARS) | {0xe9, 0x130, 0x4e2d, 0x1f600})

def char_fn(name, c):
    """what a predicate of the library says of a character; None: not known"""
    m = name.split('::')[-1]
    if m == 'is_whitespace': return c in WS
    if m == 'is_control': return c in CTRL
    if m == 'is_ascii_whitespace': return c in (9, 10, 12, 13, 32)
    if m == 'is_ascii_control': return c < 32 or c == 127
    if m == 'is_ascii': return c < 128
    if m == 'is_ascii_graphic': return 33 <= c <= 126
    if m == 'is_ascii_alphanumeric': return c < 128 and chr(c).isalnum()
    if m == 'is_ascii_alphabetic': return c < 128 and chr(c).isalpha()
    if m == 'is_ascii_digit': return c < 128 and chr(c).isdigit()
    if m == 'is_ascii_punctuation': return 33 <= c <= 126 and not chr(c).isalnum()
    if m == 'is_ascii_uppercase': return 65 <= c <= 90
    if m == 'is_ascii_lowercase': return 97 <= c <= 122
    if m in ('is_alphanumeric', 'is_alphabetic', 'is_numeric', 'is_lowercase', 'is_uppercase'):
        if c in WS or c in CTRL: return False
        if c < 128:
            ch = chr(c)
            return {'is_alphanumeric': ch.isalnum(), 'is_alphabetic': ch.isalpha(), 'is_numeric': ch.isdigit(), 'is_lowercase': ch.islower(), 'is_uppercase': ch.isupper()}[m]
    return None

def ev_term(t, x, c):
    """value of a term in which x is the character c"""
    if t == x: return c
    if t[0] == 'int': return t[1]
    if t[0] in ('dec', 'cast', 'deref', 'addr') and isinstance(t[1], tuple): return ev_term(t[1], x, c)
    if t[0] == 'call' and isinstance(t[1], str) and len(t[2]) >= 1:
        a = t[2][0]
        while a[0] in ('ref', 'deref', '*') and a != x:
            a = a[1] if isinstance(a[1], tuple) else a
            if a[0] in ('ref', '*', 'deref'): continue
            break
        v = ev_term(a, x, c) if a[0] != 'H' else None
        if v is None: return None
        m = t[1].split('::')[-1]
        if m in ('to_ascii_lowercase', 'to_ascii_uppercase'):
            if m == 'to_ascii_lowercase': return v + 32 if 65 <= v <= 90 else v
            return v - 32 if 97 <= v <= 122 else v
        r = char_fn(t[1], v)
        return None if r is None else int(r)
    if t[0] == 'cmp' and len(t) == 4:
        a, b = ev_term(t[2], x, c), ev_term(t[3], x, c)
        if a is None or b is None: return None
        return int({'eq': a == b, 'lt': a < b, 'le': a <= b, 'ne': a != b, 'gt': a > b, 'ge': a >= b}.get(t[1], None))
    if t[0] in ('not',):
        v = ev_term(t[1], x, c); return None if v is None else int(not v)
    if t[0] == 'un' and t[1] == 'Not':
        v = ev_term(t[2], x, c); return None if v is None else int(not v)
    if t[0] == 'bin' and t[1] in ('BitOr', 'BitAnd'):
        a, b = ev_term(t[2], x, c), ev_term(t[3], x, c)
        if a is None or b is None: return None
        return (a | b) if t[1] == 'BitOr' else (a & b)
    if t[0] == 'lin':
        r = t[1]
        for b, k in t[2]:
            v = ev_term(b, x, c)
            if v is None: return None
            r += v * k
        return r
    return None

def case_of(cases, x, c):
    """which value of a closure, given as ((value, ((condition, truth), ...)),
    ...), applies to the element c; None: cannot be told"""
    for v, fs in cases:
        okk = True
        for k, f in fs:
            if k == x: a = c
            elif k[0] == 'discr': return None
            else: a = ev_term(k, x, c)
            if a is None: return None
            if isinstance(f, (int, bool)): okk &= int(a) == int(f)
            elif isinstance(f, tuple) and f[0] == 'ne': okk &= a not in f[1]
            else: return None
            if not okk: break
        if okk: return v
    return None

def ev_cases(cases, x, c):
    v = case_of(cases, x, c)
    return None if v is None else ev_term(v, x, c)

def elem_vars(cases, src):
    out = set()
    def f(t):
        if t[0] == 'anyelem' : out.add(t)
        return False
    for v, fs in cases:
        mentions(v, f)
        for k, _ in fs: mentions(k, f)
    return out

# ---------------------------------------------------------------- terms
TRIM = {'str::trim': 'both', 'str::trim_start': 'start', 'str::trim_end': 'end', 'str::trim_left': 'start', 'str::trim_right': 'end'}
PART = ('take', 'skip', 'rev', 'step_by', 'copied', 'cloned', 'by_ref', 'fuse', 'into_iter', 'peekable')
TEXTY = ('fld', 'elem', 'lower', 'upper', 'str', 'bytes', 'cat', 'mapped', 'filtered', 'flat', 'collect', 'sl')

def strip(t):
    while t[0] in ('cast', 'addr') and isinstance(t[1], tuple): t = t[1]
    return t

def is_text_call(t):
    return t[0] == 'call' and isinstance(t[1], str) and (t[1] in TRIM or t[1] in ('str::replace', 'from_utf8_lossy', 'str::repeat') or iter_kind(t) is not None)

def iter_kind(t):
    if t[0] == 'call' and isinstance(t[1], str) and t[2]:
        m = t[1].split('::')[-1]
        if m in ('chars', 'bytes') and t[1].startswith('str::'): return m
        if m in PART and ('Iterator' in t[1]): return m
    return None

def child(t):
    """the text a text is made from by a transformation; None: not one"""
    k = t[0]
    if k in ('lower', 'upper'): return t[1]
    if k in ('mapped', 'filtered', 'flat'): return it_child(t[1][1]) if t[1][0] == 'collect' else t[1]
    if k == 'collect': return it_child(t[1])
    if k == 'dec' and (t[1][0] in TEXTY or is_text_call(t[1])): return t[1]
    if is_text_call(t):
        return it_child(t) if iter_kind(t) else t[2][0]
    return None

def it_child(t):
    if t[0] == 'iter': return t[1]
    k = iter_kind(t)
    if k in ('chars', 'bytes'): return t[2][0]
    if k: return it_child(t[2][0])
    return None

def leaves(t):
    """what a text is made of, past the known transformations"""
    if t[0] in ('str', 'bytes') or t[0] == 'one' and t[1][0] == 'int': return []
    if t[0] == 'cat': return [x for p in t[1] for x in leaves(p)]
    if t[0] == 'agg' and t[1] == 'array' and all(x[0] == 'int' for x in t[4]): return []
    c = child(t)
    return [t] if c is None else leaves(c)

def pattern(p, s):
    """replaces, in the text s, what a pattern matches: function of the
    replacement; None: not understood"""
    p = strip(p)
    cs = None
    if p[0] == 'int': cs = {p[1]}
    elif p[0] in ('str', 'bytes'): 
        k = const_bytes(p).decode('utf8', 'replace')
        return (lambda to: s.replace(k, to)) if k else None
    elif p[0] == 'agg' and p[1] == 'array' and all(x[0] == 'int' for x in p[4]): cs = {x[1] for x in p[4]}
    elif p[0] == 'cat' and all(x[0] == 'one' and x[1][0] == 'int' for x in p[1]): cs = {x[1][1] for x in p[1]}
    elif p[0] == 'pred' and p[1] == 'any':
        xs = elem_vars(p[3], p[2]) or {('anyelem', p[2])}
        if len(xs) != 1: return None
        x = list(xs)[0]; cs = set()
        for ch in set(s):
            r = ev_cases(p[3], x, ord(ch))
            if r is None: return None
            if r: cs.add(ord(ch))
    if cs is None: return None
    return lambda to: ''.join(to if ord(ch) in cs else ch for ch in s)

def dec_(b):
    try: return b.decode('utf8')
    except UnicodeDecodeError: return None

def ev(t, env):
    """the bytes of a text, given those of some of the terms in it; None"""
    for k, b in env:
        if t is k or t == k: return b
    k = t[0]
    if k in ('str', 'bytes'): return const_bytes(t)
    if k == 'one': return bytes([t[1][1]]) if t[1][0] == 'int' and 0 <= t[1][1] < 256 else None
    if k == 'cat':
        out = b''
        for p in t[1]:
            r = ev(p, env)
            if r is None: return None
            out += r
        return out
    if k == 'agg' and t[1] == 'array':
        return bytes(x[1] for x in t[4]) if all(x[0] == 'int' and 0 <= x[1] < 256 for x in t[4]) else None
    if k == 'dec':
        if t[1][0] == 'int': return str(t[1][1]).encode()
        return ev(t[1], env) if child(t) is not None or any(t[1] == kk for kk, _ in env) else None
    if k in ('lower', 'upper'):
        r = ev(t[1], env)
        if r is None: return None
        s = dec_(r)
        if s is None: return r.lower() if k == 'lower' else r.upper()
        return (s.lower() if k == 'lower' else s.upper()).encode()
    if k in ('mapped', 'filtered', 'flat', 'collect'):
        r = items(t, env)
        if r is None: return None
        mode, cs = r
        try: return bytes(cs) if mode == 'byte' else ''.join(map(chr, cs)).encode()
        except (ValueError, UnicodeEncodeError): return None
    if k == 'call' and isinstance(t[1], str):
        if iter_kind(t):
            r = items(t, env)
            if r is None: return None
            return bytes(r[1]) if r[0] == 'byte' else ''.join(map(chr, r[1])).encode()
        if not is_text_call(t): return None
        r = ev(t[2][0], env)
        if r is None: return None
        if t[1] == 'from_utf8_lossy': return r.decode('utf8', 'replace').encode()
        s = dec_(r)
        if s is None: return None
        if t[1] in TRIM:
            ws = ''.join(map(chr, WS)); m = TRIM[t[1]]
            return (s.strip(ws) if m == 'both' else s.lstrip(ws) if m == 'start' else s.rstrip(ws)).encode()
        if t[1] == 'str::replace' and len(t[2]) == 3:
            to = ev(t[2][2], env); p = pattern(t[2][1], s)
            return None if to is None or p is None else p(to.decode('utf8', 'replace')).encode()
        if t[1] == 'str::repeat' and t[2][1][0] == 'int': return r * t[2][1][1]
    return None

def items(t, env):
    """(mode, elements) of something gone through one by one"""
    k = t[0]
    if k == 'collect': return items(t[1], env)
    if k == 'iter':
        b = ev(t[1], env)
        return None if b is None or t[2][0] != 'int' else ('byte', list(b)[t[2][1]:])
    ik = iter_kind(t)
    if ik in ('chars', 'bytes'):
        b = ev(t[2][0], env)
        if b is None: return None
        if ik == 'bytes': return ('byte', list(b))
        s = dec_(b)
        return None if s is None else ('char', [ord(c) for c in s])
    if ik:
        r = items(t[2][0], env)
        if r is None: return None
        mode, l = r
        if ik in ('copied', 'cloned', 'by_ref', 'fuse', 'into_iter', 'peekable'): return r
        if ik == 'rev': return (mode, l[::-1])
        n = t[2][1] if len(t[2]) > 1 else None
        if n is None or n[0] != 'int': return None
        return (mode, {'take': l[:n[1]], 'skip': l[n[1]:], 'step_by': l[::n[1]] if n[1] else None}[ik])
    if k in ('mapped', 'filtered', 'flat'):
        b = t[1]
        if b[0] in ('mapped', 'filtered', 'flat', 'collect', 'iter') or iter_kind(b): r = items(b, env)
        else:
            r = ev(b, env)
            r = None if r is None else ('byte', list(r))
        if r is None: return None
        mode, l = r; out = []
        memo = {}
        for c in l:
            if c not in memo:
                v = case_of(t[3], t[2], c)
                if v is None: return None
                if k == 'flat': im = [ev_term(y, t[2], c) for y in v]
                else:
                    w = ev_term(v, t[2], c)
                    im = [w] if k == 'mapped' else [c] if w else []
                    if w is None: return None
                if any(y is None for y in im): return None
                memo[c] = im
            out += memo[c]
        return (mode, out)
    return None

# a text with each character which matters, the line breaks in several places
REST = ''.join(chr(c) for c in DOMAIN if c not in (10, 13))
def sample(without=()):
    out = 'a' + ''.join(x for x in ('\r', 'b', '\n', 'c', '\r\n', 'd', '\n\r', 'e', '\n\n', 'f', '\r\r', 'g') if not any(ord(c) in without for c in x))
    return (out + ''.join(c for c in REST if ord(c) not in without) + 'z').encode()
PLAIN = ('  aZ\t' + REST * 30 + 'z  ').encode()
RAW = [b'\xff', b'a\x80b', b'\xe4\xb8']
SHORT = ['', 'a', 'Abc', 'x y', ' x', 'x ', "it's", 'é', '\u4e2d\u6587', 'a"b\\c', '0', '-1', '\x00', '\x7f']

def peel(t):
    """the text under a transformation which changes nothing but line breaks"""
    c = child(t)
    if c is None: return None
    if ev(t, [(c, PLAIN)]) != PLAIN: return None
    for s in SHORT:
        if ev(t, [(c, s.encode())]) != s.encode(): return None
    return c

def alters(t, leaf, texts=None, raw=False):
    """does the transformation give something else than the text it starts
    from?  True (for which), False, None: not known"""
    if t == leaf: return False
    seen = False
    none = False
    for s in ([PLAIN] + [x.encode() for x in SHORT] + [sample()] + (RAW if raw else []) if texts is None else texts):
        r = ev(t, [(leaf, s)])
        if r is None: none = True
        elif r != s: return True
    return None if none else False
