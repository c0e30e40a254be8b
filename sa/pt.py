"""compact printing of terms"""
def sh(x): return x.split('::')[-1]
def lab(l):
    return '#%s.%s.%s' % (sh(l[0]) if not l[0].endswith('}') else '..'+l[0][-40:], l[1], l[2]) if isinstance(l, tuple) and len(l) == 3 else str(l)
def pt(t, n=6):
    if not isinstance(t, tuple): return str(t)
    if not t: return '()'
    if n == 0: return '…'
    k = t[0]; p = lambda x: pt(x, n - 1)
    if k == 'int': return str(t[1])
    if k == 'str': return repr(t[1])
    if k == 'bytes': return 'b' + repr(bytes.fromhex(t[1]))[1:]
    if k == 'agg':
        nm = t[3] or sh(t[2]) or t[1]
        if t[1] in ('closure', 'coroutine'): nm = '{' + t[1] + '}'
        return nm + ('(' + ','.join(p(x) for x in t[4]) + ')' if t[4] else '')
    if k == 'fld': return p(t[1]) + '.' + (str(t[2]) + '.' if t[2] else '') + str(t[3])
    if k == 'ref': return '&' + proot(t[1], n) + ''.join('.' + str(e[1]) for e in t[2])
    if k == 'deref': return '*' + p(t[1])
    if k == 'call': return '%s(%s)%s' % (t[1], ','.join(p(x) for x in t[2]), lab(t[3]) if len(t) > 3 else '')
    if k == 'lin': return '(' + str(t[1]) + ''.join('+%s%s' % ('' if c == 1 else str(c) + '*', p(b)) for b, c in t[2]) + ')'
    if k == 'cat': return 'cat[' + ' '.join(p(x) for x in t[1]) + ']'
    if k == 'phi': return 'phi<%s%s>' % (proot(t[1][2], n), ''.join('.' + str(e[1]) for e in t[2]))
    if isinstance(k, str) and len(t) == 3 and isinstance(t[1], int) and isinstance(t[2], int): return lab(t)
    return '%s(%s)' % (k, ','.join(p(x) for x in t[1:]))
def proot(r, n):
    if r[0] == '*': return '*' + pt(r[1], n - 1)
    if r[0] == 'L': return '_%d@%d' % (r[2], r[1])
    return '%s%s' % (r[1], lab(r[2]))
def pe(e):
    return '%-12s %s' % (e[0], ' | '.join(pt(x) if isinstance(x, tuple) else str(x) for x in e[1:]))
