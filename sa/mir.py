"""Loader and pretty printer for the facts written by the MIR extractor."""
import json, sys, os

class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.crate = d.get('crate', '')
        self.tys = d['tys']
        self.adts = d['adts'] if isinstance(d['adts'], dict) else {a['id']: a for a in d['adts']}
        self.impls = d['impls']
        self.bodies = {}
        for b in d['bodies']:
            self.bodies[b['id']] = b
        self.displays = {self.tys[b['self_ty']].get('id'): b['id'] for b in d['bodies'] if b.get('trait') == 'core::fmt::Display' and b.get('method') == 'fmt'}

    def ty(self, i):
        return self.tys[i]

    def tys_s(self, i):
        return self.tys[i]['s'] if i is not None else '?'

def place(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e[0] == '*': s = '(*%s)' % s
        elif e[0] == 'f': s += '.%s' % (e[2] if not str(e[2]).isdigit() else e[1])
        elif e[0] == 'd': s += '@%s' % e[1]
        elif e[0] == 'i': s += '[_%d]' % e[1]
        elif e[0] == 'ci': s += '[%s%d]' % ('-' if e[2] else '', e[1])
        else: s += str(e)
    return s

def fnname(f):
    return f.get('rpath') or f['path']

def operand(o):
    if o['k'] in ('copy', 'move'):
        return ('' if o['k'] == 'copy' else 'move ') + place(o['p'])
    if 'fn' in o: return 'fn ' + fnname(o['fn'])
    for k in ('int', 'str', 'bytes', 'static', 'def'):
        if k in o: return '%s:%s' % (k, repr(o[k])[:120])
    return 'const' + str({k: v for k, v in o.items() if k not in ('k', 'ty')})

def rvalue(r):
    k = r['k']
    if k == 'use': return operand(r['o'])
    if k == 'ref': return '&%s %s' % (r['m'], place(r['p']))
    if k == 'bin': return '%s(%s, %s)' % (r['op'], operand(r['a']), operand(r['b']))
    if k == 'un': return '%s(%s)' % (r['op'], operand(r['a']))
    if k == 'discr': return 'discr(%s)' % place(r['p'])
    if k == 'agg':
        return 'agg %s %s%s [%s]' % (r['a'], r.get('adt', r.get('id', '')), '@%s' % r['variant'] if 'variant' in r else '', ', '.join(operand(o) for o in r['ops']))
    if k == 'cast': return 'cast %s' % {x: (operand(y) if isinstance(y, dict) and 'k' in y else y) for x, y in r.items()}
    return str(r)

def show(F, b, out=sys.stdout, cleanup=False):
    print('=====', b['id'], '|', b['path'], b['dk'], b.get('coroutine'), b['span'], b.get('trait_ref'), file=out)
    if b.get('upvars'): print('  upvars', b['upvars'], file=out)
    for i, l in enumerate(b['locals']):
        print('  _%d %s: %s' % (i, l.get('n', ''), F.tys_s(l['ty'])[:160]), file=out)
    for i, bl in enumerate(b['blocks']):
        if bl.get('cl') and not cleanup: continue
        print(' bb%d' % i, file=out)
        for s in bl['st']:
            if s['k'] == 'assign': print('    %s = %s' % (place(s['p']), rvalue(s['r'])), file=out)
            elif s['k'] in ('live', 'dead'): pass
            else: print('   ', s, file=out)
        t = bl['te']
        k = t['k']
        if k == 'call':
            f = t['f']
            fn = fnname(f['fn']) if 'fn' in f else operand(f)
            extra = ' <%s>' % ', '.join(F.tys_s(x) if isinstance(x, int) else str(x) for x in f['fn'].get('targs', []))[:150] if 'fn' in f else ''
            loc = ' LOCAL' if 'fn' in f and (f['fn'].get('rlocal') or f['fn'].get('local')) else ''
            print('    -> %s = %s%s(%s) bb%s%s' % (place(t['d']), fn, extra, ', '.join(operand(a) for a in t['a']), t.get('t'), loc), file=out)
        elif k == 'switch':
            print('    -> switch %s %s else %s' % (operand(t['o']), t['ts'], t.get('ow')), file=out)
        else:
            print('    ->', {x: (operand(y) if isinstance(y, dict) and y.get('k') in ('copy', 'move', 'const') else place(y) if x == 'p' else y) for x, y in t.items() if x not in ('s', 'exp')}, file=out)

if __name__ == '__main__':
    F = Facts(sys.argv[1])
    for b in F.bodies.values():
        if any(a in b['id'] for a in sys.argv[2:]): show(F, b)
