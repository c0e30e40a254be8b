"""The deciding step of each property, over the paths of lib.Model.

Three outcomes for an obligation: it holds (discharged), the code on some path
contradicts it (violation), or the analysis cannot tell (undecided: reported in
the evidence, never an alarm)."""
import re
from collections import Counter, defaultdict
import lib, pt, models, text
from lib import *
from engine import *

class Rep:
    def __init__(self, pid):
        self.pid = pid; self.viol = {}; self.und = Counter(); self.n = 0; self.ok = 0
        self.samples = {}; self.kinds = Counter(); self.facts = []
    def hold(self, what, sample=None):
        self.n += 1; self.ok += 1; self.kinds[what] += 1
        if sample is not None and what not in self.samples: self.samples[what] = str(sample)[:300]
    def bad(self, key, msg, site=None):
        self.n += 1
        self.viol.setdefault(key, (msg, site))
    def unk(self, msg):
        self.n += 1; self.und[msg] += 1
    def ob(self, cond, what, key, msg, site=None, sample=None):
        """cond: True / False / None (cannot tell)"""
        if cond is True: self.hold(what, sample)
        elif cond is None: self.unk(what + ': ' + msg)
        else: self.bad(key, msg, site)

    def blind(self, M):
        """a function is called which could not be found (through a pointer
        taken from where it cannot be followed): what seems to be missing may be
        done there"""
        if M.E.unknown.get('indirect'):
            for k, (m, s) in self.viol.items(): self.und['a function is called through a pointer which is not followed: %s' % m] += 1
            self.viol = {}

def where(e):
    for x in reversed(e):
        if isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, str) for y in x) and '/' in x[1]: return '%s at %s' % (x[0], x[1])
    return None

def site_of(r):
    """the last construct of the path with a place in the source"""
    for e in reversed(r.ev):
        w = where(e)
        if w: return w
    return r.unit.name

# ---------------------------------------------------------------- shared views
READBULK = {'scan', 'iter', 'any', 'contains', 'len', 'is_empty', 'get', 'read', 'scan_async', 'first_entry'}

def slot_of(e):
    """the slot of a map a store event writes to"""
    if e[0] != 'store': return None
    t = e[1]
    while isinstance(t, tuple) and t:
        if t[0] == 'slot': return t
        t = t[1] if t[0] in ('fld', '*', 'ref', 'deref') and len(t) > 1 else None
    return None

def store_maps(M):
    if not hasattr(M, '_stores'):
        M._stores = {e[1] for r in M.requests() for e in r.ev if e[0] in ('map.lock', 'map.write', 'map.insert_new', 'map.remove')}
    return M._stores

def accept_units(M):
    """the units which accept connections"""
    return M.units_with(lambda e: e[0] == 'awaited' and e[1] == 'accept')

def accept_outs(t):
    """the accept results a term depends on"""
    out = set()
    def f(x):
        if x[0] == 'out' and x[1] == 'accept': out.add(x)
        return False
    mentions(t, f)
    return out

def registry(M):
    """[(unit, path, event)] of the registrations of connections"""
    if not hasattr(M, '_reg'):
        M._reg = []
        for u in M.W.units:
            if u in M.answer_units(): continue
            for k, v, st in u.paths():
                for e in own_events(u, st):
                    if e[0] == 'map.insert_new' or e[0] == 'map.write': M._reg.append((u, st, e))
    return M._reg

def registry_maps(M):
    return {e[1] for _, _, e in registry(M)}

def meta_roots(M):
    """the heap objects registered for connections"""
    out = set()
    for _, _, e in registry(M):
        def f(x):
            if x[0] == 'H': out.add(x)
            return False
        mentions(e[3], f)
    return out

def touches_meta(M, t):
    roots = meta_roots(M); regs = registry_maps(M)
    return mentions(t, lambda x: x in roots or x in regs)

def effects(M, ev):
    """what changes the store or the metadata of a connection"""
    out = []
    for e in ev:
        if e[0] in ('map.write', 'map.insert_new', 'map.remove'): out.append(e)
        elif e[0] == 'map.bulk' and e[1] not in READBULK: out.append(e)
        elif e[0] == 'store': out.append(e)
        elif e[0] == 'atomic' and e[1] != 'load' and touches_meta(M, e[2]): out.append(e)
    return out

def show_ev(e): return pt.pe(e)[:160]

def infos(M):
    if not hasattr(M, '_infos'):
        M._infos = [Info(M, r) for r in M.requests()]
    return M._infos

def done(M):
    """requests which were executed to the end, the connection going on"""
    return [i for i in infos(M) if i.r.kind == 'back' and i.r.done]

def by_cmd(M):
    d = defaultdict(list)
    for i in done(M): d[cmd_of(i)].append(i)
    return d

def cmd_of(i):
    if i.name not in SUBS: return (i.name, None)
    return (i.name, i.sub or ('?' if i.not_text(1) else None))

CMDS = [('get', None), ('set', None), ('ping', None), ('hello', None), ('client', None)] + [(n, s) for n in SUBS for s in SUBS[n]]
def cmdname(c): return ' '.join(x.upper() for x in c if x)

def unmap(ts):
    """text without the replacement of its line breaks"""
    out = []
    for x in ts:
        c = None if isinstance(x, int) or x[0] == 'dec' else text.peel(x)
        if c is not None: out += unmap(tokens(c))
        else: out.append(x)
    return out

def anchors(M, R):
    """is there something to decide?  Fails closed."""
    if M.notes:
        for n in M.notes: R.unk('the analysis was cut short: %s' % n)
        return False
    if not M.answer_units():
        lazy = lambda x: x[0] in ('mapiter', 'collect') and mentions(x, lambda y: y[0] == 'agg' and y[1] == 'closure')
        for u in M.W.units:
            for k, v, st in u.paths():
                if any(e[0] == 'ext' and e[1] not in ('Context::with_context',) and any(isinstance(x, tuple) and mentions(('x', x), lambda y: y[0] == 'agg' and y[1] == 'closure') for x in e[2]) for e in own_events(u, st)) or any(mentions(x, lazy) for x in st.mem.values()):
                    R.unk('no task which reads requests and writes replies is seen: closures are given to code which is not followed'); return False
        R.bad('no-answering-task', 'no task which reads requests and writes replies is reachable from main', None); return False
    if not done(M):
        R.bad('no-request-executed', 'no path through the answering task executes a request and goes on to the next one', None); return False
    return True

# ---------------------------------------------------------------- R: replies
def check_R01(M, R):
    if not anchors(M, R): return
    ft = frame_type(M)
    shapes = [x[0] if isinstance(x, (tuple, list)) else x for x in M.E.variants(ft)] if ft else ()
    for i in infos(M):
        r = i.r
        if not r.done: continue
        d = i.describe(); s = site_of(r)
        rep = i.reply()
        if rep[0] == 'ok' and ft and discr_fact(r.st, r.root, shapes) != 'Array' and not i.tainted():
            R.bad('malformed:%s' % rep[1][0], 'a request which is not known to be an array, and so cannot be understood, is answered (%s)' % rep[1][0], s)
        if r.kind == 'back':
            if rep[0] == 'ok': R.hold('one reply on a path which goes on', '%s -> %s' % (d, rep[1][0]))
            elif rep[0] == 'none': R.bad('no-reply:%s' % d, 'a path which executes %s goes on to the next request without having replied' % d, s)
            elif rep[0] == 'bad': R.bad('reply:%s' % d, 'a path which executes %s writes something which is not exactly one reply: %s' % (d, rep[1]), s)
            else:
                # assembled in a loop: written by a single write
                n = len([e for e in r.io() if e[1].startswith('write')])
                if n == 1 or len(i.reply_data()) == 1: R.hold('one reply on a path which goes on (assembled in a loop, one write)', d)
                else: R.unk('the reply of %s cannot be told: %s' % (d, rep[1]))
        else:
            if rep[0] == 'bad': R.bad('reply-end:%s' % d, 'a path which executes %s and ends the connection writes more than one reply: %s' % (d, rep[1]), s)
            elif rep[0] == 'none':
                isok = r.v is not None and r.v[0] == 'agg' and r.v[3] == 'Ok'
                eff = effects(M, r.ev)
                if eff: R.bad('effect-no-reply:%s' % show_ev(eff[0]), 'a request takes effect (%s) and the connection ends without a reply' % show_ev(eff[0]), s)
                elif isok: R.bad('dropped:%s' % d, 'a request is taken and the connection ends as if it had been handled, without any reply', s)
                else: R.hold('no reply to a refused request')
            else: R.hold('at most one reply on a path which ends the connection')
    # nothing else writes
    reqs = defaultdict(list)
    for r in M.requests(): reqs[id(r.st)].append(r)
    sinks = set()
    for u in M.W.units:
        for k, v, st in u.paths():
            ev = own_events(u, st)
            first = min([r.start for r in reqs.get(id(st), ())] or [len(ev)])
            for j, e in enumerate(ev):
                if e[0] == 'io' and e[1] in ('write_all', 'write', 'writev', 'flush', 'shutdown'):
                    sinks.add(e[2])
                    if e[1].startswith('write') and j < first:
                        ins = 'an unfinished request' if any(x[0] == 'recv' for x in ev[:j]) else 'no request'
                        R.bad('write-outside:%s' % where(e), 'bytes are written while %s is being executed' % ins, where(e))
    srcs = set()
    for u in M.reader_units():
        for k, v, st in u.paths():
            for e in own_events(u, st):
                if e[0] == 'io' and e[1].startswith('read'): srcs |= accept_outs(e[2])
    for s in sinks:
        a = accept_outs(s)
        if a and srcs: R.ob(a == srcs, 'replies go to the connection requests are read from', 'sink', 'replies are written to %s while requests are read from %s' % (pt.pt(s, 6), [pt.pt(x, 4) for x in srcs]), None, pt.pt(s, 5))
        else: R.unk('the connection replies are written to is not understood: %s' % pt.pt(s, 4)[:100])

def chan_label(t):
    f = []
    def g(x):
        if x[0] in ('rx', 'tx') and len(x) == 3: f.append((x[1], x[2]))
        return False
    mentions(t, g)
    return f[0] if f else None

FIFO = {'unbounded', 'bounded', 'channel', 'mpsc'}

def check_R02(M, R):
    if not anchors(M, R): return
    rd = M.reader_units(); au = M.answer_units()
    if not rd:
        R.bad('no-reader', 'no task decodes requests', None); return
    # reading side: each decoded request is handed over once, at once
    direct = any(u in au for u in rd)
    chans = set()
    for u in rd:
        if u in au: continue
        for k, v, st in u.paths():
            ev = own_events(u, st)
            ps = [j for j, e in enumerate(ev) if M.is_parse(e)]
            for n, j in enumerate(ps):
                e = ev[j]; res = ('recret', e[1], e[3], e[5])
                end = ps[n + 1] if n + 1 < len(ps) else len(ev)
                sends = [x for x in ev[j:end] if x[0] == 'send' and mentions(x[2], lambda t: t == res)]
                d = discr_fact(st, res, ('Ok', 'Err'))
                for x in sends: chans.add(chan_label(x[1]))
                if len(sends) > 1: R.bad('sent-twice:%s' % where(sends[1]), 'a decoded request is handed over %d times' % len(sends), where(sends[1]))
                elif len(sends) == 1:
                    x = sends[0]
                    if x[2] == ('fld', res, 'Ok', 0): R.hold('a decoded request is handed over as it is, once', show_ev(x))
                    else: R.unk('what is handed over is not just the request: %s' % pt.pt(x[2], 4)[:80])
                elif d == 'Ok':
                    R.bad('not-sent:%s' % where(e), 'a request is decoded and not handed over to be executed (the task %s)' % ('goes on' if k == 'back' else 'ends'), where(e))
                else: R.hold('nothing is handed over when decoding fails')
    # executing side
    for u in au:
        for k, v, st in u.paths():
            for e in own_events(u, st):
                if e[0] == 'recv': 
                    l = chan_label(e[1])
                    if l in chans:
                        R.ob(True if l[0] in FIFO else None, 'requests travel through a first in first out channel', 'fifo', 'kind of channel %s' % (l,), where(e), l)
                    elif l is not None and not direct: R.bad('other-channel:%s' % (l,), 'the requests executed do not come from the channel decoded ones are handed to', where(e))
    for i in infos(M):
        r = i.r
        for e in r.ev:
            if e[0] == 'spawn' : R.bad('spawn:%s' % where(e), 'executing a request starts a task which goes on after it', where(e))
            if e[0] == 'select': R.unk('several things are awaited at once while a request is executed')
    R.hold('no request is executed by another task')
    # two messages taken without the first one being answered
    for u in au:
        for k, v, st in u.paths():
            ev = own_events(u, st)
            rs = [j for j, e in enumerate(ev) if (e[0] == 'recv' or (direct and M.is_parse(e)))]
            for a, b in zip(rs, rs[1:]):
                e = ev[a]
                res = e[2] if e[0] == 'recv' else ('recret', e[1], e[3], e[5])
                if discr_fact(st, res, ('None', 'Some') if e[0] == 'recv' else ('Ok', 'Err')) in ('Some', 'Ok') or mentions(tuple(ev[a+1:b]), lambda t: t == res):
                    got = ('fld', res, 'Some' if e[0] == 'recv' else 'Ok', 0)
                    if any(x[0] == 'push' and mentions(x[1], lambda t: t == got) for x in ev[a:]): R.unk('requests are kept to be executed later')
                    elif not any(x[0] == 'io' for x in ev[a:b]): R.bad('skipped:%s' % where(ev[b]), 'a second request is taken before the one taken before it is answered', where(ev[b]))
    # one task executes, one task reads, per connection
    for kind, us in (('executing', au), ('reading', rd)):
        sp = Counter(u.lab for u in us)
        R.ob(True if len(us) == 1 else None, 'a single %s task per connection' % kind, 'tasks-' + kind, '%d %s tasks' % (len(us), kind))

LF = (10, 13)
def check_R03(M, R):
    if not anchors(M, R): return
    for i in done(M) + [i for i in infos(M) if i.r.kind == 'ret']:
        rep = i.reply()
        vals = []
        if rep[0] == 'ok': vals = flat(rep[1])
        elif rep[0] == 'bad' and 'line break' in rep[1]:
            R.bad('line:%s' % i.describe(), 'the reply of %s: %s' % (i.describe(), rep[1]), site_of(i.r)); continue
        for v in vals:
            if v[0] in ('simple', 'error'): line_ok(M, R, i.describe(), v[1], site_of(i.r), i.st)
    # entries of arrays and maps: what the encoder does with any Simple / Error
    for v, ts, w, st in encoder_lines(M):
        line_ok(M, R, 'any %s value' % v, ts, w, st)

def flat(v):
    out = [v]
    if v[0] in ('array', 'map', 'set', 'push') and v[2]:
        for x in v[2]: out += flat(x)
    return out

def line_ok(M, R, d, ts, site, st=None):
    for x in ts:
        if isinstance(x, int):
            if x in LF: R.bad('const-break:%s' % d, 'the line of %s contains a line break' % d, site)
            continue
        ls = [l for l in text.leaves(x)]
        made = ls != [x]
        for l in ls:
            env = [(k, b'x') for k in ls if k != l]
            ex = excluded(M, st, l)
            r = text.ev(x, env + [(l, text.sample(ex))])
            safe = None if r is None else not any(b in r for b in LF)
            if safe and made: R.hold('no character of the text of a line reply becomes a line break', '%s: %s' % (d, pt.pt(l, 3))); continue
            if safe: R.hold('the text of a line reply has no line break where it is sent', '%s: %s' % (d, pt.pt(l, 3))); continue
            if safe is None:
                b = pushed_break(M, x)
                if b: R.bad('map-break:%s' % d, 'the text of the line reply of %s can still contain a line break: %s is copied as it is' % (d, b[0]), b[1] or site)
                else: R.unk('the line of %s contains %s' % (d, pt.pt(x, 4)[:60]))
                continue
            if l[0] == 'dec':
                t = l[1]
                if t[0] in ('fld', 'elem') and line_input(M, t): pass
                else: R.hold('a number or an address in a line reply'); continue
            elif l[0] == 'eff' or unknown_in(l) or not line_input(M, l):
                b = pushed_break(M, l)
                if b: R.bad('map-break:%s' % d, 'the text of the line reply of %s can still contain a line break: %s is copied as it is' % (d, b[0]), b[1] or site)
                else: R.unk('the line of %s contains %s' % (d, pt.pt(l, 4)[:60]))
                continue
            if made: R.bad('map-break:%s' % d, 'the text of the line reply of %s can still contain a line break' % d, site)
            else: R.bad('raw:%s' % d, 'text of a client goes into the line reply of %s as it is: %s' % (d, pt.pt(l, 5)), site)

def pushed_break(M, x):
    """a text built by a loop, one character after the other: a line break which
    one of its rounds copies"""
    phis = {t[1][:3] for t in subterms(x) if t[0] == 'phi'}
    for u in list(M.W.units) + [u for u, _, _ in encoder_runs(M)]:
        for stk, h, st in u.backs:
            for fn, head, root in phis:
                if (stk[-1], h) != (fn, head): continue
                c = st.mem.get(root)
                if c is None or c[0] != 'cat': continue
                for p in c[1]:
                    if p[0] != 'one' or p[1][0] not in ('elem', 'int'): continue
                    v = p[1]; f = v[1] if v[0] == 'int' else st.facts.get(v)
                    if f in LF and isinstance(f, int): return 'the character %d' % f, __import__('checks_n').last_site(st.events())
    return None

def excluded(M, st, l):
    """line breaks which what is known on the path excludes from a text"""
    out = set()
    if st is None: return out
    if M.E.prove_ge0(st, sub(I(0), length(l))): return set(LF)
    import checks_n
    for k, f in st.facts.items():
        if k[0] not in ('pred', 'call') or not mentions(k, lambda t: t == l): continue
        if k[0] == 'call' and k[1] != 'str::contains' or k[0] == 'pred' and k[1] not in ('any', 'all'): continue
        src = k[2][0] if k[0] == 'call' else k[2]
        if l not in text.leaves(src) and not (text.it_child(src) is not None and l in text.leaves(text.it_child(src))): continue
        r = checks_n.refuses(k, f, l)
        if r: out |= r & set(LF)
    return out

def line_input(M, t):
    return mentions(t, lambda x: x[0] in ('elem', 'stored', 'recvres', 'recret', 'shared', 'sym'))

# ---------------------------------------------------------------- the encoder, alone
def frame_type(M):
    for r in M.requests():
        for k in r.st.facts:
            if k[0] == 'discr' and k[1] == r.root: return k[2]
    return None

def ty_mentions(F, i, adt, depth=0):
    t = F.tys[i]
    if t['k'] == 'ref': return depth < 3 and ty_mentions(F, t['args'][0], adt, depth + 1)
    return t['k'] == 'adt' and (t.get('id') == adt or t.get('def') == adt)

def encoder_runs(M):
    """[(unit, paths, argument)]: the functions which take a value and write
    its encoding, run on any value"""
    if hasattr(M, '_enc'): return M._enc
    M._enc = []
    ft = frame_type(M); F = M.F
    used = {x for u in M.answer_units() for x in M.E.visited_bodies}
    for b in F.bodies.values():
        if '{closure' in b['path'] or b['id'] not in used or not ft: continue
        idx = [i for i in range(b['argc']) if ty_mentions(F, b['locals'][i + 1]['ty'], ft)]
        if len(idx) == 1 and b.get('dk') in ('Fn', 'AssocFn') and b['argc'] == 2: VALUE_ARG[b['id']] = idx[0]
        if len(idx) != 1 or b['argc'] < 2: continue
        W2 = lib.world.World.__new__(lib.world.World)
        W2.__dict__.update(M.W.__dict__); W2.units = []; W2.notes = []
        n = len(M.E.oblig)
        u = W2.run_fn(None, bid=b['id'], name='enc:' + b['path'])
        del M.E.oblig[n:]
        ps = list(u.paths())
        if any(e[0] == 'io' and e[1].startswith('write') for k, v, st in ps for e in st.events()):
            arg = u.args[idx[0]]
            if arg[0] == 'ref' and arg[1][0] == 'H': arg = ('sym', '%s.%d' % (b['path'], idx[0]))
            M._enc.append((u, ps, arg))
        elif W2.notes: M.notes += W2.notes
    return M._enc

VALUE_ARG = {}      # function -> which of its arguments is the value it encodes

def lin_buf(t):
    """tokens of an encoding: bytes, ('VALUE', what) for an encoded value,
    ('BASE',) for what a loop started from"""
    if t[0] == 'eff' and t[1][0] == 'rec':
        return lin_buf(t[2]) + [('VALUE', t[1][4][VALUE_ARG.get(t[1][1], 0)])]
    if t[0] == 'phi': return [('BASE',)]
    if t[0] == 'fld' and t[3] == 0 and t[1][0] in ('eff', 'phi', 'fld', 'agg') and (t[1][0] != 'fld' or mentions(t[1], lambda x: x[0] in ('eff', 'phi'))): return lin_buf(t[1])
    if t[0] == 'agg' and t[1] == 'adt' and len(t[4]) == 1: return lin_buf(t[4][0])
    if t[0] == 'cat':
        out = []
        for p in t[1]: out += lin_buf(p)
        return out
    return tokens(t)

def variant_of(M, st, a, ft):
    for k, f in st.facts.items():
        if k[0] == 'discr' and k[1] == a and isinstance(f, int):
            vs = M.E.variants(ft); 
            return vs[f][0] if isinstance(vs[f], (tuple, list)) else vs[f]
    return None

def io_tokens(M, st):
    out = []; last = None
    for d, e in M.written(st, st.events()): out += lin_buf(d); last = e
    return out, last

def encoder_lines(M):
    """(variant, text tokens, site) of line values"""
    out = []
    for u, ps, a in encoder_runs(M):
        for k, v, st in ps:
            ts, e = io_tokens(M, st)
            if not e: continue
            try: val, j = parse_resp(ts, empty=M.empty(st))
            except (Bad, Unk): continue
            if val[0] in ('simple', 'error'): out.append((val[0], val[1], where(e), st))
    return out

EXPECT = {'Simple': 'simple', 'Error': 'error', 'Integer': 'int', 'Bulk': 'bulk', 'Null': 'null', 'Array': 'array', 'Map': 'map'}

def check_R04(M, R):
    if not anchors(M, R): return
    # what requests are answered
    for i in infos(M):
        rep = i.reply()
        if rep[0] == 'bad' and 'followed by' not in rep[1]:
            R.bad('reply:%s' % i.describe(), 'the reply of %s is not well formed: %s' % (i.describe(), rep[1]), site_of(i.r))
        elif rep[0] == 'ok': R.hold('reply of an executed request', '%s -> %s' % (i.describe(), rep[1][0]))
    ft = frame_type(M); encs = encoder_runs(M)
    if not encs:
        R.unk('no function which takes a reply value and writes it'); return
    for u, ps, a in encs:
        seen = set(); walked = {}
        for k, v, st in ps:
            # what goes through the entries of each kind of value
            var = variant_of(M, st, a, ft)
            if var is None or k != 'back': continue
            for e2 in st.events():
                if e2[0] == 'rec':
                    for x in (e2[2], e2[3]):
                        n = entry_index(x[VALUE_ARG.get(e2[1], 0)], ('fld', a, var, 0))
                        if n is not None and n[0] == 'phi': walked.setdefault(var, set()).add(n)
        for k, v, st in ps:
            var = variant_of(M, st, a, ft)
            ts, e = io_tokens(M, st)
            if var is None or (not e and k == 'ret'): continue
            if k == 'ret':
                if any(not isinstance(t, int) and t[0] in ('BASE', 'VALUE') for t in ts):
                    rest = strip_values(ts)
                    if rest is None or var not in ('Array', 'Map', 'Set', 'Push'): R.unk('encoding of %s: %s' % (var, show_toks(ts))); continue
                    if any(t != ('BASE',) for t in rest): R.bad('trailer:%s' % var, 'something is written after the entries of %s: %s' % (var, show_toks(rest)), where(e)); continue
                    how = exhausted(M, st, ('fld', a, var, 0), ts, walked.get(var, ()))
                    if how is True: R.hold('the encoding of %s ends with its last entry' % var)
                    elif how: R.bad('entries-left:%s' % var, 'the encoding of %s announces all the entries and %s' % (var, how), where(e))
                    else: R.unk('whether the encoding of %s ends with its last entry' % var)
                    continue
                try: val, j = parse_resp(ts, empty=M.empty(st))
                except Bad as x:
                    if e and discr_fact(st, e[4], ('Ok', 'Err')) == 'Err': R.hold('nothing more is written after a failure')
                    else: R.bad('enc:%s' % var, 'encoding of %s: %s' % (var, x), where(e))
                    continue
                except Unk as x:
                    if e and discr_fact(st, e[4], ('Ok', 'Err')) == 'Err': R.hold('nothing more is written after a failure')
                    else: R.unk('encoding of %s: %s' % (var, x))
                    continue
                if j != len(ts): R.bad('enc-more:%s' % var, 'encoding of %s is followed by %s' % (var, untok(ts[j:])), where(e)); continue
                c = ('fld', a, var, 0); seen.add(var)
                exp = EXPECT.get(var)
                if exp is None: R.hold('well formed', var); continue
                okk = val[0] == exp
                why = 'encoded as %s' % val[0]
                if okk and exp in ('simple', 'error'): okk = unmap(val[1]) == [c] or val[1] == () and M.E.prove_ge0(st, sub(I(0), length(c))); why = 'the line is %s' % untok(list(val[1]))
                if okk and exp == 'int': okk = val[1] == c; why = 'the number written is %s' % pt.pt(val[1], 5)
                if okk and exp == 'bulk': okk = list(val[1]) == [c] or val[1] == () and M.E.prove_ge0(st, sub(I(0), length(c))); why = 'the bytes written are %s' % untok(list(val[1]))
                if okk and exp in ('array', 'map'):
                    n = length(c); why = 'the count written is %s' % pt.pt(val[1], 6)
                    okk = val[1] == n or val[1] == I(0)
                if not okk and any(unclear(x) for x in ts): R.unk('encoding of %s: %s' % (var, why))
                else: R.ob(okk, 'encoding of each kind of value', 'enc:%s' % var, '%s: %s' % (var, why), where(e), '%s -> %s' % (var, untok(ts)))
            elif var in ('Simple', 'Error', 'Integer', 'Bulk', 'Null'): pass      # the end of the encoding holds the whole of it
            else:
                # one more entry
                c = ('fld', a, var, 0)
                best = None
                for root, val in st.mem.items():
                    if mentions(val, lambda x: x[0] == 'eff' and x[1][0] == 'rec'):
                        l = lin_buf(val)
                        if any(not isinstance(x, int) and x[0] == 'VALUE' for x in l): best = l; break
                if best is None:
                    best = []
                    for e2 in st.events():
                        if e2[0] == 'rec': best.append(('VALUE', e2[2][VALUE_ARG.get(e2[1], 0)]))
                    left = [t for t in walked.get(var, ()) if M.E.prove_ge0(st, sub(sub(length(c), t), I(1)))]
                    if not best and left and not any(e2[0] == 'io' for e2 in st.events()):
                        R.bad('entry-skipped:%s' % var, 'one step over the entries of %s writes nothing' % var, where(e) if e else None); continue
                    if not best: R.unk('a loop in the encoding of %s' % var); continue
                j = 0
                while j < len(best) and not (not isinstance(best[j], int) and best[j][0] in ('VALUE', 'BASE')): j += 1
                if j < len(best) and best[j] == ('BASE',): j += 1
                if any(x == ('BASE',) for x in best[j:]): R.unk('a loop in the encoding of %s' % var); continue
                vals = best[j:]
                want = {'Array': 1, 'Map': 2, 'Set': 1, 'Push': 1}.get(var)
                extra = [x for x in vals if isinstance(x, int) or x[0] != 'VALUE']
                if any(not isinstance(x, int) and (x[0] != 'VALUE' and unknown_in(x)) for x in vals): R.unk('a loop in the encoding of %s: %s' % (var, show_toks(vals))); continue
                if extra: R.bad('entry:%s' % var, 'an entry of %s is written with something else than its encoding: %s' % (var, show_toks(vals)), where(st.events()[-1])); continue
                if want is None: R.unk('a loop in the encoding of %s' % var); continue
                els = [x[1] for x in vals]
                idx = {elem_index(x, c) for x in els}
                if None in idx: R.unk('entries of %s: %s' % (var, [pt.pt(x, 4) for x in els])); continue
                kv = [x[3] if len(x) > 3 else '' for x in els]
                okk = len(els) == want and len(idx) == 1 and (want == 1 or kv == ['k', 'v'])
                w = [x for x in st.events() if x[0] == 'rec']
                R.ob(okk, 'each entry of %s once, in order' % var, 'entries:%s' % var, 'one step over the entries of %s encodes %s' % (var, [(pt.pt(x, 3), ) for x in els]), where(w[-1]) if w else None, [pt.pt(x, 4) for x in els])
        for var in ('Simple', 'Error', 'Integer', 'Bulk', 'Null'):
            if var in [x[0] if isinstance(x, (tuple, list)) else x for x in M.E.variants(ft)] and var not in seen: R.unk('no complete encoding of %s seen in %s' % (var, u.name))

def strip_values(ts):
    """what follows the entries: None if the loop's start is not there"""
    if ('BASE',) in ts: return ts[ts.index(('BASE',)) + 1:]
    j = max((n for n, x in enumerate(ts) if not isinstance(x, int) and x[0] == 'VALUE'), default=None)
    return None if j is None else ts[j + 1:]

def entry_index(x, c):
    """which entry of c a value is, also one of the first entries of c"""
    while x[0] == 'addr' or x[0] == 'fld' and x[1][0] in ('elem', 'elemref', 'addr'): x = x[1]
    if x[0] in ('elem', 'elemref', 'idx'):
        d = x[1]
        while d[0] == 'upto': d = d[1]
        if d == c: return x[2]
    return None

def exhausted(M, st, c, ts, walked=()):
    """did the loop over the entries of c come to its end?  True, what is wrong, or None"""
    E = M.E; n = length(c)
    for x in ts:
        if isinstance(x, int) or x[0] != 'VALUE': continue
        v = x[1]
        while v[0] in ('addr', 'fld'): v = v[1]
        if v[0] == 'anyelem' and v[1][0] in ('iter', 'filtiter', 'reviter', 'stepiter'):
            it = v[1]
            if it[0] == 'filtiter': return 'leaves some out'
            if it[0] != 'iter' or len(it) < 4: return None
            if it[1] == c: return True if it[2] == I(0) else 'leaves the first ones out' if E.prove_ge0(st, sub(it[2], I(1))) else None
            if it[1][0] == 'upto' and it[1][1] == c and it[2] == I(0): return True if E.prove_ge0(st, sub(it[1][2], n)) else 'writes at most %s of them' % pt.pt(it[1][2], 4)
            return None
    if E.prove_ge0(st, sub(I(0), n)): return True
    cands = []
    def phis(t):
        for y in subterms(t):
            if y[0] == 'phi' and y not in cands: cands.append(y)
    for k in st.facts:
        if k[0] in ('cmp', 'discr', 'nopos'): phis(k)
    for cst, bs in st.lin:
        for b, _ in bs: phis(b)
    upto = [y for k in list(st.facts) + [b for _, bs in st.lin for b, _ in bs] for y in subterms(k) if y[0] == 'upto' and y[1] == c]
    vals = [x for x in ts if not isinstance(x, int) and x[0] == 'VALUE']
    idx = [entry_index(x[1], c) for x in vals]
    for t in cands + [I(len(vals))]:
        for k in (0, 1):
            if E.prove_ge0(st, sub(add(t, I(k)), n)) and (k == 0 or any(i == t for i in idx)): return True
    if upto and not any(E.prove_ge0(st, sub(y[2], n)) for y in upto): return 'writes at most %s of them' % pt.pt(upto[0][2], 4)
    for t in cands:
        # an entry which is there, and not written
        if t in walked and t not in idx and E.prove_ge0(st, sub(sub(n, t), I(1))): return 'stops before the last one'
        if t not in idx and E.prove_ge0(st, sub(sub(n, t), I(1))) and any(elem_index(y, c) == t for k in st.facts for y in subterms(k) if y[0] in ('elem', 'elemref', 'idx')): return 'stops before the last one'
    return None

def show_toks(ts): return ' '.join(chr(x) if isinstance(x, int) and 32 < x < 127 else str(x) if isinstance(x, int) else x[0] if x[0] in ('BASE', 'VALUE') else pt.pt(x, 3) for x in ts)[:120]

def elem_index(x, c):
    if x[0] in ('elemref', 'elem', 'anyelem') and x[1] == c: return x[2]
    if x[0] == 'addr': return elem_index(x[1], c)
    if x[0] in ('idx',) and x[1] == c: return x[2]
    return None

def check_R05(M, R):
    if not anchors(M, R): return
    for i in infos(M):
        r = i.r
        if not r.done: continue
        io = [e for e in r.ev if e[0] == 'io']
        if not io: continue
        d = i.describe()
        for e in io:
            if r.kind == 'back':
                f = discr_fact(r.st, e[4], ('Ok', 'Err'))
                if f == 'Ok': R.hold('the path goes on only if the write succeeded')
                elif f == 'Err': R.bad('failed:%s' % where(e), 'the path of %s goes on with the next request although %s failed' % (d, e[1]), where(e))
                elif mentions(tuple(r.st.facts), lambda x: x == e[4]) : R.unk('the result of %s is looked at in a way which is not understood' % e[1])
                else: R.bad('ignored:%s' % where(e), 'the result of %s is ignored while %s is answered' % (e[1], d), where(e))
            if e[1] in ('write', 'writev'):
                okv = ('fld', e[4], 'Ok', 0)
                if mentions(tuple(r.st.facts), lambda x: x == okv) or mentions(tuple(x for x in r.ev if x is not e), lambda x: x == okv): R.unk('short writes are handled in a way which is not understood')
                else: R.bad('short:%s' % where(e), 'a write may be short and its size is not looked at', where(e))
            elif e[1] == 'write_all': R.hold('written by write_all')
        ws = [n for n, e in enumerate(io) if e[1].startswith('write')]
        if ws and r.kind == 'back':
            l = io[ws[-1]]; x = l[3]
            if x[0] in ('take', 'upto', 'truncated') and len(x) > 2 and x[2][0] == 'int':
                c = x[1]
                while c[0] == 'dropn': c = c[1]
                if M.E.prove_ge0(r.st, sub(x[2], length(x[1]))): R.hold('written to its end')
                elif M.resolve(c, r.st)[0] == 'cat': R.bad('cut:%s' % where(l), 'the last write of the reply of %s writes at most %d bytes of what is left' % (d, x[2][1]), where(l))
            sink = io[ws[-1]][2]
            if mentions(sink, lambda x: x[0] == 'call' and 'BufWriter' in x[1]):
                fl = any(e[1] in ('flush', 'shutdown') and e[2] == sink for e in io[ws[-1] + 1:])
                R.ob(fl, 'flushed after the last write', 'no-flush:%s' % where(io[ws[-1]]), 'the reply of %s is left in the write buffer: no flush follows on a path which goes on' % d, where(io[ws[-1]]))
            elif unknown_in(sink, ()) and not mentions(sink, lambda x: x[0] == 'call' and 'into_split' in x[1]): R.unk('the writer is not understood')
            else: R.hold('no buffer between the write and the socket')

# ---------------------------------------------------------------- K: commands
REPLIES = {('get', None): {'bulk', 'null'}, ('set', None): {'simple'}, ('ping', None): {'simple', 'bulk'}, ('hello', None): {'map', 'array'},
    ('client', None): {'array'}, ('acl', 'cat'): {'error', 'array'}, ('client', 'getname'): {'bulk', 'null'}, ('client', 'help'): {'array'},
    ('client', 'id'): {'int'}, ('client', 'info'): {'simple', 'bulk'}, ('client', 'list'): {'array', 'bulk', 'simple'},
    ('client', 'setinfo'): {'simple', 'error'}, ('client', 'setname'): {'simple', 'error'}}
ARGS = {('get', None): (2, 2), ('set', None): (3, 5), ('ping', None): (1, 2), ('hello', None): (1, 1), ('client', None): (1, 1), ('acl', 'cat'): (2, 3),
    ('client', 'getname'): (2, 2), ('client', 'help'): (2, 2), ('client', 'id'): (2, 2), ('client', 'info'): (2, 2), ('client', 'list'): (2, None),
    ('client', 'setinfo'): (2, 4), ('client', 'setname'): (3, 3)}
NUMBERS = {(('set', None), 4)}            # elements which may be given as integers
COUNTS = {('set', None): {3, 5}, ('client', 'setinfo'): {2, 4}}

def finger(M, i):
    """what the path does, independently of the name of its command"""
    st = store_maps(M); out = set()
    for e in i.r.ev:
        if e[0] in ('map.write', 'map.insert_new') and e[1] not in registry_maps(M): out.add('store.write')
        elif e[0] in ('map.lock', 'map.read', 'map.remove') and e[1] not in registry_maps(M): out.add('store.read')
        elif e[0] == 'store' and slot_of(e) and slot_of(e)[1] not in registry_maps(M): out.add('store.write')
        elif e[0] == 'map.bulk': out.add('registry.scan' if e[2] in registry_maps(M) else 'store.bulk')
        elif e[0] == 'lock': out.add('name.' + ('write' if e[1] == 'w' else 'read'))
    return out

ALLOW = {('get', None): ({'store.read'}, set()), ('set', None): ({'store.write'}, {'store.read'}), ('client', 'getname'): ({'name.read'}, set()),
    ('client', 'info'): ({'name.read'}, set()), ('client', 'list'): ({'registry.scan'}, {'name.read'}), ('client', 'setname'): (set(), {'name.write', 'name.read'})}

def check_K01(M, R):
    if not anchors(M, R): return
    d = by_cmd(M)
    seen_names = {}
    for i in infos(M):
        for n, l in i.texts.items():
            if n not in (0, 1): continue
            for ci, var, f in l:
                if f[0] == 'is':
                    t = f[1]
                    known = t.lower() in (NAMES if n == 0 else SUBS.get(i.name, []))
                    if known and not ci:
                        R.bad('case:%s' % t.lower(), 'the name %s is recognised only when written exactly %r' % (t.upper(), t), site_of(i.r))
    for c in CMDS:
        ps = d.get(c, [])
        ps = [i for i in ps if i.name == c[0]]
        nm = cmdname(c)
        if not ps:
            any_t = [i for i in done(M) if i.name is None and i.tainted()]
            R.ob(None if any_t else False, 'every name has an implementation', 'missing:%s' % nm, 'no path recognises %s and executes it' % nm)
            continue
        vs = {f for i in ps for n in (0, 1) for ci, var, f in [(a, b, b) for a, b, _ in i.texts.get(n, ())] if n == (1 if c[1] else 0)}
        if 'Bulk' not in vs and vs: R.bad('bulk:%s' % nm, '%s is not recognised when its name is a bulk string' % nm, site_of(ps[0].r))
        kinds = set()
        for i in ps:
            rep = i.reply()
            kind = rep[1][0] if rep[0] == 'ok' else None
            if kind: kinds.add(kind)
            fg = finger(M, i)
            must, may = ALLOW.get(c, (set(), set()))
            if i.tainted(): R.unk('%s is partly executed by code which is not understood' % nm); continue
            if kind and kind not in REPLIES[c]: R.bad('kind:%s:%s' % (nm, kind), 'a path which executes %s answers a value of kind %s' % (nm, kind), site_of(i.r))
            elif fg - must - may: R.bad('does:%s:%s' % (nm, ','.join(sorted(fg - must - may))), 'a path which executes %s does what belongs to another command: %s' % (nm, ', '.join(sorted(fg - must - may))), site_of(i.r))
            elif must - fg: R.bad('lacks:%s' % nm, 'a path which executes %s does not do what it is for (%s)' % (nm, ', '.join(sorted(must - fg))), site_of(i.r))
            else: R.hold('each path of a name does what this name is for', '%s: %s %s' % (nm, kind, sorted(fg)))
    # nothing is done under another name
    for i in done(M):
        if i.name is None or (i.name in SUBS and i.sub is None and i.not_text(1)):
            fg = finger(M, i) - {'name.read'}
            if fg and not i.tainted(): R.bad('unnamed:%s' % ','.join(sorted(fg)), 'a request whose name is not one of the known ones executes a command (%s)' % ', '.join(sorted(fg)), site_of(i.r))
    # names known to the server beyond the documented ones are extensions, unless
    # they run exactly what a documented name runs
    def sig(i):
        rep = i.reply()
        return (rep[:2], tuple(sorted(finger(M, i)))) if rep[0] == 'ok' and not i.tainted() else None
    for n in (0, 1):
        other, own = {}, {}
        for i in done(M):
            named = [f[1].lower() for ci, var, f in i.texts.get(n, ()) if f[0] == 'is']
            t = named[-1] if named else None
            if n == 0:
                if t is not None and t not in NAMES: other.setdefault(('', t), []).append(i)
                elif i.name: own.setdefault(('', i.name), []).append(i)
            elif i.name in SUBS:
                if t is not None and t not in SUBS[i.name]: other.setdefault((i.name, t), []).append(i)
                elif i.sub: own.setdefault((i.name, i.sub), []).append(i)
        mine = {k: {sig(i) for i in l} for k, l in own.items()}
        for (a, t), l in other.items():
            s = {sig(i) for i in l}
            if None in s or not s: continue
            same = [k for k, v in mine.items() if k[0] == a and v == s]
            if same: R.bad('alias:%s' % t, 'the name %s, which is not that of a command, runs %s' % ((a + ' ' + t).strip().upper(), (same[0][0] + ' ' + same[0][1]).strip().upper()), site_of(l[0].r))

def check_K02(M, R):
    if not anchors(M, R): return
    ft = frame_type(M)
    for i in infos(M):
        r = i.r
        if r.kind == 'ret' and r.done:
            eff = effects(M, r.ev)
            if eff and not r.io(): R.bad('effect:%s' % where(eff[0]), 'a request which is refused has taken effect: %s' % show_ev(eff[0]), where(eff[0]))
            elif not r.io(): R.hold('a refused request has no effect')
    for i in done(M):
        r = i.r; d = i.describe(); s = site_of(r)
        t = i.tainted()
        root = [f for k, f in r.st.facts.items() if k[0] == 'discr' and k[1] == r.root]
        arr = discr_fact(r.st, r.root, [x[0] if isinstance(x, (tuple, list)) else x for x in M.E.variants(ft)] if ft else ())
        if arr != 'Array':
            if t: R.unk('the shape of a request is checked by code which is not understood')
            else: R.bad('shape:%s' % d, 'a request which is not known to be an array is executed (%s)' % (arr or 'its type is not looked at'), s)
            continue
        # the name is a text
        c = cmd_of(i)
        if c not in ARGS: continue
        lo, hi = ARGS[c]
        if not i.len_ge(lo):
            (R.unk if t else lambda m: R.bad('few:%s' % cmdname(c), m, s))('%s is executed although it may have fewer than %d elements' % (cmdname(c), lo))
        else: R.hold('at least the elements the command needs', '%s: at least %d' % (cmdname(c), lo))
        if hi is None: continue
        exact = COUNTS.get(c)
        if not i.len_le(hi):
            (R.unk if t else lambda m: R.bad('left:%s' % cmdname(c), m, s))('%s is executed although arguments may be left: nothing bounds the request to %d elements' % (cmdname(c), hi))
            continue
        if exact:
            n = [k for k in exact if i.len_ge(k) and i.len_le(k)]
            if not n:
                n2 = [k for k in range(lo, hi + 1) if i.len_ge(k) and i.len_le(k)]
                if n2 and not t: R.bad('count:%s:%d' % (cmdname(c), n2[0]), '%s is executed with %d elements: an option without its value, or something after it' % (cmdname(c), n2[0]), s)
                else: R.unk('number of elements of %s' % cmdname(c))
                continue
        R.hold('no element is left unread', '%s: at most %d' % (cmdname(c), hi))
        # types of the elements
        n = [k for k in range(lo, hi + 1) if i.len_le(k)][0]
        for j in range(n):
            el = ('elem', i.F, I(j))
            v = discr_fact(r.st, el, [x[0] if isinstance(x, (tuple, list)) else x for x in M.E.variants(ft)])
            if v in ('Bulk', 'Simple') or v == 'Integer' and (c, j) in NUMBERS: R.hold('the type of each element is checked')
            elif v is None:
                ne = [f for k, f in r.st.facts.items() if k[0] == 'discr' and k[1] == el]
                if t or mentions(tuple(k for k in r.st.facts if k[0] != 'discr'), lambda x: x == el): R.unk('type of element %d of %s' % (j, cmdname(c)))
                else: R.bad('type:%s:%d' % (cmdname(c), j), '%s is executed whatever the type of its element %d' % (cmdname(c), j), s)
            else: R.bad('type:%s:%d:%s' % (cmdname(c), j, v), '%s is executed although its element %d is of type %s' % (cmdname(c), j, v), s)

def quotes(M, i, ts, idx):
    """does the text contain the element, up to case and replaced line breaks?"""
    known = None
    for w in i.bytes_of(idx):
        for x in ts:
            if isinstance(x, int): continue
            ls = text.leaves(x)
            if w not in ls:
                if mentions(x, lambda y: y == w): known = known or 'unk'
                continue
            bad = False
            for s in [text.PLAIN] + [y.encode() for y in text.SHORT]:
                r = text.ev(x, [(l, s if l == w else b'#') for l in ls])
                if r is None: bad = None; break
                if s.decode().lower() not in r.decode('utf8', 'replace').lower(): bad = True; break
            if bad is False: return True
            if bad is None: known = known or 'unk'
            else: known = 'cut'
    if known == 'cut': return False
    if known == 'unk' or any(unclear(x) for x in ts): return None
    return False

def failed_io(r):
    """did a write (or read) fail on the path?"""
    return any(v == 1 and k[0] == 'discr' and k[1][0] == 'iores' for k, v in r.st.facts.items())

def ended_by(r):
    """nothing not followed is looked at after the last write"""
    io = r.io(); ks = list(r.st.facts)
    at = [n for n, k in enumerate(ks) if mentions(k, lambda x: x == io[-1][4])]
    return bool(at) and not any(x[0] in ('undef', 'havoc', 'gone', 'eff', 'rv', 'call', 'out', 'select') for k in ks[at[-1] + 1:] for x in subterms(k))

def check_K03(M, R):
    if not anchors(M, R): return
    found = {k: False for k in [None] + sorted(SUBS)}
    for i in done(M):
        if i.name is None: key, idx, known, no = None, 0, NAMES, i.not_text(0)
        elif i.name in SUBS and i.sub is None and i.not_text(1): key, idx, known, no = i.name, 1, SUBS[i.name], i.not_text(1)
        else: continue
        nm = 'an unknown command' if key is None else 'an unknown subcommand of %s' % key.upper()
        s = site_of(i.r)
        if i.tainted() and not no: R.unk('%s: %s' % (nm, i.tainted()[1])); continue
        rep = i.reply()
        if rep[0] == 'ok':
            if rep[1][0] != 'error':
                if no or not i.texts: R.bad('kind:%s' % key, '%s is answered by a value of kind %s, not by an error' % (nm, rep[1][0]), s)
                continue
            found[key] = True
            R.ob(quotes(M, i, rep[1][1], idx), 'the error quotes the name', 'quote:%s' % key, 'the error which answers %s does not quote its name as it is: %s' % (nm, untok(list(rep[1][1]))[:150]), s, untok(list(rep[1][1]))[:200])
        elif rep[0] == 'none': R.bad('noreply:%s' % key, '%s is not answered' % nm, s)
        elif rep[0] == 'bad': R.bad('reply:%s' % key, '%s: %s' % (nm, rep[1]), s)
        else: R.unk('reply to %s: %s' % (nm, rep[1])); found[key] = True
        eff = effects(M, i.r.ev)
        R.ob(not eff, 'no effect', 'effect:%s' % key, '%s has an effect: %s' % (nm, show_ev(eff[0]) if eff else ''), s)
    # the connection does not end once the answer is written
    for i in infos(M):
        if i.r.kind != 'ret' or not i.r.io(): continue
        if i.name is None and i.not_text(0): nm, k = 'an unknown command', None
        elif i.name in SUBS and i.sub is None and i.not_text(1): nm, k = 'an unknown subcommand of %s' % i.name.upper(), i.name
        else: continue
        if failed_io(i.r): R.hold('%s ends the connection only when it cannot be answered' % nm)
        elif i.tainted() and not ended_by(i.r): R.unk('%s: how the connection ends is not followed' % nm)
        else: R.bad('ends:%s' % k, 'the connection can end after %s was answered' % nm, site_of(i.r))
    for k, f in found.items():
        nm = 'an unknown command' if k is None else 'an unknown subcommand of %s' % k.upper()
        if not f:
            t = any(i.tainted() for i in done(M) if i.name == k and (k is None or i.sub is None))
            R.ob(None if t else False, 'answered by an error, the connection going on', 'missing:%s' % k, 'no path answers %s by an error reply and goes on to the next request' % nm)
        else: R.hold('%s is answered and the connection goes on' % nm)

def content_of(i, ts, idx):
    """is the text exactly the bytes of the element?"""
    return same_text(ts, i.bytes_of(idx))

def check_K04(M, R):
    if not anchors(M, R): return
    ps = by_cmd(M).get(('ping', None), [])
    if not ps: R.bad('missing', 'no path executes PING and goes on'); return
    got = set(); odd = False
    for i in ps:
        s = site_of(i.r); rep = i.reply()
        eff = effects(M, i.r.ev) + [e for e in i.r.ev if e[0] in ('map.lock', 'spawn', 'send')]
        R.ob(not eff, 'no effect', 'effect', 'PING has an effect: %s' % (show_ev(eff[0]) if eff else ''), s)
        if rep[0] != 'ok':
            odd = True
            R.unk('reply of PING: %s' % (rep[1] if len(rep) > 1 else 'none')) if rep[0] == 'unk' else R.bad('reply', 'PING: %s' % (rep[1] if len(rep) > 1 else 'no reply'), s); continue
        v = rep[1]
        one = i.len_le(1); two = i.len_ge(2)
        if one:
            got.add(1)
            R.ob(True if v == ('simple', tuple(b'PONG')) else None if v[0] == 'simple' and any(unclear(x) for x in v[1]) else False, 'PING answers PONG', 'pong', 'PING without argument is answered %s %s' % (v[0], untok(list(v[1]))[:60] if len(v) > 1 and isinstance(v[1], tuple) else ''), s, v)
        elif two:
            got.add(2)
            if v[0] != 'bulk': R.bad('echo', 'PING with an argument is answered by something else than a bulk string (%s)' % v[0], s)
            elif content_of(i, v[1], 1): R.hold('PING with an argument answers its bytes', untok(list(v[1])))
            elif content_of(i, v[1], 1) is None: R.unk('PING with an argument answers %s' % str(v)[:80])
            else: R.bad('echo', 'PING with an argument is answered %s %s' % (v[0], untok(list(v[1]))[:80] if len(v) > 1 and isinstance(v[1], tuple) else ''), s)
        else: R.unk('number of elements of PING')
    for n, t in ((1, 'without argument'), (2, 'with an argument')):
        if n not in got and odd: R.unk('no path is known to answer PING %s' % t)
        elif n not in got: R.bad('absent:%d' % n, 'no path answers PING %s' % t)

def id_term(M):
    """what CLIENT ID answers"""
    return {rep[1][1] for i in by_cmd(M).get(('client', 'id'), []) for rep in [i.reply()] if rep[0] == 'ok' and rep[1][0] == 'int'}

HELLO = ['server', 'version', 'proto', 'id', 'mode', 'role', 'modules']

def as_text(t):
    if t[0] == 'agg' and t[1] == 'adt' and len(t[4]) == 1: t = t[4][0]
    ts = tokens(t)
    if ts and all(isinstance(x, int) for x in ts): return bytes(ts).decode('latin1')
    return None

def reply_pairs(rep):
    """key -> value terms of a map reply; None: cannot be told"""
    if rep[0] == 'ok' and rep[1][0] in ('map', 'array'):
        v = rep[1]
        if v[2] is None:
            found = []
            def f(x):
                if x[0] == 'mapof': found.append(x)
                return False
            mentions(v[1], f)
            if not found: return None
            out = []
            for p in found[0][1:]:
                for q in (p if isinstance(p, tuple) and p and isinstance(p[0], tuple) else (p,)):
                    if not (isinstance(q, tuple) and q[0] == 'agg' and q[1] == 'tuple'): return None
                    k = as_text(q[4][0])
                    if k is None: return None
                    # an entry replaces the one of the same key
                    out = [x for x in out if x[0] != k] + [(k, q[4][1])]
            return out
        l = v[2]; out = []
        for k, x in zip(l[::2], l[1::2]):
            if k[0] not in ('bulk', 'simple') or not all(isinstance(b, int) for b in k[1]): return None
            out.append((bytes(k[1]).decode('latin1'), x))
        return out
    return None

def num_of(t):
    if t[0] == 'agg' and t[1] == 'adt' and len(t[4]) == 1: t = t[4][0]
    if t[0] == 'int' and len(t) == 2 and isinstance(t[1], tuple): t = t[1]
    return t

def check_K05(M, R):
    if not anchors(M, R): return
    ps = by_cmd(M).get(('hello', None), [])
    if not ps: R.bad('missing', 'no path executes HELLO and goes on'); return
    ids = id_term(M)
    got = False
    for i in ps:
        s = site_of(i.r); rep = i.reply()
        pairs = reply_pairs(rep)
        if pairs is None and rep[0] == 'ok':
            import checks_n
            once = checks_n.made_once(rep[1]); own = checks_n.own_of(M, i.r.unit, None)
            if once is not None and own is not None and any(own.role(x) is not None for x in subterms(once)):
                R.bad('once', 'HELLO answers every connection with what was made for the first one', s); continue
        if pairs is None:
            if rep[0] == 'bad': R.bad('reply', 'HELLO: %s' % rep[1], s)
            continue
        got = True
        ks = [k for k, _ in pairs]
        for k in HELLO:
            n = ks.count(k)
            R.ob(n == 1, 'each entry once', 'entry:%s' % k, 'HELLO answers %d entries %r' % (n, k), s, k)
        d = dict(pairs)
        if 'proto' in d:
            p = num_of(d['proto'])
            R.ob(p == I(3) if p[0] == 'int' else None, 'proto is 3', 'proto', 'proto is %s' % pt.pt(p, 4), s)
        if 'id' in d:
            t = num_of(d['id'])
            import checks_n
            own = checks_n.own_of(M, i.r.unit, None)
            ro = own.role(t) if own is not None else None
            if t in ids: R.hold('id is what CLIENT ID answers', pt.pt(t, 4))
            elif ro not in (None, 'id'): R.bad('id', 'HELLO gives the %s of the connection as its id' % ro, s)
            elif unknown_in(t, ()) and not mentions(t, lambda x: x[0] == 'atomic'): R.unk('id in HELLO: %s' % pt.pt(t, 4)[:80])
            elif not ids: R.unk('CLIENT ID answers no number')
            else: R.bad('id', 'HELLO says the id is %s, CLIENT ID %s' % (pt.pt(t, 5)[:120], [pt.pt(x, 5)[:120] for x in ids]), s)
    for i in by_cmd(M).get(('client', 'id'), []):
        rep = i.reply()
        if rep[0] == 'ok' and rep[1][0] == 'int':
            R.ob(rep[1][1][0] == 'atomic' or None, 'CLIENT ID answers the id the connection was given', 'cid', pt.pt(rep[1][1], 4)[:80])
    if not got: R.unk('the entries of the reply of HELLO could not be told')
    for i in ps:
        eff = effects(M, i.r.ev)
        R.ob(not eff, 'no effect', 'effect', 'HELLO has an effect: %s' % (show_ev(eff[0]) if eff else ''), site_of(i.r))

# the other rules live in their own files
def _load():
    import importlib
    for n in ('checks_s', 'checks_n', 'checks_d', 'checks_p'):
        try: m = importlib.import_module(n)
        except ModuleNotFoundError as e:
            if e.name != n: raise
            continue
        for k in dir(m):
            if k.startswith('check_'): globals()[k] = getattr(m, k)
_load()
