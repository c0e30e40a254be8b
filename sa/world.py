"""Runs the abstract interpreter over the whole server, from `main` through
every thread and task it spawns, and over the entry points analysed alone."""
import sys, time
from mir import Facts
import engine, models
from engine import *

def lin_of_items(t):
    c, m = lin_of(t)
    return (c, tuple(sorted(m.items(), key=lambda x: repr(x[0]))))

class Unit:
    """one root: a function or a spawned thread/task, and all its paths"""
    def __init__(self, name, kind, bid, parent=None):
        self.name = name; self.kind = kind; self.bid = bid; self.parent = parent
        self.rets = []; self.backs = []; self.value = None; self.lab = None; self.base = None; self.stack = (); self.site = None
    def paths(self):
        for v, s in self.rets: yield 'ret', v, s
        for stk, h, s in self.backs: yield 'back', None, s

def own_events(unit, st):
    """events after the start of the unit"""
    out = []; t = st.trace
    while t is not None and t is not unit.base:
        out.append(t[1]); t = t[0]
    out.reverse()
    return out

class World:
    def __init__(self, facts_path, per_site=2, deadline=None):
        self.F = Facts(facts_path)
        self.E = engine.Engine(self.F, models)
        self.units = []
        self.per_site = per_site
        self.notes = []

    def find(self, suffix, required=True):
        r = [b for b in self.F.bodies.values() if b['path'].endswith(suffix)]
        return r[0] if r else None

    def run_unit(self, unit, runner):
        E = self.E
        nb = len(E.backedges)
        E.backedges_keep = True
        try:
            unit.rets = runner()
        except Budget:
            self.notes.append('budget exhausted in ' + unit.name)
            unit.rets = []
            unit.cut = True
        unit.backs = E.backedges[nb:]
        del E.backedges[nb:]
        self.units.append(unit)

    def run_main(self):
        E = self.E
        E.merging = True
        E.opts['local_hook'] = self.decoder_hook
        b = self.find('main')
        mains = [x for x in self.F.bodies.values() if x['path'] in ('crate::main', 'main')]
        b = mains[0] if mains else None
        st = St()
        u = Unit('main', 'main', b['id'] if b else None)
        E.opts['peel'] = True
        if b: self.run_unit(u, lambda: E.run(b['id'], [], st, ()))
        else:
            self.notes.append('no main')
        seen = {}
        while E.deferred:
            kind, site, fut, s, lab, stack = E.deferred.pop(0)
            key = (kind, site)
            if kind != 'thread':
                # the last one comes from the widened loop: it stands for all
                # those of the same shape
                sg = (key, self.shape(fut))
                if any((k2, s2) == key and self.shape(f2) == sg[1] for k2, s2, f2, *_ in E.deferred): continue
                if sg in seen: continue
                seen[sg] = 1
            else:
                # one for each turn of the loop which starts them: the last
                # state, which is the most general one
                if any((k2, s2, l2) == (kind, site, lab) for k2, s2, f2, st2, l2, *_ in E.deferred): continue
                sig = (key, self.sig(fut))
                if sig in seen or seen.get(key, 0) >= self.per_site: continue
                seen[sig] = 1
                seen[key] = seen.get(key, 0) + 1
            s = s.copy()
            fut = self.settle(fut, s)
            for root in [r for r in s.mem if r[0] == 'L']: del s.mem[root]
            s.loops = {}
            v = fut
            bid = v[2] if v[0] == 'agg' else None
            uu = Unit('%s@%s' % (kind, site[0].split('::')[-2] + '::' + site[0].split('::')[-1] if '::' in site[0] else site[0]), kind, bid)
            uu.site = site; uu.value = fut; uu.lab = lab; uu.stack = stack
            s.ev('unit', kind, site, lab)
            uu.base = s.trace
            def runner(v=v, s=s, kind=kind):
                if v[0] == 'agg' and v[1] == 'coroutine' and v[2] in self.F.bodies:
                    return E.run(v[2], [v, ('sym', 'cx')], s, ())
                if v[0] == 'agg' and v[1] == 'closure' and v[2] in self.F.bodies:
                    return E.run(v[2], [v], s, ())
                self.notes.append('spawned value not understood at %s' % (site,))
                return []
            E.opts['peel'] = kind == 'thread'
            self.run_unit(uu, runner)
        E.merging = False
        E.opts.pop('local_hook')
        return self

    def filling(self, phi, st):
        """the elements of a vector which a loop fills: the one of the first
        turn (None when there may be none), those of the later turns (None among
        them when they are not known), what each of those turns makes anew"""
        E = self.E
        bid, head, root, inst = phi[1]
        for e in st.events():
            if e[0] != 'loop' or e[1] != (bid, head) or e[2] not in E.entries or E.entries[e[2]][1] != inst: continue
            def place(s):
                t = E.read_root(s, root)
                for p in phi[2]: t = E.project(t, p)
                return t
            init = place(E.entries[e[2]][0])
            first = init[1][0][1] if init[0] == 'cat' and init[1] and init[1][0][0] == 'one' else None
            if first is None and init != EMPTY: continue
            later = set(); mem = None; made = set()
            for u in self.units:
                for stk, h, s in u.backs:
                    if (stk[-1], h) != (bid, head): continue
                    ls = [y for y in s.events() if y[0] == 'loop' and y[1] == (bid, head)]
                    if not ls or ls[-1][2] != e[2]: continue
                    t = place(s)
                    if t[0] == 'cat' and len(t[1]) == 2 and t[1][0] == phi and t[1][1][0] == 'one': later.add(t[1][1][1]); mem = s.mem; evs = s.events(); made |= {y[2] for y in evs[max(n for n, y in enumerate(evs) if y[0] == 'loop' and y[1] == (bid, head)):] if y[0] == 'new'}
                    elif t != phi: later.add(None)
            return first, later, mem, made
        return None

    def settle(self, v, st):
        """what is spawned, where an element of a vector which a loop has filled
        is the value pushed by that loop: the one of its first turn for the
        first element, else the one of any later turn"""
        E = self.E
        els = set()
        mentions(v, lambda x: els.add(x) and False if x[0] == 'elem' and x[1][0] == 'phi' else False)
        if not els: return v
        m = {}
        for x in els:
            fl = self.filling(x[1], st)
            if fl is None: continue
            first, later, mem, _ = fl
            if len(later) != 1 or None in later: continue
            m[x] = first if x[2] == I(0) and first is not None else later.pop()
            for r, y in mem.items():
                if r not in st.mem: st.mem[r] = y
        def f(t):
            if t in m: return m[t]
            t = tuple(f(y) if isinstance(y, tuple) else y for y in t)
            return E.project(t[1], ('f', t[3], t[2])) if len(t) == 4 and t[0] == 'fld' and isinstance(t[1], tuple) and t[1][:1] == ('agg',) else t
        return f(v) if m else v

    def decoder_hook(self, E, ctx, st, bid, args):
        """the two functions which walk a message are analysed alone: here
        they are a result and a cursor which moved"""
        p = E.F.bodies[bid]['path']
        if p.endswith('Frame::check') or p.endswith('Frame::parse'):
            return E.recursion(ctx, st, bid, args)
        return None

    def shape(self, v):
        if v[0] == 'agg': return (v[1], v[2], v[3]) + tuple(self.shape(x) for x in v[4])
        return '.'

    def sig(self, v):
        return repr(v)

    def sym_arg(self, st, b, i, name):
        """an unknown argument; cursors are positioned somewhere within what
        they read"""
        base = ('sym', '%s.%d' % (name, i))
        t = self.F.tys[b['locals'][i + 1]['ty']]
        inner = t; nref = 0
        while inner['k'] == 'ref':
            inner = self.F.tys[inner['args'][0]]; nref += 1
        if inner['k'] == 'adt' and inner['def'].endswith('io::Cursor') or inner['k'] == 'adt' and inner['id'] == models.CURSOR:
            buf = ('sym', name + '.buf'); pos = ('sym', name + '.pos')
            ct = self.F.tys[inner['args'][0]]
            if ct['k'] == 'ref':
                h = ('H', 'arg', (name, i, 0)); st.mem[h] = buf; v = ('ref', h, ())
            else: v = buf
            st.lin = st.lin + (lin_of_items(sub(length(buf), pos)),)
            cur = ('agg', 'adt', models.CURSOR, 'Cursor', (v, pos))
            if not nref: return cur
            h = ('H', 'arg', (name, i, 1)); st.mem[h] = cur
            return ('ref', h, ())
        if nref == 1 and t.get('mut') or nref == 1:
            h = ('H', 'arg', (name, i, 1)); st.mem[h] = base
            return ('ref', h, ())
        return base

    def run_fn(self, suffix, args=None, name=None, st=None, bid=None):
        b = self.F.bodies[bid] if bid else self.find(suffix)
        if b is None: return None
        st = st or St()
        if args is None:
            args = []
            for i in range(b['argc']):
                args.append(self.sym_arg(st, b, i, suffix or b['path']))
        u = Unit(name or suffix, 'fn', b['id'])
        u.args = args
        E = self.E
        def runner():
            outs = E.run(b['id'], args, st, ())
            res = []
            for v, s in outs:
                if v[0] == 'agg' and v[1] == 'coroutine' and v[2] in self.F.bodies:
                    res += E.run(v[2], [v, ('sym', 'cx')], s, ())
                else: res.append((v, s))
            return res
        self.run_unit(u, runner)
        return u

if __name__ == '__main__':
    t = time.time()
    w = World(sys.argv[1]).run_main()
    for u in w.units:
        print(u.name, u.site, 'rets', len(u.rets), 'backs', len(u.backs))
    print('steps', w.E.steps, 'time', round(time.time() - t, 1), w.notes)
    print(len(w.E.visited_bodies), len(w.F.bodies))
