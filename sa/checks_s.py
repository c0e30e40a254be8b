"""The store: S01 to S07."""
from checks import *
from checks import Rep

def stores(M):
    """the maps SET writes to"""
    if not hasattr(M, '_sm'):
        rg = registry_maps(M)
        M._sm = {m for i in by_cmd(M).get(('set', None), []) for e in i.r.ev for m in [map_in(e)] if m is not None and m not in rg}
    return M._sm

def map_in(e):
    if e[0] in ('map.write', 'map.insert_new', 'map.remove', 'map.lock', 'map.read'): return e[1]
    if e[0] == 'map.bulk': return e[2]
    if e[0] == 'store' and slot_of(e): return slot_of(e)[1]
    return None

def lab_of(e):
    if e[0] == 'map.write': return e[4][1]
    if e[0] == 'map.insert_new': return e[4]
    if e[0] == 'map.remove': return e[3][-1]
    if e[0] == 'store': return slot_of(e)[3]
    return None

def ops(M, i):
    """what a path does to the store: [(event, key, value or None, label)]"""
    out = []
    for e in i.r.ev:
        m = map_in(e)
        if m is None or m in registry_maps(M): continue
        if e[0] == 'map.write': out.append((e, e[2], e[3], lab_of(e)))
        elif e[0] == 'map.insert_new':
            f = discr_fact(i.st, ('insres', e[1], e[2], e[3], e[4]), ('Ok', 'Err'))
            if f == 'Ok': out.append((e, e[2], e[3], e[4]))
            elif f is None: out.append((e, e[2], 'maybe', e[4]))
        elif e[0] == 'map.remove': out.append((e, e[2], 'removed', lab_of(e)))
        elif e[0] == 'map.bulk' and e[1] not in READBULK: out.append((e, None, 'bulk', e[4]))
        elif e[0] == 'store': out.append((e, slot_of(e)[2], ('part', e[2], e[3]), lab_of(e)))
    return out

def whole(M, os):
    """the value the key has after these operations, under one label"""
    val = None
    for e, k, v, lab in os:
        if isinstance(v, tuple) and v and v[0] == 'part':
            proj = [x for x in v[1] if x[0] in ('f', 'd')]
            if not v[1]: val = v[2]
            elif len(v[1]) == 1 and v[1][0][0] == 'f':
                if val is None or not (val[0] == 'agg'): val = ('parts', {}) if val is None else val
                if val[0] == 'parts': val[1][v[1][0][1]] = v[2]
                else:
                    fs = list(val[4]); fs[v[1][0][1]] = v[2]; val = val[:4] + (tuple(fs),)
            else: return None
        else: val = v
    return val

def fields_of(val):
    if val is None or isinstance(val, str): return None
    if val[0] == 'agg': return dict(enumerate(val[4]))
    if val[0] == 'parts': return val[1]
    return None

def layout(M):
    """(index of the bytes, index of the expiry) in a stored value"""
    if hasattr(M, '_lay'): return M._lay
    b = set(); x = set()
    for i in by_cmd(M).get(('set', None), []):
        os = ops(M, i)
        fs = fields_of(whole(M, os)) if os else None
        for j, f in (fs or {}).items():
            if f in i.bytes_of(2): b.add(j)
            elif f[0] == 'agg' and f[2] == OPTION: x.add(j)
    M._lay = (b.pop() if len(b) == 1 else None, x.pop() if len(x) == 1 else None)
    return M._lay

def nfields(M):
    for i in by_cmd(M).get(('set', None), []):
        for e, k, v, lab in ops(M, i):
            if isinstance(v, tuple) and v[0] == 'agg': return len(v[4])
    return None

def first_write(i):
    return next((n for n, e in enumerate(i.r.ev) if e[0] == 'io' and e[1].startswith('write')), len(i.r.ev))

def check_S01(M, R):
    """Every path which executes SET performs one operation on the store, whose key is the bytes of its second element and whose value holds those of the third, whole, before OK is written; the paths cover a key which exists and one which does not."""
    if not anchors(M, R): return
    ps = by_cmd(M).get(('set', None), [])
    if not ps: R.bad('missing', 'no path executes SET and goes on'); return
    modes = set(); clean = True
    for i in ps:
        s = site_of(i.r); t = i.tainted()
        os = [o for o in ops(M, i)]
        und = [o for o in os if o[2] == 'maybe']
        os = [o for o in os if o[2] != 'maybe']
        if und: R.unk('the outcome of an insertion is not looked at'); 
        if not os:
            clean = False
            if t or und: R.unk('SET is partly executed by code which is not understood'); continue
            occ = [n for e in i.r.ev if e[0] == 'map.insert_new' for n in [discr_fact(i.st, ('insres', e[1], e[2], e[3], e[4]), ('Ok', 'Err'))]]
            R.bad('no-write', 'a path which executes SET and goes on stores nothing%s' % (' when the key exists' if 'Err' in occ else ''), s); continue
        labs = {o[3] for o in os}
        if len(labs) > 1:
            R.bad('not-atomic:%s' % where(os[-1][0]), 'SET works on the store in %d separate operations (%s): others can see, or lose, what is between' % (len(labs), '; '.join(show_ev(o[0])[:60] for o in os)), where(os[-1][0])); clean = False; continue
        keys = {o[1] for o in os}
        badk = [k for k in keys if k is None or not same_text(k, i.bytes_of(1))]
        if badk:
            k = badk[0]; clean = False
            if k is None or same_text(k, i.bytes_of(1)) is None: R.unk('the key SET uses: %s' % (pt.pt(k, 5)[:100] if k else k))
            else: R.bad('key', 'SET stores under the key %s, not under the bytes of its key' % pt.pt(k, 5)[:160], where(os[0][0]))
            continue
        R.hold('the key is the bytes of the key')
        val = whole(M, os)
        if val is not None and not isinstance(val, str): val = M.resolve(val, i.r.st)
        fs = fields_of(val)
        if val == 'removed' or val == 'bulk': R.bad('removed', 'SET leaves the key removed', where(os[-1][0])); clean = False; continue
        if fs is None:
            R.unk('the value stored: %s' % (pt.pt(val, 4)[:100] if val else val)); clean = False; continue
        if not any(same_text(f, i.bytes_of(2)) for f in fs.values()):
            clean = False
            if any(same_text(f, i.bytes_of(2)) is None for f in fs.values() if not (f[0] == 'agg' and f[2] == OPTION)): R.unk('the value SET stores: %s' % [pt.pt(f, 4)[:80] for f in fs.values()])
            else: R.bad('value', 'SET stores %s, not the bytes of its value' % [pt.pt(f, 5)[:120] for f in fs.values()], where(os[-1][0]))
            continue
        R.hold('the value holds exactly the bytes of the value', pt.pt(val, 4) if val[0] == 'agg' else val)
        n = nfields(M)
        if val[0] == 'parts' and (n is None or set(fs) != set(range(n))) :
            if n is not None: R.bad('partial:%s' % where(os[-1][0]), 'SET changes only a part of the value of an existing key (fields %s of %d)' % (sorted(fs), n), where(os[-1][0]))
            else: R.unk('SET changes parts of the value')
            clean = False; continue
        for o in os:
            e = o[0]
            if e[0] == 'map.write': modes.add(e[4][0])
            elif e[0] == 'map.insert_new': modes.add('vac')
            else: modes.add('occ')
        last = max(n for n, e in enumerate(i.r.ev) if any(e is o[0] for o in os))
        R.ob(last < first_write(i), 'OK is written after the value is stored', 'late:%s' % where(os[-1][0]), 'OK is answered before the value is stored', where(os[-1][0]))
        rep = i.reply()
        if rep[0] == 'ok': R.ob(True if rep[1][0] == 'simple' and unmap(rep[1][1]) == list(b'OK') else None if rep[1][0] == 'simple' and any(unclear(x) for x in rep[1][1]) else False, 'answers OK', 'answer', 'SET answers %s' % str(rep[1])[:80], s)
        else: R.unk('reply of SET')
    if clean and modes:
        both = {'occ', 'vac'} <= modes or modes & {'upsert', 'entry'}
        R.ob(bool(both), 'an existing key and a new one are both written', 'half:%s' % sorted(modes), 'SET stores only when the key %s' % ('exists' if 'occ' in modes else 'does not exist'))

def reads(M, i):
    """(map, key, label, event) of the lookups of the path in a store"""
    return [(e[1], e[2], e[3], e) for e in i.r.ev if e[0] in ('map.lock', 'map.read') and e[1] not in registry_maps(M)]

def absent(st, m, k, lab):
    for v in (('entry', m, k, lab),):
        if discr_fact(st, v, ('Occupied', 'Vacant')) == 'Vacant': return True
    if discr_fact(st, ('getentry', m, k, lab), ('None', 'Some')) == 'None': return True
    if ('absent', m, k, lab) in st.facts: return True
    if st.facts.get(('pred', 'contains', m, k, lab)) == 0: return True
    return False

def stored_terms(t):
    out = set()
    def f(x):
        if x[0] == 'stored': out.add(x)
        return False
    mentions(t, f)
    return out

# distances, in nanoseconds, between the present time and an expiry
SAMPLES = sorted({g * (n + x) for n in (0, 1, 10**3, 10**6, 5 * 10**8, 10**9, 2 * 10**9, 10**10, 60 * 10**9, 3600 * 10**9, 10**15) for x in (-1, 0, 1) for g in (1, -1)} | {0})
BASE = 10**18

def timeval(t, e, d):
    """the value of a term made of the expiry e, a present time d nanoseconds
    after it and constants: (kind, nanoseconds); None when it is made of
    anything else"""
    if t == e: return ('I', BASE)
    if t[0] == 'now': return ('I', BASE + d)
    if t[0] == 'int': return ('N', t[1])
    if t[0] in ('conv', 'ranged', 'cast') and isinstance(t[1], tuple): return timeval(t[1], e, d)
    if t[0] == 'dur':
        n = timeval(t[2], e, d)
        return ('D', n[1] * NANO[t[1]]) if n and n[0] == 'N' else None
    if t[0] == 'agg' and len(t[4]) == 1 and t[2].endswith(('Instant', 'Duration')):
        n = timeval(t[4][0], e, d)
        return ('I' if t[2].endswith('Instant') else 'D', n[1]) if n else None
    if t[0] == 'lin':
        vs = [(timeval(x, e, d), k) for x, k in t[2]]
        if any(v is None for v, k in vs): return None
        # ticks: parts of a second, 2^32 of them
        ts = [k for v, k in vs if v[0] == 'T']
        if ts and (sum(ts) not in (0, 1) or len(ts) != len(vs)): return None
        r = t[1] if not ts else t[1] * NANO['secs'] / 2**32
        for v, k in vs: r += k * v[1]
        return ('T' if sum(ts) == 1 else 'Q' if ts else 'N', r)
    if t[0] == 'plus' or t[0] == 'bin' and t[1] == 'Add':
        a, b = (timeval(x, e, d) for x in t[-2:])
        if a is None or b is None: return None
        return ('I' if 'I' in (a[0], b[0]) else a[0], a[1] + b[1])
    if t[0] == 'bin' and t[1] == 'Shr':
        a, b = timeval(t[2], e, d), timeval(t[3], e, d)
        return ('N', a[1] // NANO['secs']) if a and a[0] == 'T' and b == ('N', 32) else None
    if t[0] == 'call':
        vs = [timeval(x, e, d) for x in t[2]]
        if any(v is None for v in vs): return None
        f = t[1].split('::')[-1]
        if f in ('duration_since', 'saturating_duration_since', 'sub', 'saturating_sub') and len(vs) == 2:
            if vs[0][0] == 'I' and vs[1][0] == 'I': return ('D', max(0, vs[0][1] - vs[1][1]))
            return (vs[0][0], max(0, vs[0][1] - vs[1][1]))
        if f == 'add' and len(vs) == 2: return ('I' if 'I' in (vs[0][0], vs[1][0]) else vs[0][0], vs[0][1] + vs[1][1])
        if len(vs) == 1 and vs[0][0] == 'D':
            if f.startswith('as_') and f[3:] in NANO: return ('N', vs[0][1] // NANO[f[3:]])
            if f == 'is_zero': return ('N', int(vs[0][1] == 0))
        if len(vs) == 1 and f in ('as_ticks', 'as_u64'): return ('T', vs[0][1])
        if f in ('from_ticks', 'from_u64') and vs[0] == ('N', 0): return ('D', 0)
        if f in ('cmp', 'partial_cmp') and len(vs) == 2 and same_kind(*vs): return ('O', (vs[0][1] > vs[1][1]) - (vs[0][1] < vs[1][1]))
    return None

def same_kind(a, b):
    return a[0] == b[0] or 'T' in (a[0], b[0]) and ('N', 0) in (a, b)

def by_samples(M, st, cands):
    """what the comparisons of a path leave possible between the expiry and
    the present time: ('expired' | 'live' | 'either', the time, an example)"""
    for o in cands:
        e = ('fld', o, 'Some', 0)
        ks = [(k, f) for k, f in st.facts.items() if mentions(k, lambda t: t == e) and not (k[0] == 'ovf' and f == 0)]
        if not ks: continue
        left = []
        for d in SAMPLES:
            good = True
            for k, f in ks:
                if k[0] == 'cmp' and k[1] in ('lt', 'le', 'eq') and isinstance(f, int):
                    a, b = timeval(k[2], e, d), timeval(k[3], e, d)
                    if a is None or b is None or not same_kind(a, b): return None
                    v = a[1] < b[1] if k[1] == 'lt' else a[1] <= b[1] if k[1] == 'le' else a[1] == b[1]
                    good &= int(v) == f
                else:
                    a = timeval(k[1] if k[0] == 'discr' else k, e, d)
                    if a is None or k[0] == 'discr' and a[0] != 'O': return None
                    if a[0] == 'O': a = ('O', a[1] % 256)
                    good &= (a[1] == f) if isinstance(f, int) else (f[0] != 'ne' or a[1] not in f[1])
            if good: left.append(d)
        now = [x for k, f in ks for x in subterms(k) if x[0] == 'now']
        if not left or not now: return None
        if left[0] >= 0: return ('expired', now[0])
        if left[-1] <= 0: return ('live', now[0])
        return ('either', now[0], left[0], min(x for x in left if x > 0))
    return None

def expiry(M, st, S):
    """what the path knows of the stored value S: 'live' / 'expired' / 'never'
    (no expiry), with the time it was compared to; 'either' when what it knows
    can hold before the expiry and after; 'other' when it is compared in a way
    which is not understood; None"""
    li = layout(M)[1]
    if li is None: return ('other', None)
    cands = [t for t in field_terms(st, S, li)]
    x = expiry1(M, st, S)
    if x is not None and x[0] not in ('live', 'expired', 'never'): return by_samples(M, st, cands) or x
    return x

def expiry1(M, st, S):
    """what the path knows of the stored value S: 'live' / 'expired' / 'never'
    (no expiry), with the time it was compared to; 'other' when it is compared
    in another way; None"""
    li = layout(M)[1]
    if li is None: return ('other', None)
    x = ('fld', S, stored_variant(M), li)
    cands = [t for t in field_terms(st, S, li)]
    for o in cands:
        f = discr_fact(st, o, ('None', 'Some'))
        if f == 'None': return ('never', None)
    other = None
    for k, f in st.facts.items():
        if k[0] == 'cmp' and k[1] == 'lt' and isinstance(f, int):
            for o in cands:
                e = ('fld', o, 'Some', 0)
                if k[2] == e and not mentions(k[3], lambda t: t == e):
                    if f == 1: other = cl(M, 'expired', k[3], other)
                    else: other = cl(M, 'live', k[3], other)
                elif k[3] == e and not mentions(k[2], lambda t: t == e):
                    if f == 1: other = cl(M, 'live', k[2], other)
                    else: other = cl(M, 'expired', k[2], other)
                elif mentions(k, lambda t: t == e): other = other or ('other', None)
        elif any(mentions(k, lambda t: t == ('fld', o, 'Some', 0)) for o in cands): other = other or ('other', None)
    return other

def ns(d):
    for u, n in (('s', 10**9), ('ms', 10**6), ('us', 10**3)):
        if d >= n: return '%g %s' % (d / n, u)
    return '%d ns' % d

def cl(M, what, t, prev):
    if t[0] == 'now': return (what, t)
    return prev if prev and prev[0] in ('live', 'expired') else ('odd:' + what, t)

def stored_variant(M): return None

def field_terms(st, S, idx):
    """the terms which denote field idx of S, as the engine writes them"""
    out = set()
    def f(x):
        if x[0] == 'fld' and x[1] == S and x[3] == idx: out.add(x)
        return False
    for k in st.facts: mentions(k, f)
    return out

def fresh_clock(i, now):
    """the time was read while the request is executed"""
    real = False
    for e in i.r.ev:
        if e[0] == 'clock':
            if 'recent' not in e[1]: real = True
            if e[2] == now: return real
    return False

def kept_aside(i, ts, sm):
    """does an answer come from something which outlives the request, other than
    the store, on a path which does not use the store?"""
    old = lambda x: x[0] == 'shared' or x[0] == 'call' and isinstance(x[1], str) and x[1].split('::')[0] == 'LocalKey'
    if not any(not isinstance(x, int) and mentions(x, old) for x in ts): return False
    return not any(mentions(e, lambda x: x in sm) for e in i.r.ev if e[0] not in ('rec', 'enter', 'loop', 'recv'))

def check_S02(M, R):
    """On every path which executes GET, a bulk reply is the bytes field of the value found, in the store SET writes to, under exactly the bytes of the argument; null is answered only where no entry was found or the one found had expired."""
    if not anchors(M, R): return
    ps = by_cmd(M).get(('get', None), [])
    if not ps: R.bad('missing', 'no path executes GET and goes on'); return
    sm = stores(M); li = layout(M)[0]
    got = set()
    for i in ps:
        s = site_of(i.r); rep = i.reply(); t = i.tainted()
        ls = reads(M, i)
        for m, k, lab, e in ls:
            if m not in sm:
                if sm and not unknown_in(m): R.bad('map:%s' % where(e), 'GET looks into %s, SET stores into %s' % (pt.pt(m, 4), [pt.pt(x, 4) for x in sm]), where(e))
                else: R.unk('the map GET looks into')
            else: R.hold('GET looks into the store of SET', pt.pt(m, 4))
            same = same_text(k, i.bytes_of(1))
            if same: R.hold('the key looked up is the bytes of the argument')
            elif same is None: R.unk('the key GET looks up: %s' % pt.pt(k, 4)[:100])
            else: R.bad('key:%s' % where(e), 'GET looks up %s, not the bytes of its argument' % pt.pt(k, 5)[:160], where(e))
        if rep[0] != 'ok':
            if rep[0] in ('bad', 'none'): R.bad('reply', 'GET: %s' % (rep[1] if len(rep) > 1 else 'no reply'), s)
            else: R.unk('reply of GET: %s' % rep[1])
            continue
        v = rep[1]
        if v[0] == 'bulk':
            got.add('bulk')
            ts = v[1]
            same = copy_of(ts, lambda x: x[0] == 'fld' and x[1][0] == 'stored' and (li is None or x[3] == li) and any(x[1][1:4] == y[:3] for y in ls))
            if same: R.hold('a bulk reply is the bytes of the value found', pt.pt(ts[0], 4))
            elif not ls and kept_aside(i, ts, sm): R.bad('cache', 'GET answers a value which was kept aside, without looking into the store: %s' % untok(list(ts))[:160], s)
            elif t or same is None: R.unk('what GET answers: %s' % untok(list(ts))[:120])
            else: R.bad('bytes', 'GET answers %s, which is not exactly the bytes stored under its key' % untok(list(ts))[:200], s)
        elif v[0] == 'null':
            got.add('null')
            if any(absent(i.st, m, k, lab) for m, k, lab, e in ls): R.hold('null when there is no entry'); continue
            exps = [expiry(M, i.st, ('stored', m, k, lab)) for m, k, lab, e in ls]
            if any(x and x[0] == 'expired' for x in exps): R.hold('null when the entry has expired'); continue
            ei = [x for x in exps if x and x[0] == 'either']
            if ei: R.bad('null', 'GET answers null for a value which expires in %s' % ns(-ei[0][2]), s); continue
            if t or any(x and x[0] == 'other' for x in exps): R.unk('null is answered for a reason which is not understood')
            else: R.bad('null', 'GET answers null although %s' % ('an entry which has not expired was found' if ls else 'nothing was looked up'), s)
        else: R.bad('kind:%s' % v[0], 'GET answers a value of kind %s' % v[0], s)
    for k in ('bulk', 'null'):
        if k not in got and not R.und: R.bad('never:%s' % k, 'no path of GET answers %s' % k)

def check_S03(M, R):
    """Every bulk reply of GET is guarded by the entry having no expiry or not being expired at a time read while the request is executed; every removal of a key of the store, in any task, is that of the entry seen expired under the same lock; nothing but SET writes to the store."""
    if not anchors(M, R): return
    sm = stores(M)
    for i in by_cmd(M).get(('get', None), []):
        s = site_of(i.r); rep = i.reply()
        if rep[0] != 'ok' or rep[1][0] != 'bulk': continue
        for S in set().union(*[stored_terms(x) for x in rep[1][1] if not isinstance(x, int)] or [set()]):
            x = expiry(M, i.st, S)
            if x and x[0] == 'never': R.hold('served: the value has no expiry')
            elif x and x[0] == 'live':
                R.ob(fresh_clock(i, x[1]), 'served: not expired at a time read while GET is executed', 'stale:%s' % pt.pt(x[1], 3)[:60], 'the expiry is compared with a time which was not read while GET is executed (%s)' % pt.pt(x[1], 4), s, pt.pt(x[1], 3))
            elif x and x[0] == 'either': R.bad('served', 'a value is answered when it has expired %s ago' % ns(x[3]), s)
            elif (x and x[0] in ('other',)) or i.tainted(): R.unk('the expiry of a value served is checked in a way which is not understood')
            elif x and unknown_in(('x', x[1] or ()), ()) and not mentions(x[1], lambda t: t[0] == 'now'): R.unk('the expiry is compared with %s' % pt.pt(x[1], 4)[:80])
            else: R.bad('served', 'a value is answered %s' % ('without looking at its expiry' if x is None else 'although it is known to have expired' if x[0] == 'expired' else 'when its expiry compares with %s, which is not the present time' % pt.pt(x[1], 4)[:100]), s)
    setst = {id(i.st) for i in infos(M) if i.name == 'set'}
    iby = {id(i.st): i for i in infos(M)}
    for u in M.W.units:
        for kind, v, st in u.paths():
            ev = own_events(u, st); i = iby.get(id(st))
            # what a path which ends did, the paths which go on did too
            if i is not None and kind == 'ret' and i.name is None: continue
            start = i.r.start if i else 0
            for n, e in enumerate(ev):
                m = map_in(e)
                if m is None or m not in sm: continue
                isset = id(st) in setst and n > start
                if e[0] in ('map.write', 'map.insert_new', 'store'):
                    if not isset and not (i and n <= start): R.bad('write:%s' % where(e), 'the store is written to by something else than SET: %s' % show_ev(e), where(e))
                    elif isset: R.hold('only SET writes to the store')
                elif e[0] == 'map.remove':
                    mode = e[3]
                    S = ('stored', m, e[2], mode[-1])
                    x = expiry(M, st, S)
                    if isset and i and any(o[2] not in ('removed', 'bulk', 'maybe') and o[3] == mode[-1] for o in ops(M, i)): R.hold('SET replaces the value under one lock'); continue
                    if mode[0] == 'key': 
                        R.bad('remove:%s' % where(e), 'a key is removed from the store by its name: a value set meanwhile, or a live one, can be lost', where(e)); continue
                    if x and x[0] == 'expired':
                        R.ob(True if i is None else fresh_clock(i, x[1]), 'the entry removed was seen expired under the same lock', 'stale-remove', 'an entry is removed because of a time not read while the request is executed', where(e), show_ev(e))
                    elif x and x[0] == 'other': R.unk('a removal guarded in a way which is not understood')
                    elif x and x[0] == 'either': R.bad('remove:%s' % where(e), 'an entry is removed from the store although it expires in %s' % ns(-x[2]), where(e))
                    else: R.bad('remove:%s' % where(e), 'an entry is removed from the store although it was not seen expired (%s)' % ('no look at its expiry' if x is None else x[0]), where(e))
                elif e[0] == 'map.bulk' and e[1] not in READBULK:
                    if e[1] == 'retain': 
                        if i and n <= start: continue
                        rets = [x for x in ev[n:] if x[0] == 'bulkret' and x[4] == e[4]]
                        for b in rets:
                            s1 = st
                            if b[3] not in (I(0), I(1)):       # removed when the condition does not hold
                                s1 = st.copy()
                                if not M.E.assume(s1, b[3], False): R.hold('kept'); continue
                            x = expiry(M, s1, ('stored', m, ('anykey', m, e[4]), e[4]))
                            if b[3] == I(1): R.hold('kept')
                            elif x and x[0] == 'expired' : R.hold('removed by retain once expired')
                            elif not (x and x[0] == 'other') and (b[3] == I(0) or x): R.bad('retain:%s' % where(e), 'entries which were not seen expired are removed', where(e))
                            else: R.unk('the condition of retain: %s' % pt.pt(b[3], 4)[:80])
                    else: R.bad('bulk:%s' % where(e), 'the whole store is changed at once: %s' % e[1], where(e))

NANO = {'secs': 10**9, 'millis': 10**6, 'micros': 10**3, 'nanos': 1}

def in_nanos(d):
    """(factor, term) of a duration"""
    if d[0] in ('conv', 'ranged'): return in_nanos(d[1])
    if d[0] == 'agg' and len(d[4]) == 1: return in_nanos(d[4][0])
    if d[0] == 'dur': return (NANO[d[1]],) + scaled(d[2])
    return None

def scaled(t):
    """(factor, term): t = factor * term"""
    while t[0] in ('conv', 'ranged'): t = t[1]
    if t[0] == 'lin' or t[0] == 'sum':
        c, m = lin_of(t)
        if c == 0 and len(m) == 1:
            (x, k), = m.items()
            return (k, x)
    c, m = lin_of(t)
    if c == 0 and len(m) == 1:
        (x, k), = m.items()
        while x[0] in ('conv', 'ranged'): x = x[1]
        return (k, x)
    if c and not m: return (1, I(c))
    return (1, t)

def check_S04(M, R):
    """The expiry field SET stores is, term by term: nothing without option; with EX (PX) a time read while this SET is executed plus as many seconds (milliseconds) as the number in the last element."""
    if not anchors(M, R): return
    ps = by_cmd(M).get(('set', None), [])
    if not ps: R.bad('missing', 'no path executes SET and goes on'); return
    li = layout(M)[1]; got = set()
    for i in ps:
        os = [o for o in ops(M, i) if o[2] not in ('maybe', 'removed', 'bulk')]
        fs = fields_of(whole(M, os)) if os else None
        s = where(os[-1][0]) if os else site_of(i.r)
        if not os and not ops(M, i) and not i.tainted():
            R.bad('kept:%s' % s, 'a path which executes SET and goes on stores nothing: the key keeps the expiry it had', s); continue
        if not fs or li is None: R.unk('the expiry stored'); continue
        if li not in fs:
            R.bad('kept:%s' % s, 'SET on an existing key leaves the expiry it had', s); continue
        x = fs[li]; opt = i.text(3)
        if i.len_le(3) and i.len_ge(3):
            got.add('none')
            if x == NONE: R.hold('SET without option stores no expiry')
            elif unknown_in(x) or i.tainted(): R.unk('expiry of SET without option: %s' % pt.pt(x, 4)[:80])
            else: R.bad('none', 'SET without option stores the expiry %s' % pt.pt(x, 5)[:120], s)
            continue
        if opt not in ('ex', 'px'):
            if opt is None and i.tainted(): R.unk('the option of SET')
            else: R.bad('option:%s' % opt, 'SET is executed with an option which is %s' % (opt or 'neither EX nor PX'), s)
            continue
        got.add(opt)
        if x == NONE: R.bad('ignored:%s' % opt, 'SET with %s stores no expiry' % opt.upper(), s); continue
        if not (x[0] == 'agg' and x[3] == 'Some'):
            R.unk('expiry of SET with %s: %s' % (opt.upper(), pt.pt(x, 4)[:80])); continue
        p = x[4][0]
        now = dur = None
        if p[0] == 'plus':
            for a, b in ((p[1], p[2]), (p[2], p[1])):
                if a[0] == 'now' and in_nanos(b): now, dur = a, in_nanos(b)
        if now is None and p[0] == 'plus':
            # the shorter of what was asked and of a constant
            for a, b in ((p[1], p[2]), (p[2], p[1])):
                if a[0] == 'now' and b[0] == 'call' and b[1].split('::')[-1] == 'min' and len(b[2]) == 2:
                    ds = [in_nanos(x) for x in b[2]]
                    cs = [d for d in ds if d and d[2][0] == 'int']; ns = [d for d in ds if d and d[2][0] != 'int']
                    if cs and ns and ns[0][2][0] in ('num', 'fld') and not any(k[0] == 'cmp' and k[1] in ('lt', 'le') and mentions(k, lambda t: t == ns[0][2]) for k in i.st.facts):
                        R.bad('cut:%s' % opt, 'with %s the time to live stored is at most %s, whatever is asked' % (opt.upper(), pt.pt(b, 5)[:120]), s); now = False
            if now is False: continue
        if now is None and mentions(p, lambda t: t[0] == 'call' and t[1].split('::')[-1] == 'as_secs_f32' and mentions(t[2], lambda y: y[0] == 'num')):
            R.bad('float:%s' % opt, 'with %s the time to live is rounded to 24 bits: %s' % (opt.upper(), pt.pt(p, 6)[:160]), s); continue
        if now is None:
            if unknown_in(p): R.unk('expiry of SET with %s: %s' % (opt.upper(), pt.pt(p, 5)[:100]))
            elif mentions(p, lambda t: t[0] == 'bin' and t[1] == 'Rem') and mentions(p, lambda t: t[0] == 'bin' and t[1] == 'Div'): R.unk('expiry of SET with %s, in parts: %s' % (opt.upper(), pt.pt(p, 5)[:100]))
            else: R.bad('shape:%s' % opt, 'with %s the expiry stored is %s' % (opt.upper(), pt.pt(p, 6)[:160]), s)
            continue
        R.ob(fresh_clock(i, now), 'from a time read while SET is executed', 'stale:%s' % opt, 'the expiry of SET with %s starts from a time which was not read while it is executed (%s)' % (opt.upper(), now[1]), s, pt.pt(now, 3))
        k = dur[0] * dur[1]; n = dur[2]
        el = ('elem', i.F, I(4))
        isnum = (n[0] == 'num' and n[1] in i.bytes_of(4)) or n == ('fld', el, 'Integer', 0)
        want = NANO['secs' if opt == 'ex' else 'millis']
        if not isnum:
            if unknown_in(n): R.unk('the number of SET with %s: %s' % (opt.upper(), pt.pt(n, 4)[:80]))
            else: R.bad('number:%s' % opt, 'the time to live of SET with %s is %s, not its argument' % (opt.upper(), pt.pt(n, 5)[:120]), s)
        else: R.ob(k == want, 'as many seconds or milliseconds as asked', 'unit:%s' % opt, 'SET with %s n expires the key n times %d nanoseconds later, not %d' % (opt.upper(), k, want), s, pt.pt(p, 5))
    for o in ('none', 'ex', 'px'):
        if o not in got and not R.und: R.bad('never:%s' % o, 'no path executes SET %s' % ('without option' if o == 'none' else 'with ' + o.upper()))

def base_events(u):
    ev = []; t = u.base
    while t is not None: ev.append(t[1]); t = t[0]
    ev.reverse()
    return ev

def filled_maps(M, m, st):
    """the maps a map can be which is taken from a vector filled by a loop, at a
    place which varies: None when they are not all known"""
    xs = set()
    mentions(m, lambda x: xs.add(x) and False if x[0] in ('elem', 'idx') and isinstance(x[1], tuple) and x[1] and x[1][0] == 'phi' else False)
    if len(xs) != 1: return None
    (x,) = xs
    if x[2][0] == 'int': return None
    fl = M.W.filling(x[1], st)
    if fl is None: return None
    first, later, mem, made = fl
    if None in later or not later: return None
    def put(t, v):
        if t == x: return v
        t = tuple(put(y, v) if isinstance(y, tuple) else y for y in t)
        return M.E.project(t[1], ('f', t[3], t[2])) if len(t) == 4 and t[0] == 'fld' and isinstance(t[1], tuple) and t[1][:1] == ('agg',) else t
    out = {put(m, v) for v in later | ({first} if first is not None else set())}
    # one more for each turn
    return out | {('again', t) for t in out if mentions(t, lambda y: y in made)}

def check_S05(M, R):
    """The map of every operation of SET and GET is one allocation, made on the main thread before the loop which starts the worker threads."""
    if not anchors(M, R): return
    seen = {}; sts = {}
    for c in (('get', None), ('set', None)):
        for i in by_cmd(M).get(c, []):
            for e in i.r.ev:
                m = map_in(e)
                if m is not None and m not in registry_maps(M): seen.setdefault(m, (c, e)); sts.setdefault(m, i.st)
    if not seen: R.bad('none', 'neither SET nor GET works on a shared map') if not any(i.tainted() for i in done(M)) else R.unk('no map'); return
    if len(seen) > 1:
        ms = list(seen)
        if any(unknown_in(m) for m in ms): R.unk('the map SET and GET work on: %s' % [pt.pt(m, 4)[:80] for m in ms])
        else: R.bad('several', 'SET and GET work on different maps: %s' % [pt.pt(m, 5)[:80] for m in ms], where(seen[ms[-1]][1]))
    ths = [u for u in M.W.units if u.kind == 'thread']
    for m, (c, e) in seen.items():
        root = m[1] if m[0] == 'map' else m
        while root[0] in ('ref', 'fld', 'addr'): root = root[1]
        if root[0] != 'H':
            several = filled_maps(M, m, sts[m])
            if several is not None:
                if len(several) > 1: R.bad('varies', 'the map used by %s is one of several, depending on the thread: %s' % (cmdname(c), pt.pt(m, 6)[:160]), where(e)); continue
                m = several.pop(); root = m[1] if m[0] == 'map' else m
                while root[0] in ('ref', 'fld', 'addr'): root = root[1]
        if root[0] != 'H':
            var = mentions(m, lambda x: x[0] in ('phi',))
            if var or mentions(m, lambda x: x[0] in ('elem', 'idx', 'anyelem')): 
                # chosen among several
                R.unk('which map is used depends on %s' % pt.pt(m, 5)[:120]) if not var or of_filled(m) else R.bad('varies', 'the map used by %s depends on the thread: %s' % (cmdname(c), pt.pt(m, 6)[:160]), where(e))
            else: R.unk('the allocation of the map is not seen: %s' % pt.pt(m, 5)[:100])
            continue
        ok_ = False
        for u in ths:
            ev = base_events(u)
            pos = [n for n, x in enumerate(ev) if x[0] == 'new' and x[2] == root]
            if not pos:
                R.bad('thread:%s' % pt.pt(root, 3), 'the store %s uses is created by the worker thread or for a connection, not once before the threads: %s' % (cmdname(c), pt.pt(root, 4)), where(e)); continue
            stk = set(u.stack)
            ent = [n for n, x in enumerate(ev) if x[0] in ('enter', 'loop') and x[1][0] in stk]
            clo = open_closures(ev)
            lim = min([n for n in ent[-1:]] + clo[:1] or [len(ev)])
            R.ob(pos[-1] < lim, 'the store is created once, before the worker threads', 'per-thread:%s' % pt.pt(root, 3), 'a store is created for each worker thread (%s)' % pt.pt(root, 4), where(ev[pos[-1]]), pt.pt(root, 4))
            ok_ = True
        if not ths: R.unk('no worker thread')
    # never replaced: nothing stores over the pointer to the map
    for u in M.W.units:
        for k, v, st in u.paths():
            for e in own_events(u, st):
                if e[0] == 'store' and isinstance(e[3], tuple) and any(e[3] == ('ref', m[1], ()) for m in seen if m[0] == 'map'): pass
                if e[0] == 'map.bulk' and e[2] in seen and e[1] == 'clear': R.bad('clear:%s' % where(e), 'the store is cleared', where(e))

def open_closures(ev):
    stack = []
    for n, x in enumerate(ev):
        if x[0] == 'closure': stack.append((n, x[1:3]))
        elif x[0] == 'endclosure':
            for j in range(len(stack) - 1, -1, -1):
                if stack[j][1] == x[1:3]: del stack[j]; break
    return [n for n, _ in stack]

def check_S06(M, R):
    """On every path of every task, the guards taken (entry of a concurrent map, lock of a name, mutex) are released before the next point where the task can be suspended."""
    if not anchors(M, R): return
    n = 0
    for u in M.W.units:
        for k, v, st in u.paths():
            held = {}
            for e in own_events(u, st):
                if e[0] == 'map.lock': held[e[3]] = e
                elif e[0] == 'lock': held[e[3]] = e
                elif e[0] == 'unlock':
                    for l in list(held):
                        if mentions(('x', e[1]), lambda x: x == l): del held[l]
                elif e[0] == 'map.remove' and e[3][0] == 'occ': held.pop(e[3][1], None)
                elif e[0] == 'map.write' and e[4][0] in ('vac',): pass
                elif e[0] in ('await', 'yield', 'select'):
                    n += 1
                    if held:
                        h = list(held.values())[0]
                        R.bad('held:%s:%s' % (where(h), where(e)), 'the guard taken by %s is still held where the task waits (%s)' % (show_ev(h)[:80], where(e)), where(h))
                    else: R.hold('no guard is held at a point of suspension', '%s' % where(e))
    if not n: R.unk('no point of suspension was seen')

XMODEM = 'CRC_16_XMODEM'
def part_of(M, st, t, wholes):
    """is a text, for some key, only a part of the key?"""
    if t[0] != 'sl' or len(t) != 4: return False
    w = t[1]
    while w[0] in ('deref', '*'): w = w[1]
    if w not in wholes: return False
    n = length(t[1])
    def free(x):
        """nothing keeps a position a search ended at from being after the first byte"""
        c, m = lin_of(x)
        if c < 0 or list(m.values()) != [1]: return False
        (y, _), = m.items()
        if y[0] not in ('phi', 'K', 'posafter', 'posres'): return False
        for k, f in st.facts.items():
            if not mentions(k, lambda z: z == y) or k[0] == 'idx' or k[0] == 'discr': continue
            if k[0] == 'cmp' and k[1] == 'eq' and (f == 0 or k[2][0] == 'idx' and k[3][0] == 'int'): continue
            if k[0] == 'cmp' and k[1] == 'lt' and (k[2] == y and k[3] == n and f == 1 or k[3] == y and f == 1): continue
            return False
        return True
    lo, hi = t[2], t[3]
    if lo[0] == 'int' and lo[1] > 0: return True
    if lo[0] != 'int' and free(lo): return True
    if hi != n:
        if st.facts.get(('cmp', 'lt', hi, n)) == 1: return True
        if hi[0] == 'int' and not any(mentions(k, lambda z: z == n) for k in st.facts): return True
    return False

def check_S07(M, R):
    """The slot computed for a request by GET and by SET is the remainder by 16384 of the CRC16/XMODEM of exactly the bytes of its key, and 0..16384 is the whole range."""
    if not anchors(M, R): return
    for c in (('get', None), ('set', None)):
        ps = by_cmd(M).get(c, [])
        found = False
        for i in ps:
            for e in i.r.ev:
                if e[0] != 'u16': continue
                v = e[1]
                if v == NONE:
                    if not found and mentions(('x',) , lambda x: False): pass
                    continue
                if v[0] == 'agg' and v[3] == 'Some': v = v[4][0]
                elif v[0] == 'agg': continue
                raw = v
                while v[0] in ('ranged', 'conv'): v = v[1]
                if not mentions(v, lambda x: x[0] == 'crc'):
                    if mentions(v, lambda x: x in i.bytes_of(1)) and not unknown_in(v, ()): R.bad('other:%s' % where(e), 'the slot of the key of %s is %s' % (cmdname(c), pt.pt(v, 6)[:140]), where(e))
                    elif mentions(v, lambda x: x in i.bytes_of(1)) or unknown_in(v, ()): R.unk('the slot of %s: %s' % (cmdname(c), pt.pt(v, 5)[:100]))
                    elif v == I(0) and any(M.E.prove_ge0(i.r.st, sub(I(0), length(w))) for w in i.bytes_of(1)): R.hold('the slot of the empty key is 0')
                    elif v[0] == 'int' and not any(mentions(k, lambda x: x in i.bytes_of(1)) for k in i.r.st.facts): R.bad('fixed:%s' % cmdname(c), 'the slot of %s is %d for some keys, not computed from them' % (cmdname(c), v[1]), where(e))
                    else: R.unk('the slot of %s: %s' % (cmdname(c), pt.pt(v, 5)[:100]))
                    continue
                found = True
                crc = []
                mentions(v, lambda x: crc.append(x) if x[0] == 'crc' else False)
                crc = crc[0]
                alg = []
                mentions(crc[1], lambda x: alg.append(x[1].split('::')[-1]) if x[0] == 'constdef' else False)
                if alg: R.ob(XMODEM in alg, 'XMODEM', 'alg:%s' % alg[0], 'the slot of %s is computed with %s' % (cmdname(c), alg[0]), where(e), alg[0])
                else: R.unk('the CRC used: %s' % pt.pt(crc[1], 4)[:80])
                same = same_text(crc[2], i.bytes_of(1))
                if same is False and crc[2] == EMPTY: same = any(M.E.prove_ge0(i.r.st, sub(I(0), length(w))) for w in i.bytes_of(1)) or (None if any(mentions(k, lambda x: x in i.bytes_of(1)) and k[0] in ('discr', 'pred', 'call') for k in i.r.st.facts) else False)
                if same: R.hold('of exactly the bytes of the key')
                elif part_of(M, i.r.st, crc[2], i.bytes_of(1)): R.bad('bytes:%s' % cmdname(c), 'the slot of %s is computed from a part of its key: %s' % (cmdname(c), pt.pt(crc[2], 5)[:120]), where(e))
                elif same is None: R.unk('the bytes hashed by %s: %s' % (cmdname(c), pt.pt(crc[2], 4)[:80]))
                else: R.bad('bytes:%s' % cmdname(c), 'the slot of %s is computed from %s, not from its key' % (cmdname(c), pt.pt(crc[2], 5)[:120]), where(e))
                if v[0] == 'bin' and v[1] == 'Rem' and v[2] == crc:
                    n = v[3]
                    if n[0] == 'int': R.ob(n[1] == 16384, 'modulo 16384', 'mod:%s' % n[1], 'the slot of %s is taken modulo %s' % (cmdname(c), n[1]), where(e), n[1])
                    else: R.unk('the modulus')
                elif v[0] == 'bin' and v[1] == 'BitAnd' and crc in v[2:] and any(x[0] == 'int' for x in v[2:]):
                    n = [x[1] for x in v[2:] if x[0] == 'int'][0]
                    R.ob(n == 16383, 'modulo 16384', 'and:%s' % n, 'the slot of %s is masked by %s' % (cmdname(c), n), where(e), n)
                elif v == crc: R.bad('nomod:%s' % cmdname(c), 'the slot of %s is not reduced: it can be above 16383' % cmdname(c), where(e))
                else: 
                    if unknown_in(replace(v, {crc: I(0)})) and not v[0] == 'bin': R.unk('the slot of %s: %s' % (cmdname(c), pt.pt(v, 5)[:100]))
                    else: R.bad('form:%s' % cmdname(c), 'the slot of %s is %s' % (cmdname(c), pt.pt(v, 4)[:120]), where(e))
        if not found:
            some16 = any(e[0] == 'u16' for i in ps for e in i.r.ev)
            given = any(e[0] == 'u16' and not (e[1] == NONE or e[1][0] == 'agg' and e[1][3] != 'Some') for i in ps for e in i.r.ev)
            if some16 and ps and not R.viol and not given: R.bad('none:%s' % cmdname(c), 'no slot is given for the key of %s' % cmdname(c))
            else: R.unk('%s computes no slot' % cmdname(c))
