#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--facts FILE]

--thorough also decides it on the release profile.

Decides one property from /repo's current source: extracts the compiler's
intermediate representation (sa/extract.sh), interprets it abstractly from
`main` (sa/world.py), and applies the rule of the property (sa/checks.py).

exit 0: no path contradicts the property (what could not be decided is listed
in the evidence), 1: VIOLATION, 2: the source could not be analysed at all."""
import json, os, shutil, subprocess, sys, time, traceback
t0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True

def known():
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p):
        if not l.startswith('finding: '): continue
        f = l.split(None, 3)
        out[(f[1].split('=', 1)[1], f[2].split('=', 1)[1])] = f[3].strip() if len(f) > 3 else ''
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    runs = [('dev', '')] + ([('release', '--release')] if tier == 'thorough' else [])
    if '--facts' in sys.argv: runs = [('given', None)]
    import lib, checks, report
    t1 = time.time(); reps = []
    for name, profile in runs:
        tmp = None
        if profile is None: facts = sys.argv[sys.argv.index('--facts') + 1]
        else:
            tmp = os.path.join(HERE, 'build', 'facts.%d.%s' % (os.getpid(), name))
            r = subprocess.run(['bash', os.path.join(HERE, 'sa', 'extract.sh'), tmp] + profile.split(), stderr=subprocess.PIPE, text=True)
            facts = os.path.join(tmp, 'roster-Executable.json')
            if r.returncode or not os.path.exists(facts):
                sys.stderr.write(r.stderr[-4000:]); print('the source could not be compiled, nothing to decide'); shutil.rmtree(tmp, ignore_errors=True); return 2
        t1 = time.time() if not reps else t1
        try:
            reps.append((name, report.decide(pid, facts, tier)))
        finally:
            if tmp: shutil.rmtree(tmp, ignore_errors=True)
    rep = reps[0][1]
    for name, r2 in reps[1:]:
        for k, (m, s) in r2.viol.items(): rep.viol.setdefault(k, ('%s (profile %s)' % (m, name), s))
        for m, c in r2.und.items(): rep.und['%s (profile %s)' % (m, name)] += c
        rep.n += r2.n; rep.ok += r2.ok; rep.kinds.update(r2.kinds)
    ev = report.evidence(pid, tier, seed, rep, t0, t1)
    ev['coverage']['profiles'] = [n for n, _ in reps]
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    kn = known(); bad = 0
    path = os.path.join(HERE, 'evidence', pid + '.violations.txt')
    lines = []
    for k, (m, s) in rep.viol.items():
        if (pid, k) in kn:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kn[(pid, k)] or m, k)); continue
        bad += 1
        lines.append('%s\n  where: %s\n  key: %s' % (m, s, k))
    for m, c in rep.und.most_common(20): print('undecided (%d): %s' % (c, m[:300]))
    if bad:
        open(path, 'w').write('\n'.join(lines) + '\n')
        for l in lines[:12]: print(l)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if os.path.exists(path): os.remove(path)
    print('%s: %d obligations, %d discharged, %d undecided' % (pid, rep.n, rep.ok, sum(rep.und.values())))
    return 0

if __name__ == '__main__':
    sys.exit(main())
