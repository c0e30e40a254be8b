"""Runs the rule of one property and writes down what it covered."""
import os, signal, sys, time, traceback
import lib, checks
from collections import Counter

class Late(Exception): pass

def decide(pid, facts, tier, limit=None):
    limit = limit or (600 if tier == 'quick' else 3000)
    R = checks.Rep(pid)
    def late(*a): raise Late()
    signal.signal(signal.SIGALRM, late); signal.alarm(limit)
    try:
        M = lib.Model(facts, tier=tier)
        R.model = M
        getattr(checks, 'check_' + pid)(M, R)
        R.blind(M)
    except Late:
        R.unk('the analysis did not finish within %d s' % limit)
    except RecursionError:
        R.unk('a value too deep for the analysis')
    except Exception:
        # source in a form the rule was not written for: not decided
        sys.stderr.write(traceback.format_exc())
        R.unk('the rule does not apply to this form of the source: %s' % traceback.format_exc().strip().split('\n')[-1])
    finally:
        signal.alarm(0)
    return R

def evidence(pid, tier, seed, R, t0, t1):
    M = getattr(R, 'model', None)
    cov = {'explanation': (getattr(checks, 'check_' + pid).__doc__ or '').strip() or 'see DESIGN.md',
           'obligations': R.n, 'discharged': R.ok, 'undecided': sum(R.und.values()),
           'obligations_by_rule': dict(R.kinds), 'samples': [{'rule': k, 'instance': v} for k, v in list(R.samples.items())[:40]],
           'undecided_list': [m for m, _ in R.und.most_common(30)]}
    if M is not None:
        E = M.E
        cov['analysed'] = {
            'functions_with_a_body': len(M.F.bodies), 'functions_interpreted': len(E.visited_bodies),
            'roots': [{'root': u.name, 'site': u.site[1] if u.site else None, 'paths_to_the_end': len(u.rets), 'paths_round_a_loop': len(u.backs)} for u in M.W.units],
            'request_paths': len(M.requests()), 'steps': E.steps, 'model_notes': M.notes}
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
            'assumptions': ['the models of library functions in sa/models.py', 'the MIR is what rustc extracts from /repo (same toolchain, --bins)'],
            'wall_s': round(time.time() - t0, 2), 'extract_s': round(t1 - t0, 2), 'violations': len(R.viol)}
