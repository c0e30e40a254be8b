#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checkers that exist."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/sa'); sys.dont_write_bytecode = True
import checks
BASE = "abstract interpretation of the MIR from main (all paths, value terms)"
TECH = {
 'R01': 'path enumeration: write effects between two message receptions, token grammar of RESP',
 'R02': 'effect ordering: decode, send, receive, write; no spawn or second receive in between',
 'R03': 'taint of line replies; byte map of the sanitiser evaluated on its 256 values',
 'R04': 'token grammar of RESP over the bytes each path writes; encoder interpreted alone',
 'R05': 'typestate of io results and of the buffered writer',
 'K01': 'effect fingerprint of the paths which recognise each name',
 'K02': 'facts required of a request before it is executed; no effect before a refusal',
 'K03': 'reply term of the paths which recognise no name',
 'K04': 'reply term', 'K05': 'reply term compared with that of CLIENT ID',
 'S01': 'effects on the store of each SET path', 'S02': 'provenance of the bytes GET answers',
 'S03': 'facts on expiry which guard each reply and removal', 'S04': 'term of the expiry stored',
 'S05': 'points-to: allocation site of the store of each thread', 'S06': 'lock and await effects in order (held set at each await)',
 'S08': 'polynomial identities over the range terms of one round of the loop (or closure) which makes the segments, with the index and the number of segments as unknowns',
 'S07': 'term of the slot computed from a key, for both commands',
 'N01': 'provenance of the registered id', 'N02': 'no path leaves the accept loop; failing calls reachable from it',
 'N03': 'pairing of registry insertion, spawn and removal over all paths', 'N04': 'ownership: metadata touched by a command belongs to its own registration',
 'N05': 'term stored and term answered; the refused set evaluated on every code point', 'N06': 'templates of the two replies compared',
 'N07': 'field never read', 'N08': 'provenance of the bound address and core, one thread per core',
 'P01': 'every panicking construct an obligation, discharged by dataflow facts', 'P02': 'recursion cycles and their decreasing bounded argument',
 'P03': 'size of each allocation bounded by bytes received', 'P04': 'algebra of the pending buffer over the reading loop',
 'P05': 'cursor effects of the two walkers compared per type byte', 'P06': 'paths after end of stream or error',
}
NA = {
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
chk = []; na = []
for p in props:
    i = p['id']
    if hasattr(checks, 'check_' + i) and i not in NA:
        note = ' '.join((getattr(checks, 'check_' + i).__doc__ or '').split())
        chk.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i + " --thorough",
          "technique": BASE + "; " + TECH[i], "level": "other",
          "level_note": (note + ' ' if note else '') + "Every path the abstract interpreter finds from main is examined, loops being summarised (first turn, and any later one). Trusted: the models of library functions in sa/models.py, the MIR printed by the compiler which builds /repo. What cannot be decided is listed as undecided in the evidence and is not an alarm."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": chk, "not_applicable": na,
  "notes": "One analyser (driver/: rustc wrapper which prints the MIR; sa/: abstract interpreter and rules), one rule per property. No hooks in /repo."}, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(chk), 'claimed', len(na), 'not')
