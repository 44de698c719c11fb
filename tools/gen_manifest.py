#!/usr/bin/env python3
"""Write MANIFEST.json from the list of finished checks (module attributes TECHNIQUE, NOTE, LEVEL) and the reasons below."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
 'C30': 'the meaning of a reduction depends on run-time values (nested closures, text, lists); no static rule in reach decides it beyond the binding, copying and waiting rules claimed as C14, C22, C25',
 'C31': 'which indent is common to the lines of a substituted text is computed from run-time text (that the indent of the application is put before each line is claimed as C27); bounding its lines needs string arithmetic over unknown texts that no sound static argument in reach can do',
 'C32': '(the offsets of removed empty lines are claimed as C27) offsets are sums of lengths of run-time strings carried through every text operation; only the structural part (records are kept and passed on) is decidable and is claimed as C18',
 'C33': 'the language is a lambda calculus with recursion: termination of evaluation is undecidable and some programs do not terminate by design',
 'C34': 'line numbers depend on run-time texts, on generated code objects and on browse offsets; only the presence of the location in each message is decidable and is claimed as C11',
}
PENDING = 'no check finished yet'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf8')]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'yuflow', 'checks', i.lower() + '.py')
    if os.path.isfile(f) and i not in NA:
        m = importlib.import_module('yuflow.checks.' + i.lower())
        checks.append({'property': i, 'quick_cmd': 'python3 run.py ' + i, 'thorough_cmd': 'python3 run.py ' + i,
                       'technique': m.TECHNIQUE, 'level': getattr(m, 'LEVEL', 'other'), 'level_note': m.NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, PENDING)})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Every check parses /repo\'s current source (ast, CPython 3.12) and never runs it.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
