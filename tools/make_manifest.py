"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = ''.join(open(f'{V}/mc/src/main.rs'))
runner = re.findall(r'"(C\d\d)"', src[src.index('fn run_prop'):src.index('fn judge_case')])
T = {
 'transducer': ('model_checking', 'explicit-state model (finite-state transducer) explored exhaustively, every trace replayed on the real code',
   'Complete to the stated depths, and for implementations within the stated number of extra states of the reference transducer; longer texts only along pumped cycles.'),
 'explore': ('exploration', 'bounded-exhaustive exploration of the real code against a reference model',
   'Every case of the stated finite spaces was run on the real code; nothing is claimed outside those bounds.'),
 'fault': ('fault_enumeration', 'exhaustive enumeration of operation histories and of every fault answer of the sink, run on the real code',
   'All short-write, interruption and error placements up to the stated number per export; larger tables only through the stated grid.'),
 'sched': ('exploration', 'stateless model checking: exhaustive call histories and preemption-bounded thread schedules of the real code',
   'Schedules are complete at call granularity within the stated history length, and at allocation granularity within the stated preemption bound.'),
 'fs': ('exploration', 'exhaustive enumeration of file-system states and environments, the real loader run in each',
   'Every subset of the stated candidate files and every stated kind of file; HOME unset is not explored.'),
}
K = {**{f'C{i:02}': 'transducer' for i in (1,2,3,7,8,9,10,11,12)}, 'C13':'sched', 'C15':'fault','C19':'fs','C14':'bfs'}
K['C23'] = 'py'
T['py'] = ('exploration', 'exhaustive enumeration of constructions and call histories of the Python extension, each compared with the library run in the same environment',
   'All histories up to the stated length over the stated calls, all argument combinations over the stated files; the interpreter is the one installed.')
T['swap'] = ('model_checking', 'every interleaving of a load, at the granularity of its system calls, with one or two replacements of the file, run on the real code',
   'Replacements fall before any of the first calls of a load (number stated in the evidence); a file rewritten in place is not explored.')
K['C24'] = 'swap'
T['bfs'] = ('model_checking', 'breadth-first exploration of all reachable table states, every transition executed on the real code',
   'All states and transitions over the stated item universe; sets of more distinct entries are not reached.')
checks = []
for l in open(f'{V}/properties.jsonl'):
    p = json.loads(l)
    if p['id'] not in runner: continue
    level, tech, note = T[K.get(p['id'], 'explore')]
    checks.append({'property': p['id'], 'quick_cmd': f"./check.sh {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough ./check.sh {p['id']}",
        'technique': tech, 'level': level, 'level_note': note + ' Trusts the reference model in mc/src and the Rust toolchain.'})
have = {c['property'] for c in checks}
na = [{'property': json.loads(l)['id'], 'reason': 'check not built yet'} for l in open(f'{V}/properties.jsonl') if json.loads(l)['id'] not in have]
json.dump({'version': 1, 'setup_cmd': './check.sh setup', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks: everything is driven through the public API, the two executables and the Python extension. Replay a violation with .build/mc/release/mc replay FILE.'},
  open(f'{V}/MANIFEST.json','w'), indent=1, ensure_ascii=False)
