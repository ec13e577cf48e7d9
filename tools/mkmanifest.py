import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'TLA+ specification model-checked with TLC; every transition of its state graph replayed in the real library, logs of the real library checked against the specification'
NOTE = {
 'C17': ' The operations of every behaviour are spread over several threads.',
 'C18': ' In addition Layout.tla (placement of the control block in a stack) is model-checked and its cases are replayed on real stacks.',
 'C19': ' All allocators of the library, replayed with instrumented wrappers.',
 'C20': ' The same behaviours for g++ and clang++, C++11 to C++20, -O0 to -O3, with and without NDEBUG.',
}
m = dict(version=1, setup_cmd='python3 tools/setup.py',
  checks=[dict(property=p['id'], quick_cmd='python3 tools/check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + p['id'],
               technique=TECH, level='model_checking',
               level_note='Exhaustive within the bounds of the instances listed in tools/suites.py (1-4 coroutines, 1-4 handles, call depth 1-3): TLC checks the design, the replay takes every transition in the real code; randomised logs go beyond these bounds. Trusts the specification, TLC, and the harness\' observations; assumes legal clients.' + NOTE.get(p['id'], ''))
          for p in props], not_applicable=[],
  notes='No hooks in /repo: the public API and the objects, stacks and exceptions that the harness supplies show the complete abstract state.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
