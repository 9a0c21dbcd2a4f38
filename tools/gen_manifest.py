"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECIAL = {
    'C12': 'stateless model checking of the implementation under a controlled thread scheduler: exhaustive enumeration of interleavings up to a preemption bound',
    'C03': 'stateless model checking of the implementation: exhaustive enumeration of operation sequences and nested callbacks up to a depth, compared with a reference model of the context stack',
    'C04': 'stateless model checking of the implementation with fault enumeration: every failure and escaping exception at every callback of an update',
    'C15': 'explicit enumeration of all type expressions and values up to a depth, compared with a set-theoretic model of membership',
    'C16': 'explicit enumeration of all typed dictionaries, inheritance and values within bounds, compared with a model of their meaning',
}
DEF = 'stateless model checking of the implementation: exhaustive enumeration of bounded configurations, inputs and operation sequences against a reference model'
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='./check.sh --selftest', checks=[], not_applicable=[],
         notes='Every check executes the code of /repo itself for every choice sequence within the bounds; nothing is sampled and there is no build step. No hooks in /repo. Known findings and fixes: KNOWN_FINDINGS.txt.')
for p in props:
    m['checks'].append(dict(
        property=p['id'], quick_cmd=f'./check.sh {p["id"]}', thorough_cmd=f'./check.sh {p["id"]} --tier thorough',
        technique=SPECIAL.get(p['id'], DEF), level='model_checking',
        level_note='Exhaustive within the stated bounds (evidence: coverage.scenarios): every enumerated execution of the real code is compared with a small executable reference model; values, depths and configurations beyond the enumerated alphabets are not covered.'))
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']))
