"""Regenerates MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import report
here = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(line)
    pid = p['id']
    if not os.path.exists(os.path.join(here, 'harness', 'checks', pid.lower() + '.py')):
        na.append(dict(property=pid, reason='no check built yet'))
        continue
    m = report.meta(pid)
    checks.append(dict(
        property=pid,
        quick_cmd=f'python3-vt run_check.py --property {pid} --tier quick',
        thorough_cmd=f'python3-vt run_check.py --property {pid} --tier thorough',
        evidence_file=f'evidence/{pid}.json',
        technique=m.get('TECHNIQUE', 'property-based testing (Hypothesis): generated inputs against an explicit oracle, with shrinking'),
        level=m.get('LEVEL', 'exploration'),
        level_note=m.get('RULE', '')[:600]))
man = dict(version=1, setup_cmd='python3-vt -c "import hypothesis"', checks=checks, not_applicable=na,
           notes='Checks import the code of /repo/src at run time; nothing is built. known_findings.json lists known findings and repaired defects.')
json.dump(man, open(os.path.join(here, 'MANIFEST.json'), 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
