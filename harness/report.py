"""Merging of shard results, evidence file, VIOLATION and KNOWN-FINDING lines."""
import ast
import json
import os
import hashlib


def meta(prop):
    """RULE / ASSUMPTIONS / LEVEL constants of the check module, read without importing the code under test."""
    path = os.path.join(os.path.dirname(__file__), 'checks', f'{prop.lower()}.py')
    res = {}
    with open(path, encoding='utf-8') as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                try:
                    res[node.targets[0].id] = ast.literal_eval(node.value)
                except ValueError:
                    pass
    return res


def finish(prop, args, results, errors, module_meta, evidence_path, wall, known, here):
    evaluations = sum(r['evaluations'] for r in results)
    nontrivial = set()
    samples, classes, parts, violations, known_hits = [], {}, {}, [], {}
    for r in results:
        nontrivial.update(r['nontrivial'])
        violations.extend(r['violations'])
        for k, v in r['classes'].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in r['known_hits'].items():
            known_hits[k] = known_hits.get(k, 0) + v
        for k, v in r['parts'].items():
            p = parts.setdefault(k, [0, 0])
            p[0] += v[0]
            p[1] += v[1]
    i = 0
    while len(samples) < 12 and any(len(r['samples']) > i for r in results):
        for r in results:
            if len(r['samples']) > i and len(samples) < 12:
                samples.append(r['samples'][i])
        i += 1
    lines = []
    seen = {}
    for v in sorted(violations, key=lambda v: len(v['case'])):
        if v['part'] in seen:
            continue
        seen[v['part']] = 1
        digest = hashlib.sha1(v['case'].encode()).hexdigest()[:8]
        rel = f'replay/{prop}-{v["part"]}-{digest}.json'
        path = os.path.join(here, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(dict(property=prop, part=v['part'], message=v['message'], key=v['key'],
                           readable=v['readable'], case=v['case'],
                           how=f'run_check.py --property {prop} --replay {rel}'), f, ensure_ascii=False, indent=1)
        lines.append((v, path))
    evidence = dict(
        property=prop, tier=args.tier, seed=args.seed, level=module_meta.get('LEVEL', 'exploration'),
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(nontrivial), rule=module_meta.get('RULE', ''),
            samples=samples, classes=dict(sorted(classes.items())),
            parts={k: dict(evaluations=v[0], distinct_nontrivial=v[1]) for k, v in sorted(parts.items())},
            known_finding_hits=known_hits,
            violation_details=[dict(part=v['part'], message=v['message'][:1500], replay=p) for v, p in lines]),
        wall_s=round(wall, 2),
        violations=len(lines),
        assumptions=module_meta.get('ASSUMPTIONS', []))
    with open(evidence_path, 'w', encoding='utf-8') as f:
        json.dump(evidence, f, ensure_ascii=False, indent=1)
    print(f'{prop} {args.tier} seed={args.seed}: {evaluations} cases, {len(nontrivial)} distinct non-trivial, '
          f'{wall:.1f}s; ' + ', '.join(f'{k}={v[0]}/{v[1]}' for k, v in sorted(parts.items())))
    for item in known:
        print(f'KNOWN-FINDING: property={prop} {item["what"]} (hit {known_hits.get(item["key"], 0)} times)')
    for v, path in lines:
        print(f'--- {v["part"]}: {v["message"][:1500]}')
        print(f'VIOLATION property={prop} replay={path}')
    if lines:
        return 1
    if errors:
        print('HARNESS ERROR')
        print(errors[0][-4000:])
        return 2
    if not evaluations:
        print('HARNESS ERROR: nothing was evaluated')
        return 2
    return 0
