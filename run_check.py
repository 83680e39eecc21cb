#!/usr/bin/env python3-vt
"""run_check.py --property C01 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored; 1: violation (VIOLATION line); 2: the harness itself failed."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def parse():
    p = argparse.ArgumentParser()
    p.add_argument('--property', required=True)
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    p.add_argument('--replay')
    p.add_argument('--shards', type=int)
    p.add_argument('--shard', type=int)
    p.add_argument('--out')
    p.add_argument('--budget', type=float)
    return p.parse_args()


def shard_main(args):
    import traceback
    from harness import core
    rec = None
    try:
        module = core.load_check(args.property)
        budget = args.budget or default_budget(module, args.tier)
        rec = core.Recorder(args.property, args.tier, args.seed, args.shard, args.shards, budget)
        module.run(rec)
        result = rec.result()
        code = 0
    except Exception:
        result = dict(rec.result() if rec else {}, error=traceback.format_exc())
        code = 2
    with open(args.out, 'w') as f:
        json.dump(result, f)
    return code


def default_budget(module, tier):
    if tier == 'thorough':
        return getattr(module, 'THOROUGH_SECONDS', 300.0)
    return getattr(module, 'QUICK_SECONDS', 60.0)


def replay_main(args):
    import base64
    import pickle
    from harness import core
    with open(args.replay) as f:
        data = json.load(f)
    module = core.load_check(args.property)
    case = pickle.loads(base64.b64decode(data['case']))
    rec = core.Recorder(args.property, 'quick', args.seed)
    module.REC = rec
    check = module.PARTS(rec)[data['part']]
    try:
        check(case)
    except core.Violation as v:
        print(v.message)
        print(f'VIOLATION property={args.property} replay={args.replay}')
        return 1
    print('replay: property held on this case')
    return 0


def main():
    args = parse()
    if os.environ.get('PYTHONHASHSEED') != '0':
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TQDM_DISABLE='1')
        env.pop('PYTHONPATH', None)
        os.execve(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:], env)
    if args.shard is not None:
        sys.exit(shard_main(args))
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > 1 << 30 else None
    scratch = tempfile.mkdtemp(prefix='v8verif_', dir=base)
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        if args.replay:
            sys.exit(replay_main(args))
        sys.exit(run_all(args, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_all(args, scratch):
    prop = args.property
    t0 = time.monotonic()
    shards = args.shards or max(1, min(8, os.cpu_count() or 1))
    evidence_path = os.path.join(HERE, 'evidence', f'{prop}.json')
    os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
    procs = []
    for i in range(shards):
        out = os.path.join(scratch, f'out{i}.json')
        env = dict(os.environ, VERIF_SCRATCH=os.path.join(scratch, f's{i}'))
        cmd = [sys.executable, os.path.abspath(__file__), '--property', prop, '--tier', args.tier, '--seed',
               str(args.seed), '--shards', str(shards), '--shard', str(i), '--out', out]
        if args.budget:
            cmd += ['--budget', str(args.budget)]
        log = open(os.path.join(scratch, f'log{i}'), 'w+')
        procs.append((subprocess.Popen(cmd, env=env, stdout=log, stderr=log, cwd=scratch), out, log))
    results, errors = [], []
    for proc, out, log in procs:
        rc = proc.wait()
        try:
            with open(out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            log.seek(0)
            r = dict(error=f'shard died rc={rc}\n' + log.read()[-3000:])
        if 'error' in r:
            errors.append(r['error'])
        if 'evaluations' in r:
            results.append(r)
        log.close()
    from harness import core, report
    module_meta = report.meta(prop)
    code = report.finish(prop, args, results, errors, module_meta, evidence_path, time.monotonic() - t0,
                         core.load_known(prop), HERE)
    return code


if __name__ == '__main__':
    main()
