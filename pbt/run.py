"""Entry point: runs one property's check, sharded over worker processes."""
import argparse
import importlib
import json
import os
import pkgutil
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(pid):
    from pbt import props
    for m in pkgutil.iter_modules(props.__path__):
        if m.name.lower().split('_')[0] == pid.lower():
            return importlib.import_module('pbt.props.' + m.name)
    raise SystemExit(3)


def worker(args):
    from pbt import env
    env.init()
    from pbt import core
    mod = load(args.property)
    scratch = os.path.join(args.out + '.scratch')
    os.makedirs(scratch)
    os.chdir(scratch)
    tempfile.tempdir = scratch
    res = core.run_shard(mod, args.tier, args.seed, args.shard, args.workers,
                         only=args.only.split(',') if args.only else None)
    with open(args.out, 'w') as f:
        json.dump(res, f)


def replay(args):
    from pbt import env
    env.init()
    from pbt import core
    with open(args.replay) as f:
        rec = json.load(f)
    mod = load(args.property)
    sub = [s for s in mod.CHECKS if s.name == rec['sub']][0]
    path = os.path.abspath(args.replay)
    tmp = tempfile.mkdtemp(prefix='pbt_')
    os.chdir(tmp)
    tempfile.tempdir = tmp
    try:
        ctx, msg = core.run_case(sub, rec['case'])
    finally:
        os.chdir(HERE)
        shutil.rmtree(tmp, ignore_errors=True)
    if msg is None:
        print('replay: the property holds on this case')
        return 0
    print(msg)
    if args.quiet_id:
        return 1
    print('VIOLATION property=%s replay=%s' % (args.property, path))
    return 1


def known_findings(pid):
    """[(description, replay file)] listed in the committed file for pid."""
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                rep, _, desc = rest.partition(' ')
                out.append((desc, os.path.join(HERE, rep.split('=', 1)[1])))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--quiet-id', action='store_true')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--shard', type=int, default=None)
    ap.add_argument('--out')
    ap.add_argument('--only', default='')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    args = ap.parse_args()
    if args.replay:
        return replay(args)
    if args.shard is not None:
        worker(args)
        return 0

    t0 = time.time()
    limit = 840 if args.tier == 'quick' else 6 * 3600
    tmp = tempfile.mkdtemp(prefix='pbt_%s_' % args.property)
    try:
        procs = []
        for s in range(args.workers):
            out = os.path.join(tmp, 'w%d.json' % s)
            cmd = [sys.executable, '-m', 'pbt.run', args.property, '--shard', str(s),
                   '--workers', str(args.workers), '--out', out,
                   '--seed', str(args.seed), '--tier', args.tier, '--only', args.only]
            log = open(out + '.log', 'w')
            procs.append((s, out, subprocess.Popen(cmd, stdout=log, stderr=log,
                                                   cwd=HERE), log))
        results, errors = [], []
        for s, out, p, log in procs:
            try:
                p.wait(timeout=max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                errors.append('worker %d: time limit' % s)
                for q in procs:
                    q[2].kill()
                p.wait()
                continue
            log.close()
            if p.returncode != 0 or not os.path.exists(out):
                errors.append('worker %d: exit %s\n%s' % (s, p.returncode,
                                                         open(out + '.log').read()[-3000:]))
                continue
            results.append(json.load(open(out)))
        return report(args, results, errors, time.time() - t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(args, results, errors, wall):
    from pbt import env
    env.init()
    mod = load(args.property)
    pid = args.property
    evaluations, labels, samples, distinct, per = 0, {}, [], 0, {}
    names = [s.name for s in mod.CHECKS]
    viols = []
    for name in names:
        seen, ev, lab = set(), 0, {}
        smp = []
        cpu = 0
        for r in results:
            st = r['subs'].get(name)
            if not st:
                continue
            ev += st['evaluations']
            seen.update(st['nontrivial'])
            smp.extend(st['samples'])
            cpu += st['wall']
            for k, v in st['labels'].items():
                lab[k] = lab.get(k, 0) + v
        evaluations += ev
        distinct += len(seen)
        per[name] = {'evaluations': ev, 'distinct_nontrivial': len(seen),
                     'classes': dict(sorted(lab.items())), 'cpu_s': round(cpu, 1)}
        smp.sort(key=len)
        for t in smp[:1] + smp[-1:] if len(smp) > 1 else smp:
            if len(t) > 4000:
                t = t[:4000] + '...'
            samples.append({'sub_check': name, 'case': t})
    for r in results:
        viols.extend(r['violations'])
    viols.sort(key=lambda v: len(json.dumps(v['case'])))
    ev = {
        'property': pid, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': distinct,
            'rule': mod.RULE, 'samples': samples, 'sub_checks': per,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': len(viols),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for name in names:
        p = per[name]
        print('%s/%s: %d cases, %d distinct non-trivial, %.0f cpu-s %s' % (
            pid, name, p['evaluations'], p['distinct_nontrivial'], p['cpu_s'],
            p['classes']))
    for e in errors:
        print('ERROR ' + e)
    if viols:
        v = viols[0]
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (pid, v['sub'], args.seed))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'sub': v['sub'], 'case': v['case'],
                       'message': v['message']}, f, indent=1)
        print('sub-check %s: %s' % (v['sub'], v['message']))
        print('case: %s' % json.dumps(v['case'])[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        return 3
    # listed findings: reported, not alarms (they are replayed, so that an entry
    # whose defect is gone is noticed)
    for desc, rep in known_findings(pid):
        a = [sys.executable, '-m', 'pbt.run', pid, '--quiet-id', '--replay', rep]
        rc = subprocess.run(a, cwd=HERE, stdout=subprocess.DEVNULL,
                            stderr=subprocess.DEVNULL).returncode
        if rc == 1:
            print('KNOWN-FINDING: property=%s %s' % (pid, desc))
        else:
            print('note: listed finding no longer fails: %s' % desc)
    print('OK property=%s %d cases, %d distinct non-trivial, %.1f s' % (
        pid, evaluations, distinct, wall))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
