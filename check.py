#!/usr/bin/env python3
"""Decide one property from /repo's current source.  usage: check.py <id> [quick|thorough]"""
import sys, os, json, time, threading, traceback, importlib, multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(1000000)
threading.stack_size(1024 * 1024 * 1024)


def in_thread(f, *a):
    out = {}

    def go():
        try:
            out['r'] = f(*a)
        except BaseException as e:
            out['e'] = e
            out['tb'] = traceback.format_exc()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out


def worker(job, q):
    mod, label, args, P, tier, seed = job
    t = time.time()
    out = in_thread(mod.analyse, P, label, args, tier, seed)
    r = out.get('r')
    if r is None:
        from bx.frontend import AnalysisBroken
        q.put((label, None, out.get('tb', '')[-1800:], isinstance(out.get('e'), AnalysisBroken), time.time() - t))
    else:
        q.put((label, r, None, False, time.time() - t))


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2].replace('--', '')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from bx.props import PROPS
    from bx import frontend
    spec = PROPS[pid]
    mod = importlib.import_module('bx.' + spec['module'])
    broken = []
    try:
        P = mod.load(pid) if hasattr(mod, 'load') else frontend.load()
    except frontend.AnalysisBroken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        return 2
    parts = mod.partitions(pid, tier)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pend = list(parts)
    run = {}
    results = []
    limit = 840 if tier == 'quick' else 3300
    while pend or run:
        while pend and len(run) < 8:
            label, args = pend.pop(0)
            p = ctx.Process(target=worker, args=((mod, label, dict(args, pid=pid), P, tier, seed), q))
            p.start()
            run[label] = p
        try:
            r = q.get(timeout=1)
            results.append(r)
            run.pop(r[0]).join()
        except Exception:
            for label, p in list(run.items()):
                if not p.is_alive() and p.exitcode not in (0, None):
                    run.pop(label)
                    results.append((label, None, 'worker ended with %s' % p.exitcode, False, 0))
            if time.time() - t0 > limit:
                for label, p in run.items():
                    p.kill()
                    results.append((label, None, 'time limit', False, 0))
                for label, _ in pend:
                    results.append((label, None, 'time limit', False, 0))
                break
    order = {l: i for i, (l, _) in enumerate(parts)}
    results.sort(key=lambda r: order[r[0]])
    obs, stats, failed = [], {}, []
    hard = False
    for label, r, err, brk, dt in results:
        if r is None:
            failed.append((label, err))
            hard = hard or brk
            continue
        for o in r['obs']:
            obs.append((label,) + tuple(o))
        for k, v in r.get('stats', {}).items():
            if isinstance(v, (int, float)):
                stats[k] = stats.get(k, 0) + v
            elif isinstance(v, list):
                cur = stats.setdefault(k, [])
                for x in v:
                    if x not in cur:
                        cur.append(x)
    return finish(pid, spec, tier, seed, t0, parts, obs, stats, failed, hard)


def finish(pid, spec, tier, seed, t0, parts, obs, stats, failed, hard):
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == pid]
    by = {}
    for o in obs:
        by[o[2]] = by.get(o[2], 0) + 1
    viol, seen_known = {}, {}
    for label, name, status, where, detail, key in obs:
        if status != 'violated':
            continue
        hit = None
        for k in known:
            if k['key'] == key and (not k.get('where') or k['where'] in where):
                hit = k
        if hit is not None:
            seen_known[hit['key']] = (hit, where)
            continue
        viol.setdefault((key, where), []).append((label, name, detail))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'other'), 'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'explanation': spec['rule'],
            'obligations': len(obs), 'discharged': by.get('proved', 0),
            'agree_by_identity_testing': by.get('agrees', 0), 'undecided': by.get('undecided', 0), 'violated': by.get('violated', 0),
            'partitions': [l for l, _ in parts],
            'checker_cmd': 'python3 /verif/check.py %s %s' % (pid, tier),
            'trusted_base': ['clang 18 front end', 'models of Eigen/std/netCDF/OpenMP calls in bx/models.py', 'normaliser bx/nf.py', 'oracles in bx/spec_*.py and bx/chk_*.py'],
            'analysed': {k: (v if not isinstance(v, list) else v[:60]) for k, v in stats.items()},
            'samples': [{'partition': o[0], 'obligation': o[1], 'status': o[2], 'where': o[3][:200], 'detail': o[4][:200]} for o in pick(obs)],
            'undecided_list': [{'partition': o[0], 'obligation': o[1], 'detail': o[4][:160]} for o in obs if o[2] == 'undecided'][:25],
            'failed_partitions': [{'partition': l, 'error': (e or '')[-400:]} for l, e in failed],
        },
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', pid + '.json')
    text = json.dumps(ev, indent=1, default=str)
    with open(path, 'w') as f:
        f.write(text)
    print('%s: %d obligations: %d proved, %d agree, %d undecided, %d violated; %d/%d partitions; %.1f s' % (
        pid, len(obs), by.get('proved', 0), by.get('agrees', 0), by.get('undecided', 0), by.get('violated', 0),
        len(parts) - len(failed), len(parts), time.time() - t0))
    for l, e in failed:
        print('partition %s not analysed: %s' % (l, e))
    for k, (h, where) in seen_known.items():
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, h['what'], where))
    if viol:
        rp = os.path.join(HERE, 'evidence', pid + '.violation.json')
        with open(rp, 'w') as f:
            json.dump([{'key': k, 'where': w, 'reports': [{'partition': a, 'obligation': b, 'detail': c} for a, b, c in v[:4]]}
                       for (k, w), v in viol.items()], f, indent=1, default=str)
        for (k, w), v in list(viol.items())[:12]:
            print('  at %s: %s: %s' % (w or '?', v[0][1], v[0][2]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    # a partition that ran out of time is reported in the evidence and does not count against what the others decided;
    # a partition that could not be analysed does
    late = failed and all(e == 'time limit' for _, e in failed)
    if hard or (failed and len(failed) == len(parts)) or (len(obs) < spec.get('floor', 1) and not late):
        print('ANALYSIS-BROKEN: %d obligations (floor %d)' % (len(obs), spec.get('floor', 1)))
        return 2
    decided = by.get('proved', 0) + by.get('agrees', 0)
    if decided == 0 and not seen_known:
        print('ANALYSIS-BROKEN: nothing decided')
        return 2
    return 0


def pick(obs):
    out, seen = [], set()
    for o in obs:
        if (o[1], o[2]) not in seen:
            seen.add((o[1], o[2]))
            out.append(o)
    return out[:40]


if __name__ == '__main__':
    sys.exit(main())
