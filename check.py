#!/usr/bin/env python3
"""Runner of the property checks:  check.py ID [--tier quick|thorough] [--replay FILE] [--scale X]

Builds the drivers of the property from /repo's working tree, runs their cases in parallel,
merges what the monitors observed into evidence/ID.json and reports violations.
Exit: 0 held on everything explored, 1 violated, 2 the check itself could not decide.
"""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ADEVS_REPO', '/repo')
SRC = os.path.join(HERE, 'src')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
NJ = min(8, os.cpu_count() or 1)
sys.path.insert(0, HERE)
from plan import PROGS, PLAN, CFGS


class Inconclusive(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), SRC):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


def run_cmd(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=SRC)
    if r.returncode:
        with open(log, 'ab') as f:
            f.write((' '.join(cmd) + '\n').encode() + r.stdout)
    return r.returncode, r.stdout.decode(errors='replace')


def build(jobs):
    """jobs: set of (prog, cfg). Returns {(prog,cfg): executable}."""
    th = tree_hash()
    todo, links, exes = {}, [], {}
    for prog, cfg in sorted(jobs):
        P, C = PROGS[prog], CFGS[cfg]
        objs = []
        for src, defs in P['units']:
            path = src.replace('@', REPO + '/') if src.startswith('@') else os.path.join(SRC, src)
            cmd = [C['cxx']] + C['flags'] + P.get('flags', []) + defs + ['-std=c++17', '-w', '-I' + SRC, '-I' + REPO + '/include', '-c', path]
            key = hashlib.sha256((th + ' '.join(cmd)).encode()).hexdigest()[:24]
            obj = os.path.join(BUILD, key + '.o')
            objs.append(obj)
            if not os.path.exists(obj):
                todo[obj] = cmd
        key = hashlib.sha256((th + ' '.join(objs) + repr(C) + repr(P)).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, prog + '-' + cfg + '-' + key)
        exes[(prog, cfg)] = exe
        if not os.path.exists(exe):
            links.append((exe, [C['cxx']] + C['flags'] + objs + P.get('libs', [])))
    os.makedirs(BUILD, exist_ok=True)
    log = os.path.join(BUILD, 'log-%d' % os.getpid())

    def comp(it):
        obj, cmd = it
        tmp = '%s.%d.tmp' % (obj, os.getpid())
        rc, out = run_cmd(cmd + ['-o', tmp], log)
        if rc:
            raise Inconclusive('compilation failed: %s\n%s' % (' '.join(cmd), out[-3000:]))
        os.rename(tmp, obj)

    def link(it):
        exe, cmd = it
        tmp = '%s.%d.tmp' % (exe, os.getpid())
        rc, out = run_cmd(cmd + ['-o', tmp], log)
        if rc:
            raise Inconclusive('link failed: %s\n%s' % (' '.join(cmd), out[-3000:]))
        os.rename(tmp, exe)

    with concurrent.futures.ThreadPoolExecutor(NJ) as ex:
        # long jobs first
        order = sorted(todo.items(), key=lambda it: 'adevs.cpp' in ' '.join(it[1]))
        list(ex.map(comp, order))
        list(ex.map(link, links))
    return exes


ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=98:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_init_order=1:symbolize=1'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=98'
ENV['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98:report_signal_unsafe=0:history_size=4'


def crash_key(rc, err):
    """Stable name of an abnormal end."""
    m = re.search(r'==\d+==ERROR: AddressSanitizer: (\S+)', err)
    if m:
        return 'asan:' + m.group(1)
    m = re.search(r'runtime error: (.*)', err)
    if m:
        return 'ubsan:' + re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(1))[:80]
    m = re.search(r'WARNING: ThreadSanitizer: (.*?)( \(pid|$)', err, re.M)
    if m:
        return 'tsan:' + m.group(1)
    if re.search(r'^==\d+== ', err, re.M):
        m = re.search(r'==\d+== ((?:Conditional|Use of|Invalid|Syscall|Mismatched|Source and).*)', err)
        if m:
            return 'memcheck:' + re.sub(r'\d+', 'N', m.group(1))[:60]
    if 'Assertion' in err:
        m = re.search(r'Assertion [`\'](.*?)\' failed', err)
        return 'assert:' + (m.group(1)[:80] if m else 'libstdc++')
    m = re.search(r'terminate called after throwing an instance of .(\S+?)\'', err)
    if m:
        return 'uncaught:' + m.group(1)
    return 'crash:%s' % (signal.Signals(-rc).name if rc < 0 else rc)


def run_one(argv, timeout, env):
    t0 = time.time()
    p = subprocess.Popen(argv, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, start_new_session=True)
    try:
        _, err = p.communicate(timeout=timeout)
        return p.returncode, err.decode(errors='replace'), time.time() - t0
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None, '', time.time() - t0


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scale = float(a[a.index('--scale') + 1]) if '--scale' in a else 1.0
    only = None
    if '--replay' in a:
        only = json.load(open(a[a.index('--replay') + 1]))
        seed, tier = only['seed'], only['tier']
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    plan = PLAN[pid]
    runs = []
    for r in plan['runs']:
        n = r.get(tier, r.get('quick', 0))
        if n:
            runs.append((r, r['cfg_' + tier] if 'cfg_' + tier in r else r.get('cfg', 'fast' if tier == 'quick' else 'deep'), max(1, int(n * scale))))
    if only:
        runs = [x for x in runs if x[0]['prog'] == only['prog'] and x[1] == only['cfg'] and x[0].get('tag', '') == only.get('tag', '')]
    exes = build({(r['prog'], cfg) for r, cfg, n in runs})
    t_build = time.time() - t0
    work = os.path.join(BUILD, 'run-%s-%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    jobs = []
    for k, (r, cfg, n) in enumerate(runs):
        nsh = 1 if only else min(r.get('shards', NJ), n)
        for s in range(nsh):
            jobs.append((k, r, cfg, n, s, nsh))
    limit = 840 if tier == 'quick' else 6 * 3600

    def argv(r, cfg):
        exe = exes[(r['prog'], cfg)]
        return CFGS[cfg].get('wrap', []) + [exe, '--prop', r.get('as', pid), '--tier', tier, '--seed', str(seed + (1000 if 'as' in r else 0)), '--cpu', str(r.get('cpu', 60))] + r.get('args', [])

    def do(j):
        k, r, cfg, n, s, nsh = j
        base = os.path.join(work, '%d-%d' % (k, s))
        env = dict(ENV)
        env.update(r.get('env', {}))
        av = argv(r, cfg) + ['--out', base + '.json', '--status', base + '.st']
        av += ['--case', str(only['case'])] if only else ['--cases', str(n), '--shard', str(s), '--nshards', str(nsh)]
        left = limit - (time.time() - t0)
        rc, err, dt = run_one(av, max(left, 5), env)
        res = {'job': j, 'viol': [], 'err': None}
        if rc in (0, 1) and os.path.exists(base + '.json'):
            d = json.load(open(base + '.json'))
            res['data'] = d
            for v in d['violations'] if 'as' not in r else []:   # workloads borrowed for the sanitizers only
                res['viol'].append(v)
            return res
        if rc is None:
            res['err'] = 'out of time'
            return res
        if rc == 2:
            res['err'] = 'driver error: ' + err[-800:]
            return res
        try:
            case = int(open(base + '.st').read().split()[1])
        except Exception:
            res['err'] = 'driver died before its first case (%s): %s' % (rc, err[-800:])
            return res
        # confirm in a fresh process
        hang = rc == 97
        av2 = argv(r, cfg) + ['--out', base + '-c.json', '--status', base + '-c.st', '--case', str(case)]
        if hang:
            av2[av2.index('--cpu') + 1] = str(2 * r.get('cpu', 60))
        rc2, err2, _ = run_one(av2, max(limit + 50 - (time.time() - t0), 5), env)
        key = 'hang' if hang else crash_key(rc, err)
        if hang and rc2 != 97:
            res['err'] = 'case %d exceeded its CPU budget once but not when repeated' % case
            return res
        if rc2 == 97 and not hang or rc == -9 and rc2 != -9:
            res['err'] = 'case %d ended with %s, then with %s' % (case, rc, rc2)
            return res
        if not hang and rc2 in (0, 1) and key.startswith('crash:'):
            res['err'] = 'case %d ended with %s once but not when repeated' % (case, rc)
            return res
        text = err if len(err) < 6000 else err[:3000] + '\n...\n' + err[-3000:]
        res['viol'].append({'case': case, 'key': key, 'msg': text})
        return res

    errs, viols, datas = [], [], []
    with concurrent.futures.ThreadPoolExecutor(NJ) as ex:
        for res in ex.map(do, jobs):
            if res['err']:
                errs.append('%s: %s' % (res['job'][1]['prog'], res['err']))
            if 'data' in res:
                datas.append((res['job'], res['data']))
            for v in res['viol']:
                viols.append((res['job'], v))
    shutil.rmtree(work, ignore_errors=True)
    # merge
    counts, mx, distinct, samples = {}, {}, set(), []
    for j, d in datas:
        for k, v in d['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in d['max'].items():
            mx[k] = max(mx.get(k, v), v)
        distinct.update((j[0], x) for x in d['distinct'])
        for s in d['samples'][:1]:
            samples.append((j[1].get('tag', '') + ' ' + s).strip())
    per = {}
    for s in samples:
        per.setdefault(s.split(':')[0], s)
    samples = (list(per.values()) + [s for s in samples if s not in per.values()])[:6]
    known = {}
    kf = os.path.join(HERE, 'known_findings.txt')
    for line in open(kf) if os.path.exists(kf) else []:
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
        if m and m.group(1) == pid:
            known[m.group(2)] = m.group(3)
    seen_known, fresh = {}, []
    for j, v in viols:
        if v['key'] in known:
            seen_known[v['key']] = v
        else:
            fresh.append((j, v))
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    missing = [k for k, v in plan.get('need', {}).items() if counts.get(k, 0) < v * (scale if scale < 1 else 1)]
    if not only:
        ev = counts.pop('evaluations', 0)
        cov = {'evaluations': ev, 'distinct_nontrivial': len(distinct), 'rule': plan['rule'], 'samples': samples or ['none'],
               'observed': counts, 'maxima': mx, 'drivers': ['%s/%s: %d cases' % (r['prog'] + (':' + r['tag'] if r.get('tag') else ''), cfg, n) for r, cfg, n in runs],
               'build_s': round(t_build, 1)}
        counts['evaluations'] = ev
        out = {'property': pid, 'tier': tier, 'seed': seed, 'level': plan.get('level', 'exploration'), 'coverage': cov, 'assumptions': plan.get('assume', []),
               'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        ep = os.path.join(HERE, 'evidence', pid + '.json')
        with open(ep + '.tmp', 'w') as f:
            json.dump(out, f, indent=1, sort_keys=True)
        os.rename(ep + '.tmp', ep)
    if fresh:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        seen = set()
        for j, v in fresh:
            k, r, cfg, n, s, nsh = j
            tag = (r['prog'], v['key'])
            if tag in seen:
                continue
            seen.add(tag)
            rp = os.path.join(HERE, 'replays', '%s-%s-%s-%d.json' % (pid, r['prog'], r.get('tag', cfg), v['case']))
            with open(rp, 'w') as f:
                json.dump({'property': pid, 'prog': r['prog'], 'tag': r.get('tag', ''), 'cfg': cfg, 'seed': seed, 'tier': tier, 'case': v['case'], 'key': v['key'], 'msg': v['msg'],
                           'how': 'python3 check.py %s --replay %s' % (pid, rp)}, f, indent=1)
            print('%s case %d: %s: %s' % (r['prog'], v['case'], v['key'], v['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if errs:
        for e in errs[:5]:
            print('INCONCLUSIVE: ' + e)
        return 2
    if not only and missing:
        print('INCONCLUSIVE: the monitors saw too little: ' + ', '.join('%s=%d (need %d)' % (k, counts.get(k, 0), plan['need'][k]) for k in missing))
        return 2
    print('%s held: %d cases, %d distinct, %.0f s (build %.0f s)' % (pid, counts.get('evaluations', 0), len(distinct), time.time() - t0, t_build))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Inconclusive as e:
        print('INCONCLUSIVE: %s' % e)
        sys.exit(2)
