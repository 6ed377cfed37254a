#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

usage: check.py PROPERTY [--only HARNESS] [--keep]

Builds the executor and the harness crate against /repo's working tree, lowers the harness (with all of
coffer, wtf-8 and std) to LLVM IR, runs every harness of the property symbolically, replays each
counterexample and a sample of passing paths natively, and writes evidence/<PROPERTY>.json."""
import signal, collections, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from prep import prep
import registry

ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
ENV.pop('RUSTFLAGS', None)
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
T0 = time.time()
TIMES = {}


class Fail(Exception):
    pass


def sh(cmd, cwd=None, env=ENV, timeout=600, what=''):
    t = time.time()
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if what:
        TIMES[what] = round(time.time() - t, 2)
    if p.returncode:
        raise Fail('%s failed:\n%s' % (' '.join(cmd)[:200], p.stdout.decode(errors='replace')[-6000:]))
    return p.stdout.decode(errors='replace')


def build_engine():
    src = [os.path.join(VERIF, 'engine', f) for f in ('symx.cpp', 'expr.cpp', 'ir.cpp')]
    hdr = [os.path.join(VERIF, 'engine', f) for f in ('expr.h', 'ir.h')]
    out = os.path.join(BUILD, 'symx')
    if os.path.exists(out) and all(os.path.getmtime(f) <= os.path.getmtime(out) for f in src + hdr):
        return out
    objs = []
    t = time.time()
    with cf.ThreadPoolExecutor(3) as ex:
        fs = []
        for s in src:
            o = os.path.join(BUILD, os.path.basename(s) + '.%d.o' % os.getpid())
            objs.append(o)
            fs.append(ex.submit(sh, ['g++', '-O2', '-std=c++17', '-c', s, '-o', o]))
        for f in fs:
            f.result()
    tmp = out + '.%d' % os.getpid()
    sh(['g++', *objs, '-lz3', '-o', tmp])
    os.replace(tmp, out)
    for o in objs:
        os.remove(o)
    TIMES['engine'] = round(time.time() - t, 2)
    return out


def harness_dir(work):
    """A private copy of the harness crate, so that nothing is written next to the committed files."""
    d = os.path.join(work, 'harness')
    shutil.copytree(os.path.join(VERIF, 'harness'), d, ignore=shutil.ignore_patterns('target'))
    # the dependency versions are those of /repo's lock file
    repo = os.environ.get('VERIF_REPO', '/repo')
    if repo != '/repo':
        p = os.path.join(d, 'Cargo.toml')
        s = open(p).read().replace('"/repo', '"' + repo)
        open(p, 'w').write(s)
    shutil.copy(os.path.join(repo, 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
    return d


def build_native(hd, work):
    sh(['cargo', 'build', '--target-dir', os.path.join(work, 'tn')], cwd=hd, what='native build')
    return os.path.join(work, 'tn', 'debug', 'harness')


def build_ir(hd, work, entries):
    td = os.path.join(work, 'ti')
    sh(['cargo', 'rustc', '--profile', 'sym', '--features', 'sym', '--target-dir', td, '--', '--emit=llvm-ir', '-C', 'linker=/bin/true'], cwd=hd, what='rustc to LLVM IR')
    deps = os.path.join(td, 'sym', 'deps')
    lls = [f for f in os.listdir(deps) if f.startswith('harness') and f.endswith('.ll')]
    if len(lls) != 1:
        raise Fail('expected one IR file, got %r' % lls)
    p, q, r = (os.path.join(work, x) for x in ('p.ll', 'q.ll', 'r.ll'))
    t = time.time()
    prep(os.path.join(deps, lls[0]), p)
    root = sh(['rustc', '--print', 'sysroot']).strip()
    opt = os.path.join(root, 'lib/rustlib/x86_64-unknown-linux-gnu/bin/opt')
    sh([opt, '-S', '-passes=internalize,globaldce', '--internalize-public-api-list=' + ','.join(entries), p, '-o', q])
    fn = 'function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)'
    sh([opt, '-S', '-passes=%s,cgscc(inline),%s,globaldce' % (fn, fn), q, '-o', r])
    TIMES['IR preparation'] = round(time.time() - t, 2)
    os.remove(p)
    os.remove(q)
    shutil.rmtree(td, ignore_errors=True)
    return r


def run_symx(symx, ir, work, h, tier, budget, extra=(), suffix=''):
    out = os.path.join(work, h.name + ('.' + '_'.join(x.strip('-') for x in extra) if extra else '') + suffix + '.json')
    params = h.params(tier)
    cmd = [symx, ir, h.entry, '--out', out, '--time', str(budget), '--sample', '6', *h.opts, *extra]
    for p in params:
        cmd += ['--param', str(p)]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    try:
        err = p.communicate(timeout=budget + 25)[1]
    except subprocess.TimeoutExpired:
        # a single step (one query, say) outlasted the budget: end the executor and its workers
        os.killpg(p.pid, signal.SIGKILL)
        err = p.communicate()[1]
        r = parse(out, 0, '', time.time() - t, params)
        r['errors'] = []
        r['inc']['executor ended after its time limit @ '] += 1
        return r
    return parse(out, p.returncode, err.decode(errors='replace'), time.time() - t, params)


def parse(out, rc, err, wall, params):
    r = dict(rc=rc, wall=wall, params=params, viol=[], long=[], inc=collections.Counter(), errors=[], paths=[], stats=collections.Counter(), ends=collections.Counter(),
             covers=collections.Counter(), labels=collections.Counter(), functions=collections.Counter(), maxq=0.0, ended=False)
    try:
        lines = open(out, errors='replace').read().splitlines()
    except OSError:
        lines = []
    for l in lines:
        try:
            d = json.loads(l)
        except ValueError:
            r['errors'].append('bad output line')
            continue
        t = d['type']
        if t == 'violation':
            r['viol'].append(d)
        elif t == 'inconclusive':
            if d['why'] == 'instruction limit per path':
                r['long'].append(d)
            r['inc'][d['why'] + ' @ ' + (d['stack'][0] if d['stack'] else '')] += 1
        elif t == 'error':
            r['errors'].append(d['msg'])
        elif t == 'path':
            r['paths'].append(d)
        elif t == 'stats':
            for k, v in d.items():
                if isinstance(v, (int, float)):
                    if k == 'max_query_secs':
                        r['maxq'] = max(r['maxq'], v)
                    else:
                        r['stats'][k] += v
            for k in ('ends', 'covers', 'labels', 'functions'):
                r[k].update(d[k])
        elif t == 'end':
            r['ended'] = True
    if rc not in (0, 1, 4) or not r['ended']:
        r['errors'].append('executor exit %s: %s' % (rc, err[-400:]))
    return r


def fmt_inputs(inputs):
    return ' '.join('%d:%d' % (w, v) for w, v in inputs)


def native(binary, h, params, lines, work, timeout=120):
    f = tempfile.NamedTemporaryFile('w', suffix='.in', dir=work, delete=False)
    f.write(' '.join(map(str, params)) + '\n' + '\n'.join(lines) + '\n')
    f.close()
    try:
        p = subprocess.run([binary, h.entry, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, [], 'timeout'
    res = []
    for l in p.stdout.decode(errors='replace').splitlines():
        try:
            res.append(json.loads(l))
        except ValueError:
            pass
    return p.returncode, res, p.stderr.decode(errors='replace')[-500:]


def replay(binary, h, params, v, work, tries=24):
    """Does the counterexample fail against the real code? Returns (reproduced, what happened)."""
    last = ''
    for i in range(tries if h.nondet else 3):
        rc, res, err = native(binary, h, params, [fmt_inputs(v['inputs'])], work)
        if rc is None:
            return True, 'did not terminate within 120 s'
        r = res[0] if res else None
        if rc < 0:
            return True, 'killed by signal %d %s' % (-rc, err.strip()[-200:])
        if r and r['r'] in ('check', 'panic', 'alloc'):
            return True, r['r'] + ': ' + r['label']
        last = 'native outcome %s' % (r['r'] if r else 'none rc=%s' % rc)
    return False, last


def main():
    args = sys.argv[1:]
    if args[0] == '--setup':
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        return 0
    prop = args[0]
    only = args[args.index('--only') + 1] if '--only' in args else None
    keep = '--keep' in args
    tier = 'thorough' if (os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in args) else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = registry.PROPS[prop]
    hs = [h for h in P.harnesses if (tier == 'thorough' or not h.thorough_only) and (not only or h.name == only)]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='chk-%s-' % prop, dir=BUILD)
    try:
        return decide(prop, P, hs, tier, seed, work)
    except Fail as e:
        print('ERROR property=%s %s' % (prop, e))
        return 3
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)


def decide(prop, P, hs, tier, seed, work):
    hd = harness_dir(work)
    with cf.ThreadPoolExecutor(3) as ex:
        fe = ex.submit(build_engine)
        fi = ex.submit(build_ir, hd, work, [h.entry for h in hs])
        fn = ex.submit(build_native, hd, work)
        symx, ir, binary = fe.result(), fi.result(), fn.result()
    built = time.time() - T0
    total = float(os.environ.get('VERIF_BUDGET', '780' if tier == 'quick' else '7000'))
    # all harnesses share the machine: up to 4 at a time, each with work-sharing over the cores
    results = {}
    lock = threading.Lock()

    def job(h):
        left = max(20.0, total - (time.time() - T0) - 30)
        r = run_symx(symx, ir, work, h, tier, min(left, h.limit(tier)))
        with lock:
            results[h.name] = r
            print('  %-26s %6.1fs paths=%d queries=%d %s%s' % (h.name, r['wall'], r['stats']['paths_ok'], r['stats']['queries'], 'viol=%d ' % len(r['viol']) if r['viol'] else '', ('INCOMPLETE %s' % r['inc'].most_common(1)) if r['inc'] else ''), flush=True)
        return r
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(job, sorted(hs, key=lambda h: -h.cost)))
    # verdicts
    violations, unreproduced, errors, incomplete, vacuous, known_hit = [], [], [], [], [], []
    validated = mism = 0
    samples = []
    findings = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['known'] if k['property'] == prop]
    for h in hs:
        r = results[h.name]
        pend = r['viol']
        rep = [(v,) + replay(binary, h, r['params'], v, work) for v in pend[:12]]
        bad = [x for x in rep if not x[1]]
        if bad and not any(x[1] for x in rep):
            # abstracted formatting or hashing may have produced it: decide again with the real functions
            r2 = run_symx(symx, ir, work, h, tier, min(max(20.0, total - (time.time() - T0) - 30), h.limit(tier)), ('--real-fmt', '--real-hash'))
            r2['stats'].update({k: v for k, v in r['stats'].items()})
            results[h.name] = r = r2
            rep = [(v,) + replay(binary, h, r['params'], v, work) for v in r['viol'][:12]]
            bad = [x for x in rep if not x[1]]
        for v, ok, what in rep:
            if not ok:
                unreproduced.append((h, v, what))
                continue
            k = next((k for k in findings if k['harness'] == h.name and k['kind'] == v['kind'] and re.search(k['match'], v['label'] + ' ' + v['loc'] + ' ' + what)), None)
            if k:
                known_hit.append((k, h, v))
            else:
                violations.append((h, v, what, r['params']))
        for d in r['long'][:1]:
            # a path that the executor gave up on: does the real code come to an end?
            if native(binary, h, r['params'], [fmt_inputs(d['inputs'])], work)[0] is None:
                violations.append((h, dict(kind='hang', label='no end', loc='', inputs=d['inputs'], stack=d['stack']), 'did not terminate within 120 s', r['params']))
        for e in r['errors']:
            errors.append('%s: %s' % (h.name, e))
        if r['inc'] or r['ends'].get('time-limit') or r['ends'].get('stopped'):
            incomplete.append('%s: %s' % (h.name, '; '.join('%s x%d' % x for x in r['inc'].most_common(3))))
        miss = [c for c in h.covers if not r['covers'].get(c)]
        if miss and not r['viol'] and not r['inc'] and not r['errors']:
            vacuous.append('%s: never reached %s' % (h.name, miss))
        # differential validation of the executor: passing paths must behave the same natively
        ps = r['paths']
        if ps:
            step = max(1, len(ps) // 40)
            sel = ps[seed % step::step][:40]
            rc, res, err = native(binary, h, r['params'], [fmt_inputs(p['inputs']) for p in sel], work)
            if rc != 0 and not h.nondet:
                errors.append('%s: native run of sampled paths ended with %s %s' % (h.name, rc, err))
            for p, q in zip(sel, res):
                if q['r'] == 'ok' and (h.nondet or q['obs'] == p['obs']):
                    validated += 1
                elif h.nondet and q['r'] in ('check', 'panic'):
                    v = dict(kind=q['r'], label=q['label'], loc='', inputs=p['inputs'], stack=[])
                    violations.append((h, v, q['r'] + ': ' + q['label'], r['params']))
                else:
                    mism += 1
                    errors.append('%s: executor and native run disagree on %s: native %s %s, executor ok %s' % (h.name, fmt_inputs(p['inputs'])[:300], q['r'], q['label'], ''))
            samples += [dict(harness=h.name, inputs=fmt_inputs(p['inputs'])[:400], observed=p['obs'][:24]) for p in sel[:2]]
    cross = []
    if tier == 'thorough':
        # the same harnesses at their quick bounds with and without the finite-domain step: z3 alone must come to the same answer
        for h in hs:
            left = total - (time.time() - T0) - 60
            if left < 60:
                break
            if h.thorough_only or results[h.name]['viol']:
                continue
            a = run_symx(symx, ir, work, h, 'quick', min(150, left), suffix='.x')
            b = run_symx(symx, ir, work, h, 'quick', min(300, left), ('--no-fd',))
            done = not (a['inc'] or b['inc'] or a['errors'] or b['errors'])
            cross.append(dict(harness=h.name, complete=done, paths=a['stats']['paths_ok'], paths_z3_only=b['stats']['paths_ok'], queries_z3_only=b['stats']['queries'], solver_seconds_z3_only=round(b['stats']['solver_secs'], 1)))
            if done and (a['stats']['paths_ok'] != b['stats']['paths_ok'] or bool(a['viol']) != bool(b['viol'])):
                errors.append('%s: the answer changes without the finite-domain step: %s' % (h.name, cross[-1]))
    wall = time.time() - T0
    stats = collections.Counter()
    funcs = set()
    for r in results.values():
        stats.update(r['stats'])
        funcs.update(f for f in r['functions'] if 'coffer' in f or 'wtf' in f)
    evidence(prop, P, hs, tier, seed, results, stats, funcs, validated, samples, wall, violations, known_hit, incomplete, vacuous, built, errors, cross)
    rc = 0
    if violations:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for i, (h, v, what, params) in enumerate(violations):
            key = (h.name, v['kind'], v['label'])
            if key in seen:
                continue
            seen.add(key)
            f = os.path.join(rd, '%s-%s-%d.json' % (prop, h.name, i))
            json.dump(dict(property=prop, harness=h.entry, params=params, inputs=v['inputs'], kind=v['kind'], label=v['label'], location=v['loc'], native=what, stack=v.get('stack'),
                           replay='cd /verif/harness && cargo build; then: target/debug/harness %s FILE with FILE = first line "%s", second line "%s"' % (h.entry, ' '.join(map(str, params)), fmt_inputs(v['inputs']))), open(f, 'w'), indent=1)
            print('  counterexample in %s: %s [%s] native: %s' % (h.name, v['label'], v['loc'], what[:300]))
            print('VIOLATION property=%s replay=%s' % (prop, f))
        rc = 1
    seen = set()
    for k, h, v in known_hit:
        if k['id'] not in seen:
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for x in incomplete:
        print('INCOMPLETE property=%s %s' % (prop, x))
    if rc == 0:
        for h, v, what in unreproduced:
            print('ERROR property=%s counterexample of %s not reproduced natively: %s %s (%s) inputs %s' % (prop, h.name, v['label'], v['loc'], what, fmt_inputs(v['inputs'])[:300]))
        for e in errors + vacuous:
            print('ERROR property=%s %s' % (prop, e))
        if unreproduced or errors or vacuous:
            rc = 3
    print('%s %s: %s  paths=%d queries=%d solver=%.1fs validated=%d wall=%.0fs (build %.0fs)' % (prop, tier, {0: 'HOLDS within bounds', 1: 'VIOLATED', 3: 'NO ANSWER'}[rc], stats['paths_ok'], stats['queries'], stats['solver_secs'], validated, wall, built))
    return rc


def demangle(n):
    # v0 symbol names: keep the readable path segments
    segs = re.findall(r'(\d+)([A-Za-z_]\w*)', n)
    out = []
    for num, rest in segs:
        k = int(num)
        if 0 < k <= len(rest):
            out.append(rest[:k])
    return '::'.join(out[:8]) or n


def evidence(prop, P, hs, tier, seed, results, stats, funcs, validated, samples, wall, violations, known_hit, incomplete, vacuous, built, errors, cross):
    per = []
    for h in hs:
        r = results[h.name]
        per.append(dict(harness=h.name, what=h.what, bounds=h.bounds(tier), params=r['params'], paths=r['stats']['paths_ok'], refused_paths=r['stats']['panic_ok'], assertions=dict(r['labels']), assertion_checks=r['stats']['checks'], decided_by_solver=r['stats']['checks_solver'],
                        smt_queries=r['stats']['queries'], sat=r['stats']['sat'], unsat=r['stats']['unsat'], query_cache_hits=r['stats']['cache_hits'], finite_domain_decisions=r['stats']['fd'], solver_seconds=round(r['stats']['solver_secs'], 2), slowest_query_s=r['maxq'], instructions=r['stats']['instrs'], forks=r['stats']['forks'],
                        reached=dict(r['covers']), path_ends=dict(r['ends']), wall_s=round(r['wall'], 1), complete=not (r['inc'] or r['errors'])))
    ev = dict(property=prop, tier=tier, seed=seed, level=P.level, violations=len(violations), wall_s=round(wall, 1),
              coverage=dict(states=stats['paths_ok'], transitions=stats['instrs'], traces_validated_against_impl=validated, samples=samples[:12] or ['none'],
                            exhaustive=not incomplete and not errors,
                            rule='states: complete execution paths, each standing for all inputs that satisfy its path condition; transitions: LLVM instructions executed symbolically',
                            harnesses=per, smt_queries=stats['queries'], smt_sat=stats['sat'], smt_unsat=stats['unsat'], solver_seconds=round(stats['solver_secs'], 2), assertions_checked=stats['checks'], assertions_decided_by_solver=stats['checks_solver'],
                            functions_encoded=len(funcs), functions=sorted({demangle(f) for f in funcs})[:400], build_seconds=TIMES, incomplete=incomplete, vacuous=vacuous, known_findings=[k['id'] for k, _, _ in known_hit], **({'z3_cross_check': cross} if cross else {})),
              assumptions=P.assumptions)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
