#!/usr/bin/env python3
"""Decides one property of /repo with the symbolic executor in engine/.

usage: check.py ID [quick|thorough]     run a check, write evidence/ID.json
       check.py --replay FILE           run one recorded counterexample against the real code
"""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VP_REPO', '/repo'); B = V + '/build'
sys.path.insert(0, V + '/harness'); sys.dont_write_bytecode = True
INC = ['-I' + V + '/harness/shim', '-I' + V + '/harness']
BCFLAGS = '-std=c++14 -O1 -Xclang -disable-llvm-passes -emit-llvm -c -gline-tables-only -fno-vectorize -fno-slp-vectorize -ffp-contract=off -fno-strict-aliasing -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-math-errno -DVP_SYMBOLIC=1 -Wno-everything'.split()
NFLAGS = '-std=c++14 -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -ffp-contract=off -fno-omit-frame-pointer -w'.split()

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def engine():
    r = sh(['bash', V + '/engine/build.sh'])
    if r.returncode: sys.exit('engine build failed:\n' + r.stdout)

def sources(unit):
    s = sorted(os.path.join(REPO, 'lib/src', f) for f in os.listdir(REPO + '/lib/src') if f.endswith('.cpp'))
    if unit == 'tool': s += sorted(os.path.join(REPO, 'tool', f) for f in os.listdir(REPO + '/tool') if f.endswith('.cpp'))
    return s

def compile_all(spec, work, native=True, bitcode=True):
    """Compiles the current tree with the harness, to bitcode for the executor and natively for replay."""
    gen = work + '/inc'; os.makedirs(gen + '/VFC', exist_ok=True)
    open(gen + '/VFC/Export.h', 'w').write('#pragma once\n#define VFC_EXPORT\n')
    unit = spec['unit']; inc = INC + ['-I' + gen, '-I' + REPO + '/lib/include', '-I' + REPO + '/lib/src', '-I' + REPO + '/tool', '-isystem', '/opt/vp/deps/include']
    if not os.path.exists('/usr/include/glm/glm.hpp') and os.path.isdir(REPO + '/lib/glm'): inc += ['-isystem', REPO + '/lib/glm']
    if unit == 'tool' and spec.get('vfs'): inc = ['-I' + V + '/harness/vfs'] + inc
    srcs = sources(unit); jobs = []
    if spec.get('only'): srcs = [s for s in srcs if os.path.basename(s) in spec['only']]
    har = [V + '/harness/' + h for h in spec['harness']]
    extra = spec.get('flags', [])
    def d(s): return ['-Dmain=vfc_main'] if s.endswith('/tool/main.cpp') else []
    bc, ob = [], []
    for i, s in enumerate(srcs + har):
        if bitcode: o = '%s/%d.bc' % (work, i); bc.append(o); jobs.append(['clang++'] + BCFLAGS + extra + inc + d(s) + [s, '-o', o])
        if native: o = '%s/%d.o' % (work, i); ob.append(o); jobs.append(['g++'] + NFLAGS + extra + inc + d(s) + ['-c', s, '-o', o])
    if bitcode: o = work + '/support.bc'; bc.append(o); jobs.append(['clang++'] + BCFLAGS + ['-fno-builtin'] + INC + [V + '/harness/support.cpp', '-o', o])
    if native: o = work + '/replay.o'; ob.append(o); jobs.append(['g++'] + NFLAGS + INC + ['-c', V + '/harness/replay.cpp', '-o', o])
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(sh, jobs))
    for j, r in zip(jobs, res):
        if r.returncode: return 'compile failed: %s\n%s' % (' '.join(j), r.stdout[-3000:])
    if bitcode:
        r = sh([B + '/symex', '--prep', work + '/prog.bc'] + [b for b in bc])
        if r.returncode: return 'link failed\n' + r.stdout[-3000:]
    if native:
        r = sh(['g++'] + NFLAGS + ['-rdynamic'] + ob + ['-o', work + '/native', '-ldl'])
        if r.returncode: return 'native link failed\n' + r.stdout[-3000:]

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_malloc_fill_size=4096:malloc_fill_byte=190', UBSAN_OPTIONS='halt_on_error=1:exitcode=98', LC_ALL='C')
def native_run(work, entry, params, model, tag):
    m = '%s/m-%s.txt' % (work, tag)
    with open(m, 'w') as f: f.write(''.join(v['hex'] + '\n' for v in model))
    d = '%s/cwd-%s' % (work, tag); os.makedirs(d, exist_ok=True)
    try:
        def lim(): resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        p = subprocess.run([work + '/native', entry, ','.join(map(str, params)) or '-', m], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=40, cwd=d, preexec_fn=lim)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired: return 'timeout', ''
    finally: shutil.rmtree(d, ignore_errors=True)

def known_findings():
    """known-findings.txt: `finding: property=ID id=NAME text`; `fixed:` lines suppress nothing."""
    out = {}
    for l in open(V + '/known-findings.txt'):
        m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
        if m: out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out

import specs
def run(pid, tier):
    t0 = time.time(); spec = specs.SPECS[pid]; engine()
    work = '%s/work/%s-%s-%d' % (B, pid, tier, os.getpid()); shutil.rmtree(work, ignore_errors=True); os.makedirs(work + '/out')
    try: return run_in(pid, tier, spec, work, t0)
    finally:
        if not os.environ.get('VP_KEEP'): shutil.rmtree(work, ignore_errors=True)

def run_in(pid, tier, spec, work, t0):
    err = compile_all(spec, work)
    if err: print(err); sys.exit(3)
    tc = time.time() - t0
    jobs = spec['jobs'](tier); budget = 600 if tier == 'quick' else 6 * 3600
    lines = []
    for j in jobs: lines.append('%s %s %s %g %s' % (j['id'], j['entry'], ','.join(map(str, j.get('params', []))) or '-', j.get('timeout', 100 if tier == 'quick' else 1800), j.get('opts', '')))
    open(work + '/jobs.txt', 'w').write('\n'.join(lines) + '\n')
    cmd = [B + '/symex', work + '/prog.bc', work + '/jobs.txt', work + '/out', '-j', os.environ.get('VP_J', '8'), '-mem', '3600'] + (['-q', str(spec.get('q', 20000) if tier == 'quick' else 120000)])
    try: eng = sh(cmd, timeout=budget)
    except subprocess.TimeoutExpired: eng = None
    if eng and eng.stdout.strip(): print(eng.stdout[-2000:])
    res = []
    for j in jobs:
        try: r = json.load(open('%s/out/%s.json' % (work, j['id'])))
        except Exception as e: r = {'id': j['id'], 'entry': j['entry'], 'status': 'undecided', 'why': 'no result (time budget)'}
        r['params'] = j.get('params', []); r['job'] = j; res.append(r)
    # ---- replay: counterexamples and sample paths go through the real code, compiled natively with ASan and UBSan
    todo = []
    for r in res:
        for k, v in enumerate(r.get('violations', [])): todo.append((r, 'v', k, v))
        for k, t in enumerate(r.get('traces', [])): todo.append((r, 't', k, t))
    def go(x):
        r, kind, k, v = x; return native_run(work, r['entry'], r['params'], v['model'], '%s-%s%d' % (r['id'], kind, k))
    with cf.ThreadPoolExecutor(8) as ex: outs = list(ex.map(go, todo))
    viol, found, unconf, okt, mism = [], {}, [], 0, []
    for (r, kind, k, v), (rc, out) in zip(todo, outs):
        covers = re.findall(r'^COVER (.*)$', out, re.M); bad = rc not in (0, 77, 78, 2)
        what = '; '.join(re.findall(r'^ASSERT (.*)$', out, re.M)[:2]) or (re.findall(r'(SUMMARY: .*|runtime error: .*|terminate called.*|.*Assertion.*failed.*)', out) or ['exit %s' % rc])[0]
        if kind == 'v' and v['finding']:
            if ('FINDING ' + v['msg']) in out: found.setdefault(v['msg'], (r, v))
            else: unconf.append(dict(job=r['id'], finding=v['msg'], native='exit %s' % rc))
        elif kind == 'v':
            if bad: viol.append((r, v, what))
            else: unconf.append(dict(job=r['id'], kind=v['kind'], msg=v['msg'], where=v['where'], native='exit %s' % rc, model=v['model'][:12]))
        else:
            if bad and any(x[0] is r for x in viol): continue
            if bad: viol.append((r, dict(kind='replay', msg='a path the encoding accepts fails natively: ' + what, where='', model=v['model']), what))
            elif rc == 0 and covers == v['covers']: okt += 1
            else: mism.append(dict(job=r['id'], rc=rc, engine=v['covers'][:6], native=covers[:6], model=v['model'][:6]))
    known = known_findings(); rdir = V + '/evidence/replay/' + pid; shutil.rmtree(rdir, ignore_errors=True)
    rc = 0; nv = 0
    for fid, (r, v) in sorted(found.items()):
        if (pid, fid) in known: print('KNOWN-FINDING: property=%s %s: %s' % (pid, fid, known[(pid, fid)]))
        else: viol.append((r, v, 'finding %s is not listed' % fid))
    for (p, fid), text in sorted(known.items()):
        if p == pid and fid not in found: print('note: listed finding %s of %s did not show in this run' % (fid, pid))
    for r, v, what in viol[:12]:
        os.makedirs(rdir, exist_ok=True); nv += 1; path = '%s/%d.json' % (rdir, nv)
        json.dump(dict(property=pid, unit=spec['unit'], entry=r['entry'], params=r['params'], kind=v['kind'], msg=v['msg'], where=v.get('where'), native=what, model=v['model'], how='python3 /verif/check.py --replay ' + path), open(path, 'w'), indent=1)
        print('  %s: %s [%s] %s' % (r['id'], v['msg'], v.get('where', ''), what[:200])); print('VIOLATION property=%s replay=%s' % (pid, path)); rc = 1
    # ---- evidence
    S = lambda k: sum(r.get(k, 0) or 0 for r in res); Q = lambda k: sum((r.get('solver') or {}).get(k, 0) for r in res)
    fn = sorted(set(f for r in res for f in r.get('functions', []))); cov = {}
    for r in res:
        for c, n in (r.get('covers') or {}).items(): cov[c] = cov.get(c, 0) + n
    miss = []
    for r in res:
        for c in r['job'].get('covers', []):
            if r['status'] in ('proved', 'undecided') and not (r.get('covers') or {}).get(c): miss.append('%s: %s' % (r['id'], c))
    for c in spec.get('covers', []):
        if not cov.get(c): miss.append(c)
    und = [dict(job=r['id'], why=r.get('why', ''), undecided=r.get('undecided', [])[:6]) for r in res if r['status'] not in ('proved', 'violation')]
    samples = [dict(job=r['id'], inputs=[[m['name'], m['hex'][:160]] for m in t['model'][:16]], covers=t['covers'][:8]) for r in res for t in (r.get('traces') or [])[:1]][:12]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
      assumptions=spec.get('assume', []) + specs.COMMON_ASSUME,
      coverage=dict(states=S('paths'), transitions=S('insts'), traces_validated_against_impl=okt, samples=samples,
        rule='states = complete symbolic paths (each stands for every input satisfying its path condition); transitions = LLVM instructions executed symbolically',
        bounds=spec['bounds'](tier) if callable(spec['bounds']) else spec['bounds'], outside_bounds=spec.get('outside', ''),
        jobs=len(jobs), jobs_proved=sum(r['status'] == 'proved' for r in res), jobs_undecided=und, reachability_witnesses=cov, missing_witnesses=miss,
        functions_encoded=fn, forks=S('forks'), assertions_checked=S('asserts'), error_paths=S('error_paths'), symbolic_variables=S('vars'),
        queries=Q('queries'), query_cache_hits=Q('cache_hits'), queries_sat=Q('sat'), queries_unsat=Q('unsat'), queries_unknown=Q('unknown'), queries_real_proofs=Q('real_proofs'), queries_by_case_split=Q('cases'), queries_sat_by_candidate=Q('guessed'), solver_seconds=round(Q('seconds'), 2),
        max_query_seconds=round(max([(r.get('solver') or {}).get('max_seconds', 0) for r in res] or [0]), 2), compile_seconds=round(tc, 2),
        unconfirmed_counterexamples=unconf[:20], trace_mismatches=mism[:20], known_findings=sorted(found),
        per_job=[dict(id=r['id'], status=r['status'], paths=r.get('paths', 0), asserts=r.get('asserts', 0), queries=(r.get('solver') or {}).get('queries', 0), wall=round(r.get('wall', 0), 2)) for r in res]))
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    c = ev['coverage']
    print('%s %s: %d/%d jobs proved, %d paths, %d assertions, %d queries (%d unknown, %d by real arithmetic, %.1f s), %d traces validated, %d mismatched, %d unconfirmed, %d violations, %.1f s' % (pid, tier, c['jobs_proved'], c['jobs'], c['states'], c['assertions_checked'], c['queries'], c['queries_unknown'], c['queries_real_proofs'], c['solver_seconds'], okt, len(mism), len(unconf), len(viol), ev['wall_s']))
    for u in und: print('  undecided', u['job'], u['why'], '; '.join('%s x%s' % (x['what'], x['count']) for x in u['undecided'])[:300])
    for u in unconf[:6]: print('  unconfirmed', json.dumps(u)[:600])
    for m in mism[:6]: print('  mismatch', json.dumps(m)[:400])
    if miss: print('  missing witnesses:', miss[:10])
    return rc

def replay(path):
    d = json.load(open(path)); spec = specs.SPECS[d['property']]
    work = '%s/work/replay-%d' % (B, os.getpid()); os.makedirs(work)
    try:
        err = compile_all(spec, work, bitcode=False)
        if err: print(err); return 3
        rc, out = native_run(work, d['entry'], d['params'], d['model'], 'r'); print(out); print('exit', rc); return 1 if rc else 0
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
