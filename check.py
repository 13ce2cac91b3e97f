#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current working tree.

1. compile every specification unit of the property together with the real headers to LLVM IR (clang);
2. generate and discharge every obligation of every harness (vc/symex.py: z3, second opinion cvc5);
3. when an obligation fails, search for a failing input on the real code (replay/<PROPERTY>.cpp, seeded with the
   verifier's counterexample) and report the violation;
4. when obligations cannot be generated or decided (tool limit), the bounded native driver stands in, and says so."""
import sys, os, json, subprocess, time, tempfile, shutil, re, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/specs')
import registry
REPO = os.environ.get('KTL_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1'))
CXX = 'clang++-18'; OPT = 'opt-18'; PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY): PY = shutil.which('python3-vt') or PY
NPROC = int(os.environ.get('VC_JOBS', '8'))

def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, env=env, start_new_session=True, errors='replace')
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except Exception: pass
        p.communicate()
        return -9, '', 'timeout after %ss' % timeout

# ------------------------------------------------------------------ renamed private members
def fields_of(work):
    """class -> [(field, type)] in order, from clang's view of the current headers"""
    src = work + '/fields.cpp'
    open(src, 'w').write('#include "vc.h"\n#include <cstring>\n#include "ktl/ktl.h"\n')
    rc, o, e = sh([CXX, '-std=c++17', '-I' + REPO + '/include', '-I' + V + '/specs', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=ktl::', '-fno-access-control', src], 120)
    out = {}
    dec = json.JSONDecoder(); i = 0
    o = re.sub(r'(?m)^Dumping .*$', '', o)
    while True:
        while i < len(o) and o[i] in ' \n\r\t': i += 1
        if i >= len(o): break
        try: d, i = dec.raw_decode(o, i)
        except ValueError: break
        def walk(n, path):
            k = n.get('kind')
            if k in ('NamespaceDecl', 'ClassTemplateDecl', 'CXXRecordDecl', 'ClassTemplatePartialSpecializationDecl', 'TranslationUnitDecl'):
                p = path
                if k in ('CXXRecordDecl', 'ClassTemplatePartialSpecializationDecl'):
                    p = path + [n.get('name', '?')]
                    fs = [(c['name'], c.get('type', {}).get('qualType', '')) for c in n.get('inner', []) if c.get('kind') == 'FieldDecl' and 'name' in c]
                    if fs:
                        key = '::'.join(p); j = 0
                        while key in out and out[key] != fs: j += 1; key = '::'.join(p) + '#%d' % j
                        out[key] = fs
                for c in n.get('inner', []): walk(c, p)
        walk(d, [])
    return out
def rename_flags(work):
    """-D flags that map the member names the specifications use to the names the current tree uses"""
    try: base = json.load(open(V + '/specs/fields.json'))
    except Exception: return []
    cur = fields_of(work); mp = {}
    for c, fs in base.items():
        g = cur.get(c)
        if not g or len(g) != len(fs): continue
        gn = [x[0] for x in g]; fn = [x[0] for x in fs]
        for (a, ta), (b, tb) in zip(fs, g):
            if a != b and a not in gn and b not in fn: mp[a] = b
    return ['-D%s=%s' % x for x in sorted(mp.items())]

# ------------------------------------------------------------------ compile
def flags(unit):
    f = ['-std=c++17', '-I' + REPO + '/include', '-I' + V + '/specs', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-access-control', '-gline-tables-only', '-w']
    return f + ['-D' + d for d in unit.get('defs', [])] + unit.get('flags', [])
class Compiler:
    def __init__(s, work): s.work = work; s.lock = threading.Lock(); s.ren = None
    def build(s, idx, unit):
        o = '%s/u%d' % (s.work, idx)
        src = V + '/specs/' + unit['spec'] + '.cpp'
        rc, _, e = sh([CXX] + flags(unit) + [src, '-o', o + '.ll'], 120)
        note = ''
        if rc != 0 and 'no member named' in e:
            with s.lock:
                if s.ren is None: s.ren = rename_flags(s.work)
            if s.ren:
                rc, _, e2 = sh([CXX] + flags(unit) + s.ren + [src, '-o', o + '.ll'], 120); note = ' '.join(s.ren)
        if rc != 0: return None, 'does not compile: ' + e[:3000], note
        rc, _, e = sh([OPT, '-S', '-passes=function(sroa,loop-simplify)', o + '.ll', '-o', o + '.2.ll'], 120)
        if rc != 0: return None, 'opt failed: ' + e[:2000], note
        return o + '.2.ll', None, note

def tagok(label, prop):
    m = re.match(r'^((?:[A-Z]\d\d,?)+): ', label)
    return not m or prop in m.group(1).split(',')

# ------------------------------------------------------------------ native driver
def run_driver(prop, work, hints, seconds, why):
    src = V + '/replay/%s.cpp' % prop
    if not os.path.exists(src): return dict(ran=False, note='no driver')
    res = dict(ran=True, cases=0, failures=[], log='')
    variants = registry.DRIVERS.get(prop, [dict()])
    for k, var in enumerate(variants):
        exe = '%s/drv%d' % (work, k)
        cmd = [CXX, '-std=c++17', '-g', '-O1', '-w', '-fsanitize=address,undefined' if var.get('san', 'asan') == 'asan' else '-fsanitize=thread', '-fno-sanitize-recover=undefined', '-fno-sanitize=nonnull-attribute,pointer-overflow', '-I' + REPO + '/include', '-I' + V + '/replay'] + ['-D' + d for d in var.get('defs', [])] + [src, '-o', exe, '-lpthread']
        rc, o, e = sh(cmd, 240)
        if rc != 0: res['log'] += 'driver does not compile:\n' + e[:3000]; res['ran'] = res.get('ran') and False; res['note'] = 'driver does not compile'; continue
        env = dict(os.environ, ASAN_OPTIONS='allocator_may_return_null=1:detect_leaks=0:abort_on_error=0:symbolize=1:max_allocation_size_mb=2048', UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='exitcode=66:allocator_may_return_null=1')
        hs = [str(h) for h in hints][:64]
        rc, o, e = sh([exe, str(SEED), str(seconds)] + hs, seconds + 60, cwd=work, env=env)
        m = re.search(r'CASES (\d+)', o)
        if m: res['cases'] += int(m.group(1))
        if rc == 0: continue
        if rc == -9: res['failures'].append(dict(kind='no answer in time (possible endless loop)', cmd=' '.join([exe] + hs), out=o[-4000:])); continue
        if not (rc == 3 or rc < 0 or any(x in o + e for x in ('FAIL:', 'ERROR: AddressSanitizer', 'runtime error:', 'WARNING: ThreadSanitizer'))):
            res['log'] += 'driver ended with %d: %s' % (rc, (o + e)[-1500:]); continue   # a problem of the tools, not of the code
        res['failures'].append(dict(kind='exit %d' % rc, args=[str(SEED), str(seconds)] + hs, defs=var.get('defs', []), out=o[-6000:], err=e[-6000:]))
        break
    return res

def demangle(names):
    if not names: return {}
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    P = registry.PROPS[prop]
    work = tempfile.mkdtemp(prefix='ktlvc_')
    try: rc = check(prop, P, tier, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(prop, P, tier, work, t0):
    units = [u for u in P if tier == 'thorough' or u.get('tier', 'quick') == 'quick']
    comp = Compiler(work)
    budget = 420 if tier == 'quick' else 3000
    tmo = 20000 if tier == 'quick' else 60000
    results = []; inconclusive = []; notes = []
    with ThreadPoolExecutor(NPROC) as pool:
        builds = list(pool.map(lambda iu: comp.build(*iu), enumerate(units)))
        jobs = []
        for u, (ll, err, note) in zip(units, builds):
            if note: notes.append('members were renamed in the tree: ' + note)
            if err: inconclusive.append('%s %s: %s' % (u['spec'], u.get('defs', ''), err)); continue
            for h in u['harness']:
                jobs.append((u, ll, h))
        fast = os.environ.get('VC_FAST'); hit = []     # development: stop at the first failed obligation
        def prove(j):
            u, ll, h = j
            if hit: return (u, h, dict(err='skipped'))
            left = budget - (time.time() - t0)
            if left < 5: return (u, h, dict(err='time budget of the check exhausted'))
            rc, o, e = sh(['/bin/bash', '-c', 'ulimit -v 12000000; exec "$0" "$@"', PY, V + '/vc/run1.py', ll, 'h_' + h, str(u.get('tmo', tmo)), tier, str(int(left))], left + 20)
            try: r = json.loads(o.strip().split('\n')[-1])
            except Exception: r = dict(err='verifier ended with %s: %s' % (rc, e[-1500:]))
            if fast and any(o['status'] == 'sat' and tagok(o['label'], prop) for o in r.get('obligs', [])): hit.append(1)
            return (u, h, r)
        jobs.sort(key=lambda j: -j[0].get('cost', 1) if not fast else j[0].get('cost', 1))
        results = list(pool.map(prove, jobs))
    base = {}
    try: base = json.load(open(V + '/specs/baseline.json'))
    except Exception: pass
    known = load_known(prop)
    nob = ndis = 0; failed = []; unk = []; qtime = 0.0; backs = {}; funcs = set(); models = set(); contracts = set(); loops = []; hlist = []; unw = 0; kf = []; times = []
    newbase = {}
    for u, h, r in results:
        key = hkey(u, h)
        if r.get('err'): inconclusive.append('%s: %s' % (key, r['err']))
        obs = [o for o in r.get('obligs', []) if tagok(o['label'], prop)]
        reach = r.get('reach', {})
        newbase[key] = sorted(l for l in reach)
        nob += len(obs); qtime += r.get('qtime', 0)
        for b, n in r.get('backends', {}).items(): backs[b] = backs.get(b, 0) + n
        funcs |= set(r.get('functions', [])); models |= set(r.get('models', [])); contracts |= {'%s -> %s' % tuple(c) for c in r.get('contracts', [])}; loops += r.get('loops', [])
        for o in obs:
            if o['status'] == 'unsat': ndis += 1
            else:
                kn = next((k for k in known if k['harness'] == key and k['label'] == o['label']), None)
                if kn: kf.append(kn); continue
                (failed if o['status'] == 'sat' else unk).append(dict(o, harness=key))
        if not r.get('err'):
            if not r.get('obligs'): inconclusive.append(key + ': no obligation was generated')
            for l, x in reach.items():
                if x == 'unsat': inconclusive.append('%s: the contract is vacuous at "%s"' % (key, l))
            if not any(o['status'] != 'unsat' for o in r.get('obligs', [])):
                for l in base.get(key, []):
                    if l not in reach: inconclusive.append('%s: situation "%s" is never reached' % (key, l))
        hlist.append(dict(harness=key, obligations=len(obs), discharged=len([o for o in obs if o['status'] == 'unsat']), seconds=round(r.get('time', 0), 2), queries=r.get('queries', 0), reached=sorted(reach), limit=r.get('err')))
    if os.environ.get('VC_BASELINE'):
        base.update(newbase); json.dump(base, open(V + '/specs/baseline.json', 'w'), indent=0, sort_keys=True)
    for o in unk: inconclusive.append('%s: "%s" at %s not decided (%s)' % (o['harness'], o['label'], o['where'], o['status']))
    if os.environ.get('VC_SHOW'):
        for o in failed: print('FAILED', o['harness'], '|', o['label'], '|', o['where'], '|', o['model'])
        for i in inconclusive: print('INCONCLUSIVE', i)
        for hh in hlist: print('  ', hh['harness'], hh['discharged'], '/', hh['obligations'], hh['seconds'], 's')
    # ------------------------------------------------ second stage
    rc = 0; violations = 0; drv = None; level = 'proof'
    proven = not failed and not inconclusive
    if not proven or tier == 'thorough':
        hints = []
        for o in failed:
            for k, v in (o.get('model') or {}).items():
                if v not in hints: hints.append(v)
        drv = dict(ran=True, cases=0) if os.environ.get('VC_FAST') and (failed or os.environ['VC_FAST'] == '2') else run_driver(prop, work, hints, (40 if not proven else 60) if tier == 'quick' else 120, 'obligations failed' if failed else 'obligations not decided')
    if failed or (drv and drv.get('failures')):
        os.makedirs(V + '/out', exist_ok=True)
        path = V + '/out/%s.violation.json' % prop
        dm = demangle(sorted(funcs))
        json.dump(dict(property=prop, failed_obligations=failed[:40], undecided=inconclusive[:40], repo=REPO,
                       reproduce_obligation='cd /verif && VC_SHOW=1 python3 check.py %s %s' % (prop, tier),
                       concrete=(drv or {}).get('failures', []), driver_log=(drv or {}).get('log', ''),
                       reproduce_concrete='clang++-18 -std=c++17 -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=nonnull-attribute,pointer-overflow -I/repo/include -I/verif/replay /verif/replay/%s.cpp -o drv -lpthread && ./drv %d 40' % (prop, SEED)), open(path, 'w'), indent=1)
        concrete = bool(drv and drv.get('failures'))
        for o in failed[:20]: print('failed obligation: %s: "%s" at %s' % (o['harness'], o['label'], short(o['where'])))
        if concrete: print('failing input on the real code: ' + first_fail(drv['failures'][0]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if concrete else ' no-failing-input-found'))
        rc = 1; violations = 1
    elif inconclusive:
        for i in inconclusive[:20]: print('not decided by the verifier: ' + i[:600])
        if drv and drv.get('ran'):
            print('BOUNDED: the native driver stands in for the undecided obligations; it explored %d cases and found no violation' % drv.get('cases', 0))
            level = 'exploration'
        else:
            print('NO ANSWER for property %s' % prop); rc = 2
    for k in {k['what']: k for k in kf}.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    dm = demangle(sorted(funcs))
    fl = sorted({re.sub(r'<.*', '', re.sub(r'\(.*', '', dm.get(f, f))) + '' for f in funcs if 'ktl' in f})
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='python3 /verif/check.py %s %s' % (prop, tier),
               trusted_base=registry.TRUSTED, harnesses=hlist, functions_under_contract=sorted({dm.get(f, f) for f in funcs if 'ktl' in f}),
               solver_seconds=round(qtime, 1), obligations_by_backend=backs, loops_with_invariants=loops,
               modelled_externals=sorted(models), calls_by_contract=sorted(contracts), undecided=inconclusive[:20], failed=[dict(harness=o['harness'], label=o['label'], where=short(o['where'])) for o in failed], notes=sorted(set(notes)))
    if drv: cov['bounded_driver'] = dict(cases=drv.get('cases', 0), ran=drv.get('ran'), failures=len(drv.get('failures', [])))
    if level == 'exploration':
        cov.update(evaluations=drv.get('cases', 0), distinct_nontrivial=drv.get('cases', 0), rule='random and boundary operation histories of the native driver replay/%s.cpp, distinct seeds; stands in for undecided obligations' % prop, samples=inconclusive[:3])
    ev = dict(property=prop, tier=tier, seed=SEED, level=level, coverage=cov, assumptions=registry.ASSUME + registry.ASSUME_P.get(prop, []), wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d harnesses, %.1fs' % (prop, nob, ndis, len(hlist), time.time() - t0))
    return rc
def first_fail(f):
    for l in (f.get('out', '') + '\n' + f.get('err', '')).split('\n'):
        if l.startswith('FAIL') or 'ERROR: ' in l or 'runtime error' in l or 'WARNING: ThreadSanitizer' in l: return l[:400]
    return f.get('kind', '')
def short(w): return w.replace(REPO, '').split('/include/')[-1]
def hkey(u, h): return '%s[%s]:%s' % (u['spec'], ','.join(u.get('defs', [])), h)
def load_known(prop):
    try: d = json.load(open(V + '/known_findings.json'))
    except Exception: return []
    return [k for k in d.get('known', []) if k['property'] == prop]
main()
