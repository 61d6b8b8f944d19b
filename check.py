#!/usr/bin/env python3
"""Decides one property of wadec by symbolic execution of its compiled code.

  check.py C05            decide the property (tier from VERIF_TIER: quick or thorough)
  check.py C05 --list     the jobs of the tier
  check.py --build        only build the machinery
  check.py --replay FILE  run a recorded counterexample against the real code again
"""
import argparse, hashlib, json, os, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import eng
from tpl import show

VERIF = eng.VERIF
KINDS = {2**64 - 1: 'memory fault or trap', 2**64 - 2: 'more memory than allowed', 2**64 - 3: 'panic', 2**64 - 4: 'stack exhausted', 2**64 - 5: 'does not end', 2**64 - 6: 'more work than allowed'}
ASSERT = {1: 'the decoder and the reference disagree', 2: 'the result depends on how the bytes are delivered', 3: 'a failing reader did not make decoding fail',
          4: "the reader's error is not the innermost cause", 5: 'the reader was read again after it failed', 6: 'a custom section changed the outcome',
          7: 'an error renders as nothing or its chain does not end', 8: 'the offending byte is not shown', 9: 'a prefix that does not end at a section boundary was accepted',
          10: 'a prefix decodes to something else than its sections', 11: "the displayed chain does not end with the reader's error",
          12: 'the result depends on what was decoded before', 13: 'the result depends on another decoding in progress', 14: 'a byte the message names as expected is rejected in the same way', 15: 'an acceptable byte is missing from those the message names', 16: 'decoding the same bytes twice gives modules that differ', 17: 'modules compare equal but differ, or the other way round',
          18: 'the messages do not name the section', 19: 'the messages do not show the positions', 24: 'the messages do not show what was found',
          20: 'the input is a module but the exit status is not zero', 21: 'the input is no module but the exit status is zero', 22: 'the error or one of its causes is not printed', 23: 'the module is not printed although asked for', 25: 'the debug representation of the error is not printed although asked for'}
SUFFIX = ''          # '-cli' where the command line program is what runs


def known_findings(prop):
    """lines 'known: property=ID finding=NAME violation=KIND text'"""
    k = {}
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            w = l.split()
            if len(w) > 4 and w[0] == 'known:' and w[1] == f'property={prop}':
                k[w[2].split('=', 1)[1]] = (w[3].split('=', 1)[1], ' '.join(w[4:]))
    except OSError:
        pass
    return k


def native(profile, job, hexbytes, timeout=60):
    out, rc, err = eng.replay(profile + SUFFIX, [eng.jobline(job, hexbytes)], timeout=timeout, verbose=True)
    last = out[-1] if out else ''
    if rc == 'timeout':
        return True, f'did not end within {timeout} s', out
    if rc != 0:
        msg = [l for l in err.splitlines() if 'panicked' in l or 'overflow' in l or 'SIG' in l]
        return True, f'ended abnormally ({rc}): ' + ' '.join(msg[:2] or err.splitlines()[:2]), out
    if last.startswith('assert '):
        n = int(last.split()[1])
        return True, f'assertion {n} failed: {ASSERT.get(n, "")}', out
    if last.startswith('work '):
        return True, f'{last.split()[1]} ns of processor time, more than the work allowed takes', out
    if last.startswith('alloc '):
        return True, f'{last.split()[1]} bytes in use, more than allowed', out
    return False, last, out


def program(job, hexbytes, timeout=60):
    """the command line program on the counterexample: does it break the property, and does it behave as its model?"""
    import subprocess, tempfile
    verbose, fail = int(job['args'][0]), int(job['args'][1])
    _, _, lines = native('rel', job, hexbytes)
    said = {}
    for l in lines:
        w = l.split()
        if w[:1] == ['#'] and len(w) > 1:
            said.setdefault(w[1], []).append(bytes.fromhex(w[2]) if len(w) > 2 and w[1] not in ('h_cli',) else b'')
    if fail == 2 or 'exit' not in said:
        return None, None, None
    m = concrete(job, hexbytes)
    if m is None:
        return None, None, None
    n = sum(1 for x in job['tpl'] if isinstance(x, tuple) and x[0] == 's') if 'tpl' in job else 0
    if verbose == 2:
        b = bytes.fromhex(hexbytes)
        verbose = b[n] & 1 if n < len(b) else 0
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'input')
        if fail == 0:
            with open(p, 'wb') as f:
                f.write(bytes.fromhex(m))
        try:
            x = subprocess.run([eng.program()] + (['--verbose'] if verbose else []) + [p], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return True, 'the program did not end', False
    same = fail != 0 or (x.returncode == said['exit'][0][0] and x.stdout == said['out'][0] and x.stderr == said['err'][0])
    if 'expect-ok' in said:
        return (x.returncode != 0 or bool(verbose and not x.stdout)), f'a module, exit status {x.returncode}', same
    at, miss = 0, False
    for c in said.get('expect-cause', []) if fail == 0 else []:
        k = x.stderr.find(c, at)
        miss |= k < 0
        at = max(at, k + len(c))
    return x.returncode == 0 or miss, f'no module, exit status {x.returncode}, stderr {x.stderr[:300]!r}', same


def concrete(job, hexbytes):
    """the module the template builds from the counterexample's bytes"""
    if 'tpl' not in job:
        return None
    b, i, o = bytes.fromhex(hexbytes), 0, bytearray()
    for x in job['tpl']:
        if isinstance(x, int):
            o.append(x)
        elif x[0] == 'r':
            o += bytes(x[1]) * x[2]
        else:
            o.append(b[i] if i < len(b) else 0)
            i += 1
    return o.hex()


def set_suffix(prop):
    global SUFFIX
    SUFFIX = '-cli' if prop == 'C26' else ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--build', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args()
    if a.build:
        b = eng.Builder(cli=True)
        for x in ('engine', 'ir', 'ir-cli', 'rel', 'dev', 'rel-cli', 'dev-cli', 'program'):
            b.start(x)
        b.need('engine', 'ir', 'rel', 'dev')
        try:
            b.need('ir-cli', 'rel-cli', 'dev-cli', 'program')
        except eng.BuildError as e:
            print('the command line program cannot be built:', str(e)[-1500:])
        print('built', b.times)
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        set_suffix(r['property'])
        b = eng.Builder(cli=SUFFIX != '')
        b.need('rel' + SUFFIX, 'dev' + SUFFIX)
        bad = False
        for p in ('rel', 'dev'):
            f, why, out = native(p, r, r['bytes'])
            print(p, 'FAILS' if f else 'passes', why)
            for l in out:
                print('  ', l[:2000])
            bad |= f
        return 1 if bad else 0
    import props
    prop = a.property
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    deep = tier == 'thorough'
    jobs = props.jobs(prop, deep)
    if a.only:
        jobs = [j for j in jobs if a.only in j['id']]
    if a.list:
        for j in jobs:
            print(j['id'], j['entry'], j['cost'], show(j['tpl'])[:150])
        return 0
    t0 = time.time()
    try:
        set_suffix(prop)
        b = eng.Builder(cli=SUFFIX != '')
        for x in ('ir' + SUFFIX, 'engine', 'rel' + SUFFIX) + (('program',) if SUFFIX else ()):
            b.start(x)
        b.need('ir' + SUFFIX, 'engine')
    except eng.BuildError as e:
        print('ERROR: cannot build:', str(e)[-3000:])
        return 2
    tb = time.time() - t0
    return decide(prop, tier, seed, jobs, b, t0, tb, a.keep_going)


def decide(prop, tier, seed, jobs, b, t0, tb, keep_going):
    deep = tier == 'thorough'
    known = known_findings(prop)
    cov = eng.Cov()
    limit = float(os.environ.get('VERIF_SECONDS', 6 * 3600 if deep else 600))
    by = {j['id']: j for j in jobs}
    res = eng.run_jobs(jobs, deadline=t0 + limit, stop_on_violation=not keep_going, cov=cov, covprefix=os.path.join(eng.REPO, 'src') + '/', ir=f'f{SUFFIX}.ll')
    t_run = time.time() - t0 - tb
    try:
        b.need('rel' + SUFFIX, *(['program'] if SUFFIX else []))
    except eng.BuildError as e:
        print('ERROR: cannot build:', str(e)[-3000:])
        return 2
    code, found, notes, reported = 0, 0, [], set()
    hangs = 0
    # 1. counterexamples, against the real code
    for jid, r in res.items():
        j = by[jid]
        for v in r.get('violations', []):
            budget = v['id'] == 2**64 - 5
            if budget:
                hangs += 1
                if hangs > 4:
                    continue
                bad, why, out = native('rel', j, v['bytes'], 40)
                if not bad or 'did not end' not in why:
                    continue
                outs = {'rel': [why] + out}
            else:
                b.need('dev' + SUFFIX)
                outs, bad = {}, False
                for p in ('rel', 'dev'):
                    f, why_, out = native(p, j, v['bytes'])
                    outs[p] = [why_] + out
                    if f and not bad:
                        bad, why = True, f'{why_} [{p}]'
                if SUFFIX and bad:
                    wrong, what, _ = program(j, v['bytes'])
                    if wrong is not None:
                        outs['program'] = [what]
                        bad, why = wrong, f'{why}; the program: {what}'
            if bad and j.get('known') in known and j['known'] and KINDS.get(v['id'], '').replace(' ', '-') == known[j['known']][0]:
                print(f"KNOWN-FINDING: property={prop} {j['known']}: {known[j['known']][1]}")
                continue
            if not bad:
                notes.append(f"{jid}: counterexample {v['bytes']} ({v['kind']}) does not reproduce natively: {outs}")
                code = code or 2
                continue
            found += 1
            h = hashlib.sha256((jid + v['bytes']).encode()).hexdigest()[:12]
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{prop}-{h}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'job': jid, 'entry': j['entry'], 'args': [str(x) for x in j['args']], 'bytes': v['bytes'], 'template': show(j['tpl']), 'module': concrete(j, v['bytes']),
                           'kind': v['kind'], 'what': why, 'stack': v['stack'][:30], 'native': outs, 'rerun': f'python3 check.py --replay {path}'}, f, indent=1)
            print(f'VIOLATION property={prop} replay={path}')
            print(f"  {jid}: {why}; module {(concrete(j, v['bytes']) or '')[:400]}")
            code = 1
    # 2. witnesses of explored paths, against the real code
    lines, want = [], []
    for jid, r in res.items():
        for s in r.get('samples', []):
            lines.append(eng.jobline(by[jid], s['bytes']))
            want.append((jid, s))
    validated, bad_samples, program_runs = 0, [], 0
    if code == 0 and lines:
        outs = [None] * 8

        def part(k):
            outs[k] = eng.replay('rel' + SUFFIX, lines[k::8], timeout=300)
        ts = [threading.Thread(target=part, args=(k,)) for k in range(8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for k in range(8):
            o, rc, err = outs[k]
            for i, (jid, s) in enumerate(want[k::8]):
                got = o[i] if i < len(o) else f'ended ({rc})'
                if got == 'ok ' + s['hash']:
                    validated += 1
                else:
                    bad_samples.append(f"{jid} {s['bytes']}: native {got}, symbolic ok {s['hash']}")
                    break
    if code == 0 and SUFFIX:
        k = 0
        for jid, s in want[seed % 7::max(1, len(want) // 150)]:
            wrong, what, same = program(by[jid], s['bytes'])
            if wrong is None:
                continue
            k += 1
            if wrong or not same:
                bad_samples.append(f"{jid} {s['bytes']}: the program differs from its model: {what}")
        program_runs = k
    if bad_samples:
        notes += ['the engine and the real code differ: ' + x for x in bad_samples[:5]]
        code = code or 2
    # 3. what remains undecided
    st = {}
    for jid, r in res.items():
        st[r['status']] = st.get(r['status'], 0) + 1
    und = [jid for jid, r in res.items() if r['status'] not in ('ok', 'violation')]
    if code == 0 and len(und) > max(2, len(jobs) // 10):
        notes.append(f'{len(und)} of {len(jobs)} jobs undecided')
        code = 2
    covers = {}
    for r in res.values():
        for k, v in r.get('covers', {}).items():
            covers[k] = covers.get(k, 0) + v
    need = {'C21': ['10'], 'C22': ['2'], 'C25': ['2'], 'C28': ['11'], 'C29': ['12', '13']}.get(prop, ['1', '2'])
    if code == 0 and not all(covers.get(k) for k in need):
        notes.append(f'vacuous: covers {covers}')
        code = 2
    for n in notes:
        print('NOTE', n[:1500])
    for jid in und[:10]:
        print(f"UNDECIDED {jid}: {res[jid]['status']} {res[jid].get('msg', '')[:200]}")
    wall = time.time() - t0
    tot = lambda k: sum(r.get(k, 0) for r in res.values())
    done = [jid for jid, r in res.items() if r['status'] == 'ok']
    ex = []
    for jid in done:
        for s in res[jid].get('samples', [])[:1]:
            if len(ex) < 12:
                ex.append({'job': jid, 'template': show(by[jid]['tpl'])[:300], 'path_witness_module': (concrete(by[jid], s['bytes']) or '')[:400], 'outcome': 'accepted' if 1 in s['covers'] else 'rejected', 'validated': code == 0})
    lines_hit = {f.replace(eng.REPO + '/', ''): [len(cov.hit.get(f, ())), len(cov.miss.get(f, ()) - cov.hit.get(f, set()))] for f in sorted(set(cov.hit) | set(cov.miss))}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'), 'transitions': tot('branches'), 'traces_validated_against_impl': validated, 'samples': ex,
            'method': 'symbolic execution of the LLVM IR rustc produced from the current tree; every assertion and branch decided by Z3',
            'jobs': len(jobs), 'jobs_by_status': st, 'undecided': und[:50], 'symbolic_bytes_max': max([by[j].get('nsym', 0) for j in done] or [0]), 'input_bytes_max': max([by[j].get('len', 0) for j in done] or [0]),
            'bounds': 'each job covers every value of its symbolic bytes: all paths, no loop or recursion bound inside the input bound; templates listed by `check.py ' + prop + ' --list`',
            'paths_outside_template_ranges': tot('killed'), 'ir_instructions_executed': tot('steps'), 'assertions_discharged': tot('asserts'), 'assertions_needing_solver': tot('asserts_solver'),
            'solver': 'Z3', 'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'query_cache_hits': tot('query_cache_hits'), 'solver_s': round(tot('solver_s'), 2), 'solver_max_s': round(max([r.get('solver_max_s', 0) for r in res.values()] or [0]), 3),
            'engine_cpu_s': round(tot('wall_s'), 1), 'build_s': round(tb, 1), 'explore_s': round(t_run, 1), 'accepted_paths': covers.get('1', 0), 'rejected_paths': covers.get('2', 0), 'reader_failure_paths': covers.get('10', 0),
            'program_runs': program_runs, 'functions_encoded': sorted(cov.funcs), 'source_lines_executed_and_not': lines_hit, 'notes': notes[:20],
        },
        'assumptions': ['rustc, LLVM and Z3 are correct', 'the engine models the IR faithfully (checked on the path witnesses replayed natively)', 'the reference decoder in harness/src/spec.rs states the WebAssembly 3.0 binary grammar', 'allocation never fails below the stated limits', 'inputs outside the templates are not covered'],
        'wall_s': round(wall, 2), 'violations': found,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {st} paths {tot('paths')} queries {tot('queries')} solver {tot('solver_s'):.1f}s validated {validated} covers {covers} build {tb:.0f}s explore {t_run:.0f}s total {wall:.0f}s -> exit {code}")
    return code


if __name__ == '__main__':
    sys.exit(main())
