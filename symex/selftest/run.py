#!/usr/bin/env python3
"""The engine's semantics of single operations against the processor's: run.py [scratch directory]"""
import os, random, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, '..', '..', 'lib'))
import eng
D = sys.argv[1] if len(sys.argv) > 1 else '/tmp/selftest'
os.makedirs(D, exist_ok=True)
bad = 0
for opt in ('1', '3'):
    subprocess.run(['rustc', '--edition=2024', '--crate-type=lib', '--emit=llvm-ir', '-Cno-prepopulate-passes' if opt == '0' else f'-Copt-level={opt}', '-Cpanic=abort', '-Ccodegen-units=1', '-o', D + '/f.ll', H + '/st.rs'], check=True)
    subprocess.run(['rustc', '--edition=2024', '-O', '-o', D + '/native', H + '/main.rs'], check=True)
    rnd = random.Random(7)
    sp = [0, 1, 2, 0x7F800000, 0x7F800001, 0x7FC00000, 0xFF800000, 0x80000000, 0x00800000, 0x007FFFFF, 0x7FF0 << 48, (0x7FF0 << 48) + 1, 0x7FF8 << 48, 0xFFF0 << 48, 1 << 63, 0x0010 << 48, (0x0010 << 48) - 1, 2**64 - 1, 0x36A0 << 48, 0x3690 << 48, (0x3690 << 48) + 1, 0x380FFFFFFFFFFFFF, 0x47EFFFFFFFFFFFFF, 0x47EFFFFFE0000000, 0x47EFFFFFF0000000, 0x3810000010000000, 0x3810000030000000, 63, 64, 31, 32]
    args = [(a, b) for a in sp for b in sp]
    for _ in range(3000):
        a, b = rnd.getrandbits(64), rnd.getrandbits(64)
        if rnd.random() < 0.4:
            a = (rnd.randint(860, 1160) << 52) | rnd.getrandbits(52) | rnd.getrandbits(1) << 63
            if rnd.random() < 0.5:
                a &= ~((1 << rnd.randint(20, 50)) - 1)
        if rnd.random() < 0.5:
            b &= 127
        args.append((a, b))
    w = eng.Worker(D + '/f.ll')
    got = []
    for a, b in args:
        r = w.ask(f'run x st 10 60 1000000 2 {a} {b}', 90)
        if r['status'] != 'ok':
            print(r['status'], r.get('msg'))
            sys.exit(1)
        got.append(r['samples'][0]['hash'])
    r = w.ask('run x sy 100000 300 10000000 2', 400)
    print(opt, 'symbolic', r['status'], r.get('msg', ''), r.get('violations'), r.get('asserts'))
    bad += r['status'] != 'ok'
    w.stop()
    n = subprocess.run([D + '/native'], input='\n'.join(f'{a} {b}' for a, b in args), text=True, capture_output=True).stdout.split()
    d = [args[i] for i in range(len(args)) if got[i] != n[i].zfill(16)]
    print(opt, len(args), 'pairs,', len(d), 'differ', [(hex(a), hex(b)) for a, b in d[:10]])
    bad += len(d)
sys.exit(1 if bad else 0)
