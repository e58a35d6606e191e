#!/usr/bin/env python3
"""Decides one property of /repo:  vf.py <property> [quick|thorough]

Every property is a set of probe/specification pairs (probes/*.py). Each pair is compiled against /repo's
current headers to LLVM IR (never run, never linked); engine/vfx computes the effect summary of both sides
by value-flow analysis and compares them. exit 0: all agree, 1: a use of the library does something else
than its specification (VIOLATION line), 2: no answer."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, os.path.join(ROOT, 'probes'))
import catalogue  # noqa: E402

VFX = os.path.join(ROOT, 'build', 'vfx')
BASE = ['-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c', '-fgnuc-version=9.4.0',
        '-ffp-contract=off', '-fno-math-errno', '-DNDEBUG', '-w', '-ferror-limit=0', f'-I{ROOT}/include', f'-I{ROOT}/probes', f'-I{REPO}/include']
ISA = {
    'scalar': ['-march=x86-64', '-U__SSE__', '-U__SSE2__', '-U__SSE3__', '-U__SSE4_1__'],
    'sse2': ['-march=x86-64'],
    'sse4': ['-march=x86-64-v2'],
    'avx': ['-march=x86-64-v2', '-mavx'],
    'avx2': ['-march=x86-64-v3'],
    'avx512': ['-march=x86-64-v4'],
    # other processors: the intrinsics are replaced by models (include/isa), the rest is analysed as for the scalar configuration
    'neon': ['-march=x86-64', '-U__SSE__', '-U__SSE2__', '-U__SSE3__', '-U__SSE4_1__', '-D__ARM_NEON__=1', f'-I{ROOT}/include/isa/neon'],
    'mic': ['-march=x86-64', '-U__SSE__', '-U__SSE2__', '-U__SSE3__', '-U__SSE4_1__', '-D__MIC__=1', f'-I{ROOT}/include/isa/mic'],
    'qpx': ['-march=x86-64', '-U__SSE__', '-U__SSE2__', '-U__SSE3__', '-U__SSE4_1__', '-D__VECTOR4DOUBLE__=1', '-include', f'{ROOT}/include/isa/qpx/qpx.h'],
}
# CUDA: the runtime is a model (include/isa/cuda); kernel launches are rewritten to calls of it, see cuda_overlay()
ISA['cuda'] = ISA['scalar'] + ['-D__CUDACC__=1', '-DLIBFLATARRAY_WITH_CUDA=1', f'-I{ROOT}/include/isa/cuda', '-include', 'cuda.h']
# clang's CUDA front end, type checking only (include/isa/device declares what the language's own headers would)
for side in ('dev', 'host'):
    ISA['cuda' + side] = ['-x', 'cuda', '-nocudainc', '-nocudalib', '-fsyntax-only', '-std=c++14', '-w', '-ferror-limit=0',
                          '-D__CUDACC__=1', '-DLIBFLATARRAY_WITH_CUDA=1', f'-I{ROOT}/include/isa/device', f'-I{ROOT}/include', f'-I{REPO}/include', '-include', 'cuda.h',
                          *(['--cuda-device-only', '--cuda-gpu-arch=sm_70'] if side == 'dev' else ['--cuda-host-only'])]
ASSUMPTIONS = [
    'clang 18 lowers the headers to LLVM IR faithfully; the same source built by another compiler means the same',
    'integer arithmetic on addresses and sizes does not overflow 64 bits',
    'distinct pointer parameters of one call refer to distinct objects unless a pair passes the same one twice',
    'stores through one base pointer at different symbolic offsets do not overlap',
]


def run(cmd, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b''
        return -9, o.decode(errors='replace') if isinstance(o, bytes) else o, 'time limit'


def launches(s):
    """rewrites  k<args><<<grid, block>>>(values)  to  ::vf_launch(grid, block, [](auto... a) { k<args>(a...); })(values)"""
    pos = 0
    while True:
        i = s.find('<<<', pos)
        if i < 0:
            return s
        j = s.find('>>>', i)
        m = re.match(r'>>>\s*\(', s[j:]) if j > 0 else None
        k = i
        while k and s[k - 1].isspace():
            k -= 1
        if k and s[k - 1] == '>':
            depth = 0
            while k:
                k -= 1
                depth += {'>': 1, '<': -1}.get(s[k], 0)
                if depth == 0:
                    break
        h = re.search(r'((?:(?:::)?\s*\w+\s*::\s*)*\w+)\s*$', s[:k])
        if not m or not h:
            pos = i + 3
            continue
        name = s[h.start(1):i]
        cfg = s[i + 3:j]
        # keep the lines where they are
        s = s[:h.start(1)] + f'::vf_launch({cfg}, [](auto... vf_a) {{ {name}(vf_a...); }})' + s[j + 3:]
        pos = h.start(1)


def cuda_overlay(work):
    """headers of the library with rewritten launches, shown to the compiler under their own names"""
    entries = []
    for d, _, fs in os.walk(os.path.join(REPO, 'include')):
        for f in fs:
            p = os.path.join(d, f)
            s = open(p, errors='replace').read()
            if '<<<' in s:
                o = os.path.join(work, 'launch_' + re.sub(r'\W', '_', os.path.relpath(p, REPO)))
                with open(o, 'w') as g:
                    g.write(launches(s))
                entries.append({'type': 'file', 'name': os.path.abspath(p), 'external-contents': o})
    y = os.path.join(work, 'overlay.yaml')
    with open(y, 'w') as g:
        json.dump({'version': 0, 'use-external-names': False, 'roots': entries}, g)
    return ['-ivfsoverlay', y]


def pair_lines(text):
    """line number -> pair name, for the lines of the generated source that hold a pair"""
    m = {}
    for i, l in enumerate(text.split('\n'), 1):
        x = re.match(r'extern "C" .*?\b[pr]\d?_(\w+)\(', l)
        if x:
            m[i] = x.group(1)
    return m


INTRINSIC = re.compile(r'\bv[a-z]\w*_\w+|_mm\w*_\w+|\bvec_\w+|__m512|x\d+(x\d+)?_t\b|vector4double|file not found')


OVERLAY = {}


class Job:
    def __init__(self, task, isa, work):
        self.task, self.isa = task, isa
        self.base = os.path.join(work, f'{task.name}_{isa}')
        self.broken = {}       # pair -> compiler message

    def compile(self, left):
        src = self.base + '.cpp'
        text = self.task.text
        for attempt in range(3):
            with open(src, 'w') as f:
                f.write(text)
            rc, out, err = run(['clang++'] + BASE + ISA[self.isa] + OVERLAY.get(self.isa, []) + self.task.flags + [src, '-o', self.base + '.bc'], max(1, left()))
            if rc == 0:
                return True
            lines, bad = pair_lines(text), {}
            msg = ''
            for l in err.split('\n'):
                x = re.match(r'(.*?):(\d+):\d+: (error|fatal error|note): (.*)', l)
                if not x:
                    continue
                if x.group(3) != 'note':
                    msg = f'{x.group(1)}:{x.group(2)}: {x.group(4)}'
                if x.group(1) == src and int(x.group(2)) in lines:
                    bad.setdefault(lines[int(x.group(2))], msg)
            if not bad or rc == -9:
                self.error = err[:2000]
                # a registration that does not compile is a public interface that broke, not a lack of coverage
                text = text.split('\n')
                for l in err.split('\n'):
                    x = re.match(r'(.*?):(\d+):\d+: error: (.*)', l)
                    m = x and x.group(1) == src and re.match(r'LIBFLATARRAY_REGISTER_SOA\((\w+)', text[int(x.group(2)) - 1])
                    if m and rc != -9:
                        self.broken.setdefault('register_' + m.group(1), f'{os.path.basename(src)}:{x.group(2)}: {x.group(3)}')
                    # nor does a vector class that no compiler for its processor accepts; an intrinsic the models lack is our gap
                    if x and rc != -9 and self.isa in catalogue.OTHER and os.path.abspath(x.group(1)).startswith(os.path.join(REPO, 'include') + os.sep) and not INTRINSIC.search(x.group(3)):
                        self.broken.setdefault('header_' + self.task.name, f'{os.path.relpath(x.group(1), REPO)}:{x.group(2)}: {x.group(3)}')
                return False
            self.broken.update(bad)
            text = '\n'.join('' if lines.get(i) in bad else l for i, l in enumerate(text.split('\n'), 1))
        self.error = err[:2000]
        return False


    def typecheck(self, left):
        """every program of the unit is accepted; a rejection is attributed to the programs its notes lead to"""
        src = self.base + '.cu'
        with open(src, 'w') as f:
            f.write(self.task.text)
        with open(self.base + '.cpp', 'w') as f:
            f.write(self.task.text)
        rc, out, err = run(['clang++'] + ISA[self.isa] + self.task.flags + [src], max(1, left()))
        if rc == -9:
            self.error = err[:2000]
            return None
        lines = {}
        for i, l in enumerate(self.task.text.split('\n'), 1):
            x = re.match(r'.*?\bvoid p_(\w+)\(', l)
            if x:
                lines[i] = x.group(1)
        bad, msg, owners, total = {}, None, set(), 0

        def flush():
            for o in (owners or {'kernels_' + self.task.name}) if msg else ():
                bad.setdefault(o, msg)
        for l in err.split('\n'):
            x = re.match(r'(.*?):(\d+):\d+: (error|fatal error|note): (.*)', l)
            if not x:
                continue
            if x.group(3) != 'note':
                flush()
                total += 1
                msg, owners = f'{os.path.relpath(x.group(1), REPO) if x.group(1).startswith(REPO) else os.path.basename(x.group(1))}:{x.group(2)}: {x.group(4)}', set()
            elif msg and 'called by' in x.group(4) and len(msg) < 600:
                msg += f' <- {os.path.basename(x.group(1))}:{x.group(2)} {x.group(4)}'
            if x.group(1) == src and int(x.group(2)) in lines:
                owners.add(lines[int(x.group(2))])
            m = re.search(r"called by 'p_(\w+)'", l)
            if m:
                owners.add(m.group(1))
        flush()
        if rc and not bad:
            self.error = err[:2000]
            return None
        return [dict(pair=n, status='DIFF' if n in bad else 'EQUAL', where=bad.get(n, '').split(' <- ')[0], detail='rejected by the compiler: ' + bad[n] if n in bad else '', insts=0, loops=0, obligations=1, files=[], feat={}) for n in self.task.names] + \
               [dict(pair=n, status='DIFF', where=m.split(' <- ')[0], detail='rejected by the compiler: ' + m, insts=0, loops=0, obligations=1, files=[], feat={}) for n, m in bad.items() if n not in self.task.names]


def ensure_engine():
    srcs = [os.path.join(ROOT, 'engine', f) for f in os.listdir(os.path.join(ROOT, 'engine'))]
    if os.path.exists(VFX) and all(os.path.getmtime(VFX) >= os.path.getmtime(f) for f in srcs):
        return
    p = subprocess.run(['make', '-s', '-C', os.path.join(ROOT, 'engine')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode and not os.path.exists(VFX):
        print(p.stdout[-3000:])
        sys.exit(2)


def known_findings(prop):
    r = []
    path = os.path.join(ROOT, 'findings', 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\S+) pair=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3).strip()))
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = t0 + (700 if tier == 'quick' else 6 * 3600)
    ensure_engine()
    work = os.path.join(ROOT, 'build', 'work', f'{prop}_{os.getpid()}')
    replay = os.path.join(ROOT, 'build', 'replay', prop)
    shutil.rmtree(work, ignore_errors=True)
    shutil.rmtree(replay, ignore_errors=True)
    os.makedirs(work)
    tasks = catalogue.tasks(prop, tier)
    if os.environ.get('VF_UNITS'):     # restrict to some units (debugging)
        tasks = [t for t in tasks if re.fullmatch(os.environ['VF_UNITS'], t.name)]
    if any('cuda' in t.isas for t in tasks):
        OVERLAY['cuda'] = cuda_overlay(work)
    jobs = [Job(t, isa, work) for t in tasks for isa in t.isas]
    results, errors = [], []
    env_limit = '60' if tier == 'quick' else '600'
    os.environ.setdefault('VFX_PAIR_SECONDS', env_limit)
    left = lambda: limit - time.time()

    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get('VF_JOBS', '8'))) as ex:
        def analyse(job, k, n):
            if left() <= 0:
                return job, ''
            rc, out, err = run([VFX, job.base + '.bc', f'-shards={n}', f'-shard={k}'], max(1, left()))
            return job, out

        def start(job):
            if left() <= 0:
                return job, False
            if job.isa in ('cudadev', 'cudahost'):
                return job, job.typecheck(left)
            return job, job.compile(left)
        jobs.sort(key=lambda j: -j.task.cost)
        futs = [ex.submit(start, j) for j in jobs]
        afuts = []
        for f in cf.as_completed(futs):
            j, ok = f.result()
            if not ok:
                errors.append(f'{os.path.basename(j.base)}: {getattr(j, "error", "time limit")}')
                continue
            if isinstance(ok, list):
                for d in ok:
                    d.update(isa=j.isa, unit=j.task.name, job=j)
                results += ok
                continue
            n = max(j.task.shards, -(-len(j.task.names) // 60))
            for k in range(n):
                afuts.append(ex.submit(analyse, j, k, n))
        for f in cf.as_completed(afuts):
            j, out = f.result()
            for l in out.split('\n'):
                if l.startswith('{'):
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    d['isa'], d['unit'], d['job'] = j.isa, j.task.name, j
                    results.append(d)
    expected = sum(len(j.task.names) for j in jobs)
    for j in jobs:
        for p, m in j.broken.items():
            results.append(dict(pair=p, status='DIFF', where=m, detail='this use of the public interface no longer compiles: ' + m, insts=0, loops=0, obligations=0, files=[], feat={}, isa=j.isa, unit=j.task.name, job=j))
    diff = [d for d in results if d['status'] == 'DIFF']
    equal = [d for d in results if d['status'] == 'EQUAL']
    und = [d for d in results if d['status'] not in ('DIFF', 'EQUAL')]
    known = known_findings(prop)
    new, seen = [], set()
    for d in diff:
        k = next((x for x in known if re.fullmatch(x[0], d['pair'])), None)
        if k:
            if k not in seen:
                print(f'KNOWN-FINDING: property={prop} {k[1]} ({d["pair"]})')
            seen.add(k)
        else:
            new.append(d)
    files = sorted({f.replace(REPO + '/', '') for d in results for f in d['files'] if REPO in f})
    rules = sorted({t.doc for t in tasks if t.doc})
    sample = lambda d: f'{d["pair"]} [{d["isa"]}]: {d["status"]}, {d["insts"]} IR instructions, {d["obligations"]} obligations'
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'translation_validation',
        'coverage': {
            'programs': len(equal) + len(diff), 'disagreements_checked': sum(d['obligations'] for d in results),
            'pairs_expected': expected, 'pairs_equal': len(equal), 'pairs_different': len(diff), 'pairs_undecided': len(und) + expected - len(results),
            'ir_instructions_analysed': sum(d['insts'] for d in results), 'loops_analysed': sum(d['loops'] for d in results),
            'instruction_sets': sorted({j.isa for j in jobs}), 'units': len(jobs), 'repo_files_analysed': files,
            'rule': 'summary(use of the library) == summary(specification), for all inputs: memory written, values, calls, exceptions, life cycle. ' + '; '.join(rules),
            'samples': [sample(d) for d in (equal[:3] + equal[len(equal) // 2:len(equal) // 2 + 3] + diff[:5])],
            'undecided': [f'{d["pair"]} [{d["isa"]}]: {d["detail"][:200]}' for d in und[:40]],
            'errors': errors[:20],
        },
        'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    if all(j.isa in ('cudadev', 'cudahost') for j in jobs):
        ev['level'] = 'other'
        ev['assumptions'] = ['clang 18\'s CUDA front end accepts in device code what the CUDA compilers accept', 'include/isa/device declares what a CUDA installation declares']
        ev['coverage'] = {'explanation': 'witness programs type checked against the headers, in the device and in the host pass of the compiler; a rejection is a violation, reported with the call chain from the kernel',
                          'programs_type_checked': len(equal) + len(diff), 'accepted': len(equal), 'rejected': len(diff), 'expected': expected, 'units': len(jobs), 'rule': '; '.join(rules),
                          'samples': [f'{d["pair"]} [{d["isa"]}] {d["unit"]}: {"accepted" if d["status"] == "EQUAL" else d["detail"][:300]}' for d in equal[:3] + equal[-3:] + diff[:5]], 'errors': errors[:20]}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop} {tier}: {len(equal)} of {expected} pairs agree, {len(diff)} differ, {expected - len(equal) - len(diff)} undecided, {round(time.time() - t0, 1)} s')
    for d in und[:20]:
        print(f'  undecided {d["pair"]} [{d["isa"]}] {d["where"]}: {d["detail"][:300]}')
    for e in errors[:5]:
        print('  error ' + e[:600])
    rc = 0
    if new:
        os.makedirs(replay)
        path = os.path.join(replay, 'violations.txt')
        with open(path, 'w') as f:
            f.write(f'replay: python3 {ROOT}/vf.py {prop} {tier}\n\n')
            for d in new:
                f.write(f'{d["pair"]} [{d["isa"]}]\n  where: {d["where"]}\n  {d["detail"]}\n')
                src = d['job'].base + '.cpp'
                for l in open(src):
                    if re.search(rf'\b[pr]\d?_{re.escape(d["pair"])}\(', l):
                        f.write('  ' + l[:4000].rstrip() + '\n')
                f.write('\n')
        for d in new[:10]:
            print(f'  {d["pair"]} [{d["isa"]}] at {d["where"][:300]}\n    {d["detail"][:500]}')
        print(f'VIOLATION property={prop} replay={path}')
        rc = 1
    elif len(equal) + len(diff) < expected * 0.5:
        print(f'no answer: only {len(equal)} of {expected} obligations could be decided')
        rc = 2
    if not os.environ.get('VF_KEEP'):
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
