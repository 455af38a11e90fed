#!/usr/bin/env python3
"""Decides one property of /repo by generated-input search.

  check.py ID            build from /repo's working tree, search, write evidence/ID.json
                         (VERIF_SEED, VERIF_TIER=quick|thorough; --tier overrides)
  check.py replay FILE   run a replay file again (exit 1 while it still fails)
  check.py setup         check that the tools are there and the oracle passes its own test

Exit: 0 held, 1 VIOLATION line printed, 2 the check itself could not run.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
EVIDENCE = os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(HERE, 'replays')
FUZZER_LIB = '/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a'
CORES = min(8, os.cpu_count() or 1)

OK, FAILED, UNEXPECTED, HANG, STUCK, USAGE = 0, 10, 11, 12, 13, 2

# ---------------------------------------------------------------- configuration

COMMON = ['-std=c++17', '-include', 'array', '-include', 'cstdint', '-w']
UBSAN = '-fsanitize=shift-exponent,bounds,integer-divide-by-zero,unreachable,return,bool,enum'
FLAVOURS = {
    # compiler, flags for everything, extra flags for the library, link flags
    'plain': ('g++', ['-O2', '-g1', '-DNDEBUG'], [], ['-pthread']),
    'cov': ('clang++', ['-O1', '-g1', '-DPBT_FUZZ'], ['-fsanitize=fuzzer-no-link'],
            ['-pthread', FUZZER_LIB]),
    'asan': ('clang++', ['-O1', '-g1', '-DPBT_FUZZ', '-D_GLIBCXX_SANITIZE_VECTOR', '-fno-omit-frame-pointer',
                         '-fsanitize=address', UBSAN, '-fno-sanitize-recover=all'],
             ['-fsanitize=fuzzer-no-link'],
             ['-pthread', '-fsanitize=address', UBSAN, FUZZER_LIB]),
    'tsan': ('clang++', ['-O1', '-g1', '-fsanitize=thread'], [], ['-pthread', '-fsanitize=thread']),
    # counts what the library executes, copies and allocates
    'cost': ('clang++', ['-O1', '-g1'], ['-fsanitize-coverage=edge,trace-pc'], ['-pthread', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset']),
    'gcc-cost': ('g++', ['-O1', '-g1'], ['-fsanitize-coverage=trace-pc'], ['-pthread', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset']),
    # used when clang cannot compile the tree though gcc can
    'gcc-asan': ('g++', ['-O1', '-g1', '-fsanitize=address', '-fsanitize=shift-exponent,bounds', '-fno-sanitize-recover=all'],
                 [], ['-pthread', '-fsanitize=address', '-fsanitize=shift-exponent,bounds']),
    'gcc-tsan': ('g++', ['-O1', '-g1', '-fsanitize=thread'], [], ['-pthread', '-fsanitize=thread']),
}
# builds of C35: program and library by different compilers and with different options, static and shared
MIXED = {
    # name: (compiler and flags of the program, those of the library, link flags, kind of library)
    'debug': ('g++ -O0', 'g++ -O0', '', 'a'),
    'lto': ('g++ -O3 -DNDEBUG -flto=2', 'g++ -O3 -DNDEBUG -flto', '-flto=2 -O3', 'a'),
    'small': ('g++ -O1 -funsigned-char', 'g++ -Os -DNDEBUG -funsigned-char', '-static', 'a'),
    'clang-debug': ('clang++ -O0', 'clang++ -O0', '', 'a'),
    'clang-release': ('clang++ -O1', 'clang++ -O3 -DNDEBUG', '', 'a'),
    'shared': ('clang++ -O1 -std=c++20 -DNDEBUG', 'g++ -O2 -fPIC', '', 'so'),
    'clang-shared': ('g++ -O1 -std=c++20', 'clang++ -O2 -DNDEBUG -fPIC -D_FORTIFY_SOURCE=3 -ftrivial-auto-var-init=pattern', '', 'so'),
    'hardened': ('g++ -O2 -DNDEBUG -D_GLIBCXX_ASSERTIONS -fstack-protector-strong', 'g++ -O2 -D_GLIBCXX_ASSERTIONS -D_FORTIFY_SOURCE=3 -ftrivial-auto-var-init=pattern -fstack-protector-strong -fwrapv', '', 'a'),
    'clang-small': ('clang++ -Oz -funsigned-char -DNDEBUG', 'clang++ -Os -funsigned-char', '', 'a'),
}
LIBRARY = {}  # compiler and flags of the library where they are not the program's
SHARED = set()
for _n, (_p, _l, _link, _kind) in MIXED.items():
    _p, _l = _p.split(), _l.split()
    FLAVOURS[_n] = (_p[0], _p[1:], [], ['-pthread'] + _link.split())
    LIBRARY[_n] = (_l[0], _l[1:])
    if _kind == 'so':
        SHARED.add(_n)
FALLBACK = {'cov': None, 'asan': 'gcc-asan', 'tsan': 'gcc-tsan', 'cost': 'gcc-cost'}
FALLBACK.update({n: None for n in MIXED if 'clang++' in MIXED[n][0] + MIXED[n][1]})
FIRST = {'C27': 'cost', 'C35': 'debug'}  # the build for random cases, if not plain

# per property: random cases in the plain build (quick), fuzzing build, random cases in it,
# libFuzzer runs per job (quick)
#            plain    fuzz     random  runs
CONFIG = {
    'C01': (160000, 'cov', 0, 12000),
    'C02': (150000, 'cov', 0, 12000),
    'C03': (500000, 'cov', 0, 40000),
    'C04': (220000, 'cov', 0, 25000),
    'C05': (34000, 'cov', 0, 4000),
    'C06': (160000, 'cov', 0, 15000),
    'C07': (110000, 'cov', 0, 12000),
    'C08': (120000, 'cov', 0, 12000),
    'C09': (100000, 'cov', 0, 12000),
    'C10': (140000, 'cov', 0, 12000),
    'C11': (110000, 'cov', 0, 12000),
    'C12': (26000, 'asan', 4000, 1500),
    'C13': (16000, 'cov', 0, 2500),
    'C14': (130000, 'cov', 0, 12000),
    'C15': (220000, 'cov', 0, 15000),
    'C16': (22000, 'asan', 3000, 1500),
    'C17': (60000, 'asan', 24000, 6000),
    'C18': (420, None, 0, 0),
    'C19': (6000, None, 0, 0),
    'C20': (12000, 'asan', 2000, 1000),
    'C21': (160000, 'cov', 0, 15000),
    'C22': (900000, 'cov', 0, 60000),
    'C23': (2000000, 'cov', 0, 120000),
    'C24': (300000, 'cov', 0, 20000),
    'C25': (100000, 'cov', 0, 10000),
    'C26': (100000, 'cov', 0, 10000),
    'C27': (5000, None, 0, 0),
    'C28': (100000, 'cov', 0, 10000),
    'C29': (70000, 'asan', 9000, 1500),
    'C30': (12000, 'cov', 0, 600),
    'C31': (40000, 'cov', 0, 4000),
    'C32': (40000, 'cov', 0, 3000),
    'C33': (320, None, 0, 0),
    'C34': (40000, 'cov', 0, 3000),
    'C35': (63000, None, 0, 0),
}
LEVEL = {p: 'exploration' for p in CONFIG}
LEVEL['C20'] = LEVEL['C31'] = 'fault_enumeration'

ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0',
}
ASSUME = [
    'the reference model in harness/ref.h (written from the standards, checked against their published vectors before every run) is right',
    'x86-64, little-endian, GCC 13 / Clang 18 with libstdc++, as in the sandbox',
]


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- building

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def read(f):
    with open(f, 'rb') as fd:
        return fd.read()


def tree_hash():
    parts = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'goost')):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            parts += [os.path.relpath(p, REPO), read(p)]
    return sha(*parts)


def harness_hash(prop):
    parts = []
    for f in sorted(glob.glob(HERE + '/harness/*.h') + glob.glob(HERE + '/harness/*.cpp') + glob.glob(HERE + '/harness/props/*.inc')):
        parts += [f, read(f)]
    return sha(*parts, read('%s/harness/props/%s.cpp' % (HERE, prop)))


def compile_one(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return (cmd, p.returncode, p.stdout)


def build_many(prop, flavours):
    """Returns {flavour: executable}. A flavour clang cannot build is replaced by its fallback."""
    os.makedirs(BUILD, exist_ok=True)
    tree = tree_hash()
    jobs, plan = [], {}
    pool = concurrent.futures.ThreadPoolExecutor(CORES)
    for fl in flavours:
        cxx, flags, libflags, link = FLAVOURS[fl]
        lib_cxx, lib_flags = LIBRARY.get(fl, (cxx, flags + libflags))
        libkey = sha(tree, lib_cxx, *lib_flags)
        exekey = sha(libkey, harness_hash(prop), prop, cxx, *flags, *link)
        libdir = os.path.join(BUILD, '%s-%s' % (fl, libkey))
        exe = os.path.join(BUILD, '%s-%s-%s' % (prop, fl, exekey))
        objs, lib_jobs, exe_jobs = [], [], []
        lib = os.path.join(libdir, 'libgoost.so' if fl in SHARED else 'lib.a')
        if not os.path.exists(exe) or (prop == 'C33' or fl in SHARED) and not os.path.exists(lib):
            if not os.path.exists(lib):
                os.makedirs(libdir, exist_ok=True)
                for src in sorted(glob.glob(REPO + '/goost/**/*.cpp', recursive=True)):
                    o = os.path.join(libdir, os.path.relpath(src, REPO).replace('/', '_') + '.o')
                    objs.append(o)
                    lib_jobs.append([lib_cxx] + COMMON + lib_flags + ['-I' + REPO, '-c', src, '-o', o])
            for src, name in ((HERE + '/harness/main.cpp', 'main'), ('%s/harness/props/%s.cpp' % (HERE, prop), prop)):
                o = '%s.%s.o' % (exe, name)
                exe_jobs.append([cxx] + COMMON + flags + ['-I' + REPO, '-c', src, '-o', o])
        plan[fl] = (exe, lib, objs, lib_jobs, exe_jobs)
        jobs += lib_jobs + exe_jobs
    # harness files are the slow ones: start them first
    jobs.sort(key=lambda c: 0 if '/harness/' in c[-3] else 1)
    results = {c[-1]: (rc, out) for c, rc, out in pool.map(compile_one, jobs)}
    exes, failed = {}, {}
    for fl, (exe, lib, objs, lib_jobs, exe_jobs) in plan.items():
        os.environ.update(PBT_LIB=lib, PBT_REPO=REPO)  # for C33, which compiles programs
        if not lib_jobs and not exe_jobs:
            exes[fl] = exe
            continue
        bad = [results[c[-1]][1] for c in lib_jobs + exe_jobs if results[c[-1]][0] != 0]
        if not bad and not os.path.exists(lib):
            tmp = lib + '.tmp%d' % os.getpid()
            p = compile_one([FLAVOURS[fl][0] if fl not in LIBRARY else LIBRARY[fl][0], '-shared', '-pthread', '-o', tmp] + objs if fl in SHARED else
                            ['gcc-ar' if fl == 'lto' else 'ar', 'rcs', tmp] + objs)
            if p[1] == 0:
                os.rename(tmp, lib)
            else:
                bad = [p[2]]
        if not bad:
            tmp = exe + '.tmp%d' % os.getpid()
            p = compile_one([FLAVOURS[fl][0]] + [c[-1] for c in exe_jobs] + [lib] + (['-Wl,-rpath,' + os.path.dirname(lib)] if fl in SHARED else []) + FLAVOURS[fl][3] + ['-o', tmp])
            if p[1] == 0:
                os.rename(tmp, exe)
            else:
                bad = [p[2]]
        for c in exe_jobs:
            if os.path.exists(c[-1]):
                os.unlink(c[-1])
        for o in objs:
            if os.path.exists(o):
                os.unlink(o)
        if bad:
            failed[fl] = bad[0]
        else:
            exes[fl] = exe
    for fl, why in failed.items():
        alt = FALLBACK.get(fl, '')
        if alt == '':
            raise CheckError('the %s build failed:\n%s' % (fl, why[:4000]))
        print('note: the %s build failed, %s' % (fl, 'using %s' % alt if alt else 'doing without'))
        if alt:
            exes[fl] = build_many(prop, [alt])[alt]
    return exes


def prune_build():
    """Keep the build folder small: only the 60 most recent entries."""
    try:
        names = sorted((os.path.join(BUILD, n) for n in os.listdir(BUILD)), key=os.path.getmtime, reverse=True)
    except OSError:
        return
    for n in names[60:]:
        try:
            if time.time() - os.path.getmtime(n) < 3600:
                continue
            if os.path.isdir(n):
                shutil.rmtree(n, ignore_errors=True)
            else:
                os.unlink(n)
        except OSError:
            pass


# ---------------------------------------------------------------- running

class Job:
    def __init__(self, name, cmd, kind, work, env=None, **info):
        self.name, self.cmd, self.kind, self.info = name, cmd, kind, info
        self.out = os.path.join(work, name + '.log')
        self.env = dict(os.environ, **ENV)
        self.env.pop('MALLOC_PERTURB_', None)
        if env:
            self.env.update(env)
        self.proc = None
        self.rc = None

    def start(self):
        self.fd = open(self.out, 'wb')
        self.proc = subprocess.Popen(self.cmd, stdout=self.fd, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                     env=self.env, start_new_session=True)
        self.t0 = time.time()

    def poll(self):
        if self.rc is None:
            self.rc = self.proc.poll()
            if self.rc is not None:
                self.fd.close()
        return self.rc

    def stop(self):
        if self.proc and self.rc is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()
            self.rc = None
            self.fd.close()
            self.stopped = True

    def log(self, n=6000):
        try:
            s = read(self.out).decode('utf-8', 'replace')
        except OSError:
            return ''
        return s if len(s) < n else s[:n // 2] + '\n...\n' + s[-n // 2:]


def run_jobs(jobs, width, limit):
    """Runs jobs, at most width at a time; stops everything at the first failing one. Returns it, or None."""
    todo, live = list(jobs), []
    t0 = time.time()
    try:
        while todo or live:
            while todo and len(live) < width:
                j = todo.pop(0)
                j.start()
                live.append(j)
            time.sleep(0.02)
            for j in list(live):
                rc = j.poll()
                if rc is not None:
                    live.remove(j)
                    if rc != 0:
                        return j
            if time.time() - t0 > limit:
                for j in live:
                    j.timed_out = True
                return None
    finally:
        for j in live:
            j.stop()
    return None


def tape_of(path):
    try:
        d = read(path)
    except OSError:
        return None, 0
    n, idx = struct.unpack('<QQ', d[:16])
    return d[64:64 + n], idx


def run_one(exe, choices, work, tries, env, limit=260):
    """Runs one case up to `tries` times; returns (how many times it failed, last output, last rc)."""
    f = os.path.join(work, 'confirm.case')
    with open(f, 'wb') as fd:
        fd.write(choices)
    fails, out, rc = 0, '', 0
    for _ in range(tries):
        try:
            p = subprocess.run([exe, 'one', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=limit)
            r, o = p.returncode, p.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            r, o = HANG, 'no end within %d s' % limit
        if r != 0 and r != USAGE and r != -signal.SIGKILL:
            fails, out, rc = fails + 1, o, r
            if r in (HANG, STUCK):
                break
    return fails, out, rc


def describe(exe, choices, work, env):
    f = os.path.join(work, 'describe.case')
    with open(f, 'wb') as fd:
        fd.write(choices)
    try:
        p = subprocess.run([exe, 'describe', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=120)
        return p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return '(no end within 120 s)'


def child_env(flavour):
    e = dict(os.environ, **ENV)
    e.pop('MALLOC_PERTURB_', None)
    if flavour == 'plain':
        e['MALLOC_PERTURB_'] = '165'
    return e


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        os.environ['PBT_WORK'] = self.work
        self.known_seen = {}
        self.evals = 0
        self.labels = {}
        self.samples = []
        self.hashes = set()
        self.fuzz_distinct = 0
        self.stages = []
        self.unconfirmed = []
        self.notes = []
        self.rule = ''

    # -- one stage of jobs; on a failing job report it
    def stage(self, name, jobs, width=CORES, limit=600):
        t0 = time.time()
        failing = run_jobs(jobs, width, limit)
        done = 0
        for j in jobs:
            done += self.collect(j)
        self.stages.append({'stage': name, 'jobs': len(jobs), 'cases': done, 'seconds': round(time.time() - t0, 1)})
        self.evals += done
        if failing:
            self.failed(failing)

    def collect(self, j):
        n = 0
        if j.kind == 'run' and os.path.exists(j.info['json']):
            try:
                d = json.load(open(j.info['json']))
            except ValueError:
                return 0
            n = d['done']
            for k, v in d['labels'].items():
                self.labels[k] = self.labels.get(k, 0) + v
            for k, v in d['known'].items():
                self.known_seen.setdefault(k, v['what'])
            if len(self.samples) < 4:
                self.samples += d['samples'][:4 - len(self.samples)]
            try:
                h = read(j.info['hashes'])
                self.hashes.update(struct.unpack('<%dQ' % (len(h) // 8), h))
            except OSError:
                pass
        if j.kind == 'fuzz' and os.path.exists(j.info['json']):
            try:
                d = json.load(open(j.info['json']))
            except ValueError:
                return 0
            n = d['done']
            self.fuzz_distinct += d['distinct']
            for k in d['known']:
                self.known_seen.setdefault(k, '')
        if j.kind == 'once' and j.rc == 0:
            out = j.log().strip()
            if out:
                self.notes.append('fixed cases (%s): %s' % (j.info['flavour'], out))
        return n

    # -- a failing job becomes a violation if it can be confirmed
    def failed(self, j):
        fl, exe = j.info['flavour'], j.info['exe']
        log = j.log()
        if j.rc == -signal.SIGKILL or j.rc == USAGE or j.rc == 127 or j.rc == 126:
            if j.kind != 'once':
                self.unconfirmed.append('%s ended with status %s (not a result)' % (j.name, j.rc))
                return
        env = j.env
        if j.kind == 'once':
            rcs = []
            for _ in range(2):
                p = subprocess.run(j.cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
                rcs.append(p.returncode)
                log = p.stdout.decode('utf-8', 'replace')
            if all(r == 0 for r in rcs):
                self.unconfirmed.append('fixed cases failed once and not again')
                return
            self.violation({'kind': 'once', 'flavour': fl, 'message': log[-3000:]})
        if j.kind == 'valgrind':
            p = subprocess.run(j.cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            if p.returncode == 0:
                self.unconfirmed.append('valgrind reported an error once and not again')
                return
            choices, idx = tape_of(j.info['tape'])
            self.violation({'kind': 'valgrind', 'flavour': fl, 'args': j.info['args'], 'choices': (choices or b'').hex(),
                            'message': p.stdout.decode('utf-8', 'replace')[:4000]})
        if j.kind == 'fuzz':
            arts = sorted(glob.glob(j.info['artifacts'] + '*'))
            arts = [a for a in arts if not os.path.basename(a).split('-')[-2:-1] == ['slow']]
            choices = read(arts[0]) if arts else None
            idx = None
        else:
            choices, idx = tape_of(j.info['tape'])
        if choices is None:
            self.unconfirmed.append('%s failed (status %s) and left no input: %s' % (j.name, j.rc, log[-400:]))
            return
        tries = 30 if self.prop == 'C19' else 3
        fails, out, rc = run_one(exe, choices, self.work, tries, env)
        if fails == 0:
            # the case may depend on the cases before it
            if j.kind == 'run':
                again = [exe, 'run', str(j.info['seed']), str(j.info['start']), str(idx - j.info['start'] + 1), '600',
                         self.work + '/again.json', self.work + '/again.tape', self.work + '/again.hashes']
                for _ in range(3 if self.prop == 'C19' else 1):
                    p = subprocess.run(again, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
                    if p.returncode not in (0, USAGE, -signal.SIGKILL):
                        self.violation({'kind': 'sequence', 'flavour': fl, 'seed': j.info['seed'], 'start': j.info['start'],
                                        'count': idx - j.info['start'] + 1, 'choices': choices.hex(),
                                        'message': (self.message(self.work + '/again.json') or p.stdout.decode('utf-8', 'replace'))[-3000:]})
            race = 'WARNING: ThreadSanitizer: data race' in log
            wrong = self.prop == 'C19' and j.rc in (FAILED, UNEXPECTED)
            if race or wrong:  # an interleaving that did not come again is still an observation
                self.violation({'kind': 'case', 'flavour': fl, 'choices': choices.hex(),
                                'message': (self.message(j.info.get('json')) or '') + log[:4000], 'note': 'depends on the schedule: may take several replays'})
            self.unconfirmed.append('%s: case failed (status %s) but neither it nor its sequence fails again: %s' % (j.name, j.rc, log[-400:]))
            return
        shrunk = self.shrink(exe, choices, rc, env)
        text = '' if rc in (HANG, STUCK) else describe(exe, shrunk, self.work, env)
        self.violation({'kind': 'case', 'flavour': fl, 'choices': shrunk.hex(), 'original': choices.hex()[:20000],
                        'message': (out + '\n' + text)[:5000]})

    def message(self, f):
        try:
            return json.load(open(f))['message']
        except (OSError, ValueError, TypeError):
            return ''

    def shrink(self, exe, choices, rc, env):
        if rc in (HANG, STUCK) or self.prop == 'C19':
            return choices
        a, b = self.work + '/shrink.in', self.work + '/shrink.out'
        with open(a, 'wb') as fd:
            fd.write(choices)
        try:
            subprocess.run([exe, 'shrink', a, b, '20'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=120)
            small = read(b)
        except (subprocess.TimeoutExpired, OSError):
            return choices
        fails, _, _ = run_one(exe, small, self.work, 1, env)
        return small if fails else choices

    def violation(self, replay):
        replay = dict(replay, property=self.prop)
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-%s.json' % (self.prop, sha(json.dumps(replay, sort_keys=True))[:12]))
        with open(path, 'w') as fd:
            json.dump(replay, fd, indent=1)
        raise Violation(path, replay)

    # ------------------------------------------------------------ the stages

    def shards(self, exe, flavour, total, seconds, base, env=None, width=CORES, fresh=0, tag=''):
        """Random cases base..base+total in shards; fresh: that many cases, each in a process of its own."""
        jobs = []
        per = max(1, total // width)
        plan = [(base + i * per, per) for i in range(width if total else 0)] + [(base + 50000000 + i, 1) for i in range(fresh)]
        for i, (start, count) in enumerate(plan):
            n = '%s%s-%d' % (flavour, tag, i)
            js, tp, hs = ('%s/%s.%s' % (self.work, n, x) for x in ('json', 'tape', 'hashes'))
            jobs.append(Job(n, [exe, 'run', str(self.seed), str(start), str(count), str(seconds), js, tp, hs], 'run', self.work,
                            env=env, flavour=flavour, exe=exe, json=js, tape=tp, hashes=hs, seed=self.seed, start=start))
        return jobs

    def fuzz_jobs(self, exe, flavour, runs, seconds):
        corpus = self.work + '/corpus'
        os.makedirs(corpus, exist_ok=True)
        p = subprocess.run([exe, 'dump', str(self.seed), '80', corpus], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=child_env(flavour))
        if p.returncode:
            pass  # a failing seed case is found by the jobs themselves
        jobs = []
        for i in range(CORES):
            n = 'fuzz-%d' % i
            d = '%s/%s.corpus' % (self.work, n)
            os.makedirs(d, exist_ok=True)
            art = '%s/%s.artifact-' % (self.work, n)
            js = '%s/%s.json' % (self.work, n)
            cmd = [exe, 'fuzz', js, '-runs=%d' % runs, '-max_total_time=%d' % seconds, '-seed=%d' % (self.seed * 1000 + i + 1),
                   '-max_len=%d' % (600 if i % 2 else 4000), '-len_control=0', '-use_value_profile=%d' % (i % 2), '-timeout=100', '-rss_limit_mb=3500',
                   '-artifact_prefix=' + art, '-print_final_stats=1', '-verbosity=1', d, corpus]
            jobs.append(Job(n, cmd, 'fuzz', self.work, flavour=flavour, exe=exe, json=js, artifacts=art))
        return jobs

    def once_job(self, exe, flavour, env=None):
        return Job('once-' + flavour, [exe, 'once'], 'once', self.work, env=env, flavour=flavour, exe=exe)

    def run(self):
        plain_n, fuzz_fl, fuzz_rand, fuzz_runs = CONFIG[self.prop]
        deep = self.tier == 'thorough'
        mult = 25 if deep else 1
        cap = 240 if deep else 25
        first = FIRST.get(self.prop, 'plain')
        flavours = [first] + ([fuzz_fl] if fuzz_fl else []) + (['tsan'] if self.prop == 'C19' else []) + (list(MIXED)[1:] if self.prop == 'C35' else [])
        t0 = time.time()
        exes = build_many(self.prop, flavours)
        self.stages.append({'stage': 'build ' + ' '.join(flavours), 'seconds': round(time.time() - t0, 1)})
        plain = exes[first]
        p = subprocess.run([plain, 'selftest'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError('the reference model fails its own test: ' + p.stdout)
        self.rule = subprocess.run([plain, 'rule'], stdout=subprocess.PIPE, text=True).stdout.strip()
        perturb = {'MALLOC_PERTURB_': '165'}

        if self.prop == 'C35':
            per = plain_n * mult // len(MIXED)
            jobs = [self.once_job(exes[fl], fl, perturb) for fl in MIXED if fl in exes]
            for i, fl in enumerate(MIXED):
                if fl in exes:
                    for half in (0, 1):
                        jobs += self.shards(exes[fl], fl, per // 2, cap, (2 * i + half) * 4000000, env=perturb, width=1, tag='-%d' % half)
            self.stage('random cases, %d builds' % len(exes), jobs)
            return

        jobs = [self.once_job(plain, first, perturb)] if self.prop != 'C19' else []
        jobs += self.shards(plain, first, plain_n * mult, cap, 0, env=perturb,
                            fresh=(400 if deep else 100) if self.prop in ('C19', 'C16', 'C05', 'C21') else 0)
        self.stage('random cases, %s build' % first, jobs)

        if self.prop == 'C17':
            exe = plain
            jobs = []
            for i in range(CORES):
                tp = '%s/valgrind-%d.tape' % (self.work, i)
                args = ['run', str(self.seed), str(70000000 + i * 10000), str(3000 if deep else 40), str(cap if deep else 15), '%s/valgrind-%d.json' % (self.work, i), tp, tp + '.hashes']
                cmd = ['valgrind', '-q', '--error-exitcode=77', '--exit-on-first-error=yes', '--leak-check=no', '--child-silent-after-fork=yes', exe] + args
                jobs.append(Job('valgrind-%d' % i, cmd, 'valgrind', self.work, flavour='plain', exe=exe, tape=tp, args=args,
                                json='%s/valgrind-%d.json' % (self.work, i), hashes=tp + '.hashes'))
            self.stage('random cases under valgrind', jobs)
            self.valgrind(jobs)

        if fuzz_fl and fuzz_fl in exes:
            exe = exes[fuzz_fl]
            if fuzz_rand:
                jobs = [self.once_job(exe, fuzz_fl)] + self.shards(exe, fuzz_fl, fuzz_rand * mult, cap, 10000000)
                self.stage('random cases, %s build' % fuzz_fl, jobs)
            self.stage('coverage-guided cases (libFuzzer), %s build' % fuzz_fl,
                       self.fuzz_jobs(exe, fuzz_fl, fuzz_runs * (40 if deep else 1), 240 if deep else 12), limit=900)
        if self.prop == 'C19':
            exe = exes['tsan']
            jobs = self.shards(exe, 'tsan', 800 * mult, cap, 20000000, fresh=400 if deep else 100)
            self.stage('random cases, ThreadSanitizer build', jobs, width=CORES + 4)

    def valgrind(self, jobs):
        n = 0
        for j in jobs:
            try:
                n += json.load(open(j.info['json']))['done']
            except (OSError, ValueError):
                pass
        self.evals += n
        self.stages[-1]['cases'] = n

    def evidence(self, violations, wall):
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': LEVEL[self.prop],
            'coverage': {
                'evaluations': self.evals,
                'distinct_nontrivial': len(self.hashes) + self.fuzz_distinct,
                'rule': self.rule,
                'samples': self.samples or ['(none: the run stopped before a sample was taken)'],
                'labels': dict(sorted(self.labels.items())),
                'stages': self.stages,
                'fixed_cases': self.notes,
                'known_findings_seen': sorted(self.known_seen),
                'unconfirmed': self.unconfirmed,
            },
            'assumptions': ASSUME,
            'wall_s': round(wall, 1),
            'violations': violations,
        }
        tmp = os.path.join(EVIDENCE, '.%s.%d' % (self.prop, os.getpid()))
        with open(tmp, 'w') as fd:
            json.dump(ev, fd, indent=1)
        os.rename(tmp, os.path.join(EVIDENCE, self.prop + '.json'))


class Violation(Exception):
    def __init__(self, path, replay):
        super().__init__(path)
        self.path, self.replay = path, replay


def known_findings(prop):
    r = {}
    try:
        for line in open(os.path.join(HERE, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return r


def check(prop, tier, seed):
    t0 = time.time()
    c = Check(prop, tier, seed)
    try:
        try:
            c.run()
            listed = known_findings(prop)
            for k, what in sorted(c.known_seen.items()):
                if k in listed:
                    print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, listed[k]))
                else:
                    c.violation({'kind': 'finding', 'flavour': 'plain', 'message': '%s: %s' % (k, what)})
        except Violation as v:
            c.evidence(1, time.time() - t0)
            print('%s: %s' % (prop, v.replay['message'].strip()[:3000]))
            print('VIOLATION property=%s replay=%s' % (prop, v.path))
            return 1
        c.evidence(0, time.time() - t0)
        for u in c.unconfirmed:
            print('note: ' + u)
        if c.evals == 0:
            print('no case was run')
            return 2
        print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (prop, c.evals, len(c.hashes) + c.fuzz_distinct, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
        prune_build()


def replay(path):
    r = json.load(open(path))
    prop = r['property']
    fl = r['flavour']
    exe = build_many(prop, [fl])[fl]
    env = child_env(fl)
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        print(r['message'])
        if r['kind'] == 'once':
            rc = subprocess.run([exe, 'once'], env=env).returncode
        elif r['kind'] == 'sequence':
            rc = subprocess.run([exe, 'run', str(r['seed']), str(r['start']), str(r['count']), '600', work + '/j', work + '/t', work + '/h'], env=env).returncode
            if os.path.exists(work + '/j'):
                print(json.load(open(work + '/j'))['message'])
        elif r['kind'] == 'valgrind':
            args = r['args'][:5] + [work + '/j', work + '/t', work + '/h']
            rc = subprocess.run(['valgrind', '-q', '--error-exitcode=77', '--exit-on-first-error=yes', exe] + args, env=env).returncode
        elif r['kind'] == 'finding':
            print('a finding id that known-findings.txt does not list; run the check again')
            return 1
        else:
            rc, out, _ = 0, '', 0
            fails, out, rc = run_one(exe, bytes.fromhex(r['choices']), work, 30 if prop == 'C19' else 1, env)
            print(describe(exe, bytes.fromhex(r['choices']), work, env))
            print(out)
        print('still fails' if rc else 'passes')
        return 1 if rc else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    for tool in ('g++', 'clang++', 'ar', 'valgrind'):
        if not shutil.which(tool):
            raise CheckError('missing ' + tool)
    if not os.path.exists(FUZZER_LIB):
        raise CheckError('missing ' + FUZZER_LIB)
    exe = build_many('C03', ['plain', 'cov'])
    for e in exe.values():
        subprocess.run([e, 'selftest'], check=True)


def main(a):
    if a[:1] == ['replay'] and len(a) == 2:
        return replay(a[1])
    if a == ['setup']:
        setup()
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        a = a[:i] + a[i + 2:]
    if len(a) != 1 or a[0] not in CONFIG or tier not in ('quick', 'thorough'):
        print(__doc__)
        return 2
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    return check(a[0], tier, seed)


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1:]))
    except CheckError as e:
        print('ERROR: %s' % e)
        sys.exit(2)
