#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'PBT + libFuzzer, differential against a reference cipher',
    'C02': 'PBT + libFuzzer, round trip and differential against a reference cipher',
    'C03': 'PBT + libFuzzer, differential against the table definition',
    'C04': 'PBT + libFuzzer, generated well-formed and malformed texts against a parser model',
    'C05': 'PBT + libFuzzer, differential against a reference cipher and key schedule',
    'C06': 'PBT + libFuzzer, generated expression trees against integer/GF(2^8) evaluation',
    'C07': 'stateful PBT + libFuzzer, generated write/read histories against an ECB model',
    'C08': 'stateful PBT + libFuzzer, generated write histories against a CFB model',
    'C09': 'stateful PBT + libFuzzer, generated read histories against a CFB model, round trip',
    'C10': 'stateful PBT + libFuzzer, generated write histories against a CFB model',
    'C11': 'stateful PBT + libFuzzer, generated read histories against a CFB model, round trip',
    'C12': 'stateful PBT + libFuzzer under ASan, generated iterator histories against a CTR model',
    'C13': 'PBT + libFuzzer, differential against a reference OMAC',
    'C14': 'PBT + libFuzzer, differential against a reference OMAC',
    'C15': 'PBT + libFuzzer, differential against a reference MAC',
    'C16': 'model-based stateful PBT + libFuzzer under ASan over histories on a pool of live objects',
    'C17': 'PBT + libFuzzer under ASan/UBSan and valgrind',
    'C18': 'PBT with stack high-water measurement, differential against reference results',
    'C19': 'PBT over thread schedules with pausing and failing stand-ins; ThreadSanitizer',
    'C20': 'PBT with fault injection at every generated call, differential against an undisturbed run',
    'C21': 'stateful PBT + libFuzzer, generated request histories with counting stand-ins',
    'C22': 'PBT + libFuzzer, generated round functions against a Feistel model',
    'C23': 'PBT + libFuzzer, generated material of every size: refusal or the reference answer',
    'C24': 'PBT + libFuzzer, generated well-formed and malformed texts against a parser model',
    'C25': 'stateful PBT + libFuzzer, generated pipelines against composed reference functions',
    'C26': 'stateful PBT + libFuzzer, generated histories over journalling single-use stand-ins',
    'C27': 'PBT, metamorphic: counted work and memory for n, 2n and 4n blocks of generated operations',
    'C28': 'stateful PBT + libFuzzer, metamorphic over generated deliveries, reference answer',
    'C29': 'stateful PBT + libFuzzer under ASan, generated orders of overwriting and freeing what was given',
    'C30': 'stateful PBT + libFuzzer, metamorphic: memory in use over repetitions of generated scripts',
    'C31': 'PBT + libFuzzer with allocation failures at enumerated and generated positions, reference answers',
    'C32': 'stateful PBT + libFuzzer over generated states of the process, reference answers',
    'C33': 'PBT over generated client programs, compiled, linked and run against reference answers',
    'C34': 'stateful PBT + libFuzzer over generated uses nested in callbacks, reference answers',
    'C35': 'stateful PBT, the same generators in nine builds of library and program, reference answers',
}
NOTE = ('Generated-input search: no violation on the cases of the run (numbers in the evidence file), not a proof. '
        'Trusts harness/ref.h, written from the standards and checked against their vectors at every run, and the compilers.')
EXTRA = {
    'C27': ' Counts in a build with -fsanitize-coverage=trace-pc and wrapped memcpy/operator new; 160 to 1040 blocks per message.',
    'C13': ' Known finding: incomplete last block padded with zeros only (known-findings.txt).',
    'C14': ' Known finding: incomplete last block padded with zeros only (known-findings.txt).',
    'C17': ' Sees what ASan, UBSan (bounds, shift distance) and, on part of the cases, valgrind see.',
    'C18': ' Stack use is measured on a 1 MiB thread stack in the -O2 build; messages up to 60000 blocks.',
    'C19': ' Schedules are sampled (steered by pauses inside first evaluations); ThreadSanitizer judges races on them.',
    'C30': ' A leak counts when memory grows in every one of the last 6 runs and on through 250 more.',
    'C31': ' Allocation numbers 0..39 of every step in turn, or generated ones up to some thousands.',
    'C35': ' Nine builds by GCC 13 and Clang 18 for x86-64; of the checking modes of the standard library its assertions only.',
    'C20': ' Each case fails one or more generated call numbers; small operations get every call number in turn.',
}
checks = []
for line in open(HERE + '/properties.jsonl'):
    p = json.loads(line)['id']
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py %s --tier quick' % p,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': TECH[p],
        'level': 'fault_enumeration' if p in ('C20', 'C31') else 'exploration',
        'level_note': NOTE + EXTRA.get(p, ''),
    })
json.dump({
    'version': 1,
    'setup_cmd': 'python3 check.py setup',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks in /repo: the checks use the public classes only. Replay a reported case with: python3 check.py replay FILE',
}, open(HERE + '/MANIFEST.json', 'w'), indent=1)
