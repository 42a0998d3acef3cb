#!/usr/bin/env python3
"""Write MANIFEST.json from the table below (properties with a check)"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib import checks   # noqa: E402

LOCK = 'lock-step bounded exhaustive exploration of the implementation ' \
    'against an executable reference model'
MODEL = 'Trusts the reference model in /verif/ref (an independent build of ' \
    'the codec definition with its rounding freedom made explicit, itself ' \
    'held to the implementation on every transition), the compiler and the ' \
    'alphabet of signals; contents outside the alphabet are not covered.'

T = {
'C01': ('bounded exhaustive exploration of decode histories under ASan/UBSan '
        'and MSan, exact-size buffers', 'exploration',
        'All histories of the bounded alphabet (encoded, crafted field by '
        'field, bit-flipped, garbage, lost, refused sizes) on all 69 '
        'configurations; trusts the sanitizers as memory monitors.'),
'C02': ('bounded exhaustive exploration of encode histories under ASan/UBSan '
        'and MSan, exact-size buffers', 'exploration',
        'All words over the PCM alphabet and frame sizes within the bounds, '
        'all accepted and refused sizes, all 69 configurations; trusts the '
        'sanitizers as memory monitors.'),
'C03': ('bounded exhaustive exploration of encode histories, each frame read '
        'back by a model parser and the decoder', 'model_checking', MODEL),
'C04': (LOCK, 'model_checking', MODEL),
'C05': (LOCK + ' with bounded rounding nondeterminism', 'model_checking',
        MODEL),
'C06': ('exploration of all loss patterns up to a depth, relational checks '
        'at each state and lock-step with the model', 'model_checking',
        MODEL),
'C07': ('stateless model checking: exhaustive call interleavings, shared '
        'access monitor and preemption-bounded schedules', 'model_checking',
        'Interleavings of memory accesses reduce to those of calls when no '
        'shared access is found (independence); otherwise schedules are '
        'explored up to 2 preemptions under sequential consistency.'),
'C08': ('exhaustive enumeration of the arguments against a model of the '
        'queries', 'model_checking',
        'All bitrates, sizes and rates in the stated ranges for every '
        'configuration, and the extremes; oracle written from the header.'),
'C09': ('exhaustive enumeration of parameter combinations, and insertion of '
        'refused calls at every point of bounded histories',
        'model_checking', 'Histories of the alphabet only.'),
'C10': ('exhaustive enumeration of formats and strides over bounded '
        'histories, relational check', 'model_checking',
        'Signals of the alphabet, all configurations, strides up to 7.'),
'C11': ('exploration of setup points, memory contents and relocations over '
        'bounded histories, relational check, MSan', 'model_checking',
        'Memory contents of the alphabet; MSan for uninitialized reads.'),
'C12': ('exploration of C++ call histories in lock-step with a model built '
        'on C contexts', 'model_checking',
        'The model is one C context per channel.'),
'C13': ('exploration of Python call histories in lock-step with a model '
        'built on C contexts', 'model_checking',
        'The model is one C context per channel, driven by ctypes.'),
'C14': ('exhaustive enumeration of stream shapes, options and truncation '
        'points of the real tools against a model of the stream',
        'model_checking',
        'Tools built with gcc and sanitizers, run in a scratch directory.'),
'C15': ('exhaustive enumeration of headers, layouts and truncation points '
        'against a model of the containers', 'model_checking',
        'Container code linked in a harness with sanitizers.'),
'C16': ('exploration of all points of call in bounded histories, lock-step '
        'with the model', 'model_checking', MODEL),
'C17': ('exhaustive enumeration of configurations, signals and sizes, '
        'compared to the model round trip', 'model_checking', MODEL),
'C18': ('lock-step exploration of reduced and full builds', 'model_checking',
        'Histories of the alphabet, all configurations.'),
'C19': ('lock-step exploration of vectorised (emulated intrinsics) and '
        'portable builds', 'model_checking',
        'The intrinsics are emulated in C (headers in test/), not run on ARM.'),
'C20': ('exhaustive enumeration of the floating-point domain',
        'model_checking',
        'Each float of the domain is evaluated, for the compilers and '
        'options listed; other compilers are not covered.'),
'C21': ('exhaustive enumeration of field sequences up to a length, for all '
        'buffer sizes', 'model_checking',
        'Drives the internal bit-coder interface.'),
'C22': ('exhaustive enumeration of rate pairs, signals and sizes, with '
        'spectral and alignment oracles', 'model_checking',
        'Tolerances of the oracles are stated in DESIGN.md.'),
'C23': ('lock-step exploration of the WebAssembly and native builds',
        'model_checking',
        'The module runs in node; skipped, with a note, where the module '
        'cannot be built.'),
}

NA = {}

props = [json.loads(line) for line in open(ROOT + '/properties.jsonl')]
m = {
    'version': 1,
    'setup_cmd': 'python3 run.py --setup',
    'hooks': {'guard': 'none', 'enable': 'no hook is needed: the checks '
              'build the unmodified sources', 'source_commits': []},
    'checks': [], 'not_applicable': [],
    'notes': 'Common runner: run.py ID [quick|thorough]; replay of a report: '
             'run.py --replay FILE. See DESIGN.md.'
}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        t = T[i]
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 run.py ' + i,
            'thorough_cmd': 'python3 run.py %s thorough' % i,
            'technique': t[0], 'level': t[1], 'level_note': t[2]})
    else:
        m['not_applicable'].append({
            'property': i, 'reason': NA.get(i, 'check not built yet')})

with open(ROOT + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
