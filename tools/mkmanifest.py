#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
MODEL = 'randomised histories of the real containers, with an online reference model as the oracle, under AddressSanitizer and UndefinedBehaviorSanitizer'
T = {
 'P01': MODEL, 'P02': MODEL + '; traversals and erasing loops are compared element by element', 'P03': MODEL + ' that keeps the insertion order',
 'P04': MODEL + ' with one index per key', 'P05': MODEL + '; every transfer is checked against the values of both sides',
 'P06': 'lifetime monitor (registered live objects, state of each object checked at every use) on randomised histories, under AddressSanitizer',
 'P07': 'allocator monitor (ledger of blocks, sizes and owners; propagation model) on randomised histories, under AddressSanitizer',
 'P08': 'address monitor (recorded references and iterators revisited later) on randomised histories, under AddressSanitizer',
 'P09': MODEL + '; conservation of elements across handles and merges',
 'P10': 'fault injection at every allocation, construction, copy, hash and comparison point reached by randomised operations; state compared with the model, sanitizers and leak ledger',
 'P11': 'growth monitor on bucket counts, relocations and allocations during randomised histories',
 'P12': 'differential runs: digests of the results of the same histories in different builds; internal assertions enabled',
 'P13': 'ThreadSanitizer on concurrent readers with results compared with a model',
 'P14': 'AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer on randomised histories over many element types, and on own elements as arguments',
 'P15': MODEL + '; containers with the same contents built by different histories',
 'P16': 'identity monitor on functor instances and conversion counts, on randomised histories',
 'P17': 'deterministic work counters (hash calls, comparisons, relocations, allocations, executed basic blocks) against limits, and a watchdog for termination',
 'P18': MODEL + '; bulk operations for every iterator category',
}
N = {
 'P10': 'Each faulted operation is repeated with the fault at the 1st, 2nd, ... point until it completes, so that every point of the operation in that state is visited; the states are sampled.',
 'P12': 'Builds: g++ and clang++, C++17 and C++20, SSE2, SSSE3 (AVX2 in the thorough tier) and portable groups, with and without assertions; the quick tier samples these combinations.',
 'P13': 'A race is reported when the two accesses happen in the same run, whether or not they collide in time; the const operations are sampled on sampled states.',
 'P17': 'Limits are several times the values measured on the unchanged tree; slowdowns below that pass.',
}
checks = []
for p in props:
    i = p['id']
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, technique=T[i],
                       level='fault_enumeration' if i == 'P10' else 'exploration',
                       level_note=(N.get(i, '') + ' Sampled histories, no proof: it trusts the model and monitors in harness/ and the sanitizers of the installed compilers.').strip()))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[], notes='No hooks in /repo: the monitors are the element, functor and allocator types the containers are instantiated with, and the compilers\' instrumentation.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
