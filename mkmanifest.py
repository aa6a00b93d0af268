#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = 'TLA+ specification checked with TLC: '
tr = 'calls recorded from the real code are validated against the TLA+ state machine (EccTrace.tla) by TLC, with arguments and histories generated from the specification and at its boundaries'
N = dict(
 C01=('Exhaustive operation tables for small primes; boundary and random operands for 60 primes up to 1024 bits', ''),
 C02=('Exhaustive tables for small primes; special residues for primes of every 2-adicity', ''),
 C03=('Conversions, comparisons and swaps', ''),
 C04=('Valid and invalid definitions, exhaustive point checks on small fields, comparisons of curves differing in one parameter', ''),
 C05=('The published table is part of the specification (Named.tla), itself checked by MCNamed; every name and thousands of non-names', ''),
 C06=('Whole addition tables of small curves of all forms; special and random points on all named curves', ''),
 C07=('All multiples on small curves; boundary scalars on all named curves', ''),
 C08=('All byte strings for small curves; mutated encodings for all named curves', ''),
 C09=('All signatures of small groups; outside-made signatures and near misses on all named curves', ''),
 C10=('All strings of small groups; boundary values on all named curves', ''),
 C11=('Nonce relation by search in small groups, secret-key relation on all named curves', ''),
 C13=('Source of randomness replaced and counted; fixed streams, so verdicts do not vary', 'calls recorded under a controlled randomness source are validated against Random.tla (EccTrace extended by nonce images, consumption and distribution)'),
 C14=('Every block the library or GMP hands back is inspected by an interposed allocator', 'allocator observations recorded from the real code over generated call histories are validated against Memory.tla by TLC'),
 C15=('Allocator balance and guards, address and undefined-behaviour sanitizer, valgrind', 'allocator observations and sanitizer outcomes recorded from the real code over generated call histories are validated against Memory.tla by TLC'),
 C16=('All operators and constructors over integers of any size and sign, other fields, other curves, foreign types; every pair of operand types', 'calls recorded from the Python module are validated against the binding state machine (Binding.tla, over the values of EccTrace.tla) by TLC'),
 C17=('The ownership design is checked exhaustively (Ownership.tla) and its behaviours are replayed under a debugging allocator, the address sanitizer and a block counter; calls repeated on success and failure paths', 'behaviours of the ownership model (Ownership.tla) are replayed into the Python module and the recordings are validated against Binding.tla by TLC'),
 C18=('All operations over arguments of any size and sign, under garbage collection after every call and inside every library call, with a block counter; ownership histories replayed', 'behaviours of the ownership model (Ownership.tla) and generated programs are run through the Go package and the recordings are validated against GoBinding.tla by TLC'),
 C19=('The programs over generated keys, messages, files and alterations of every kind, plain and with sanitizers; formats, ciphers and groups evaluated in the specification', 'recordings of runs of the programs (files read, exit status, output) are validated against Examples.tla (with Armour.tla for the formats) by TLC'),
 C20=('Scripts of 2-4 threads under schedules enumerated by TLC (Schedules.tla) and sampled ones, executed access by access; model of the shared state (Registry.tla) checked by TLC, with negative controls', 'recordings of the threads under each schedule, put one thread after the other, are validated against EccTrace.tla by TLC: every interleaving is equivalent to a sequential execution'),
 C12=('Call histories are behaviours of Histories.tla produced by TLC simulation', ''),
)
checks = []
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
exec(open(V + '/lib/manifest_extra.py').read()) if os.path.exists(V + '/lib/manifest_extra.py') else None
for p in props:
    if p not in N: continue
    checks.append(dict(property=p, quick_cmd='python3 lib/checks.py %s quick' % p, thorough_cmd='python3 lib/checks.py %s thorough' % p,
                       technique=T + (N[p][1] or tr), level='model_checking', level_note=N[p][0]))
na = [dict(property=p, reason=NA.get(p, 'check not built yet')) for p in props if p not in N]
json.dump(dict(version=1, setup_cmd='python3 lib/setup.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
