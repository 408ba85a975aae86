#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = 'explicit-state enumeration of all mutation histories within bounds, on the real code, against a reference model in lockstep'
TRUST = 'Exhaustive within the stated bounds only. Trusts the reference model (mc/src/model.rs), which is written without steit, and the hand-picked schemas and value alphabets.'
CHECKS = {}
def check(pid, technique, note): CHECKS[pid] = (technique, note)
check('C01', HIST, 'Every history up to 3 mutations (5 in the thorough tier) over alphabets of values, from new, built, decoded and replayed roots of about 50 schemas; its log is replayed in batches and as a whole. ' + TRUST)
check('C02', HIST, 'Every cut of every history up to 3 mutations (5 in the thorough tier). ' + TRUST)
check('C03', HIST, 'Every way of rebuilding the state reached by every history, times all mutations of it. ' + TRUST)
check('C04', HIST, 'Every record logged in every history up to 3 mutations (5 thorough), compared byte by byte with the model. ' + TRUST)
check('C06', 'explicit-state enumeration of all mutation histories interleaved with every size computation or encoding of every node, on the real code', 'Sizes and bytes are compared with the model after every interleaving of looks and mutations. ' + TRUST)
check('C16', 'explicit-state enumeration of all pairs of reachable states and records, on the real code, against an acceptance predicate of the model', 'All records over an alphabet of kinds, paths, keys and payloads, and all pairs of them, on the states reached. ' + TRUST)
check('C17', 'explicit-state enumeration of all moves of live values between two trees, on the real code', 'After each history of moves, every mutation enabled in every node of both trees and of every detached value is checked to log exactly where it is. ' + TRUST)
check('C18', HIST, 'Contents, results of all operations, iteration and accessors are compared with the model after each history. ' + TRUST)
VALUES = 'exhaustive enumeration of bounded values of all types on the real code, against an independent model of the format'
check('C05', VALUES, 'All values within a budget of deviations of about 120 types, and grown and deeply nested ones, are encoded and decoded standalone, nested and as fields. ' + TRUST)
check('C07', VALUES, 'Encodings of the same values, and of logs, are compared byte by byte with the model of the wire format. ' + TRUST)
check('C08', 'exhaustive enumeration of byte strings over alphabets and of all edits of valid encodings, decoded by the real code against a model decoder, with allocations metered', 'All strings up to a length which depends on the type, and all small edits of valid encodings and logs. Deep nesting is probed in a process of its own. ' + TRUST)
check('C09', 'fault enumeration: every cut of the logs of all bounded histories, and of nested values, on the real code against a reference model', 'Histories up to 3 mutations (4 thorough); logs longer than 400 bytes are only cut around record boundaries, near the end and at every 97th byte. ' + TRUST)
check('C10', 'exhaustive enumeration of pairs of schema versions, values and places for unknown fields, on the real code', 'All pairs of 18, 17 and 8 versions of three schemas in all wrappers, and unknown fields injected at every place of encodings of all types. ' + TRUST)
check('C11', 'exhaustive enumeration of pairs and triples of bounded values to be merged, on the real code against the model', 'All pairs (and some triples) of values of all types. ' + TRUST)
check('C12', 'exhaustive enumeration of environment answers (chunk sizes, interruptions, errors) within a deviation bound, on the real code', 'Every chunking of inputs up to 9 bytes; otherwise every call of readers and writers may be interrupted, cut short or fail, one deviation at a time (two in the thorough tier). ' + TRUST)
check('C19', 'exhaustive enumeration of pairs of values, each reached in all ways, and of histories, on the real code', 'All pairs of up to 130 values (500 thorough) of each type, in all ways of reaching them, compared with the equality of what the model says is compared or hashed. ' + TRUST)
check('C24', 'exhaustive enumeration of all 32-bit values on the real code', 'All 2^32 values of u32 and i32 and all legal tags; in the quick tier, illegal tags and field numbers are covered up to 2^23 and beyond that for values with up to four runs of ones and their neighbours, in the thorough tier all of them.')
SCHED = 'stateless model checking: exhaustive enumeration of thread schedules of the real code under a controlled scheduler, with a preemption bound'
check('C14', SCHED, 'All interleavings (of lock operations, atomics, sink calls and closures) of two single mutations of disjoint parts; with readers, longer programs and three threads up to 1 to 4 preemptions (more in the thorough tier). Only sequentially consistent interleavings; there is no unsafe code in the crate. ' + TRUST)
check('C15', SCHED, 'All interleavings (of accesses to size caches and writes) of two or three threads encoding, measuring, cloning a shared value, up to 1 or 2 preemptions, unbounded for small values. Only sequentially consistent interleavings. ' + TRUST)
exec(open(os.path.join(here, 'tools', 'manifest_more.py')).read()) if os.path.exists(os.path.join(here, 'tools', 'manifest_more.py')) else None
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=--cfg steit_mc'], capture_output=True, text=True).stdout.split()
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'hooks': {'guard': '--cfg steit_mc', 'enable': 'RUSTFLAGS="--cfg steit_mc" (set by check.sh)', 'source_commits': hooks},
    'checks': [{
        'property': p['id'],
        'quick_cmd': './check.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
        'technique': CHECKS[p['id']][0],
        'level': 'model_checking',
        'level_note': CHECKS[p['id']][1],
    } for p in props if p['id'] in CHECKS],
    'not_applicable': [{'property': p['id'], 'reason': 'No check has been built yet.'} for p in props if p['id'] not in CHECKS],
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
