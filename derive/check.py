#!/usr/bin/env python3
"""Decides C20: lets the compiler run the derive on every enumerated schema, and compares the outcome with the verdict.

Usage: check.py [--replay FILE]. Builds against /repo's working tree.
"""
import json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import schemas

VERIF = os.environ.get('VERIF_DIR', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = '/repo'
WORK = os.path.join(VERIF, 'derive', 'target', 'work')
START = time.time()
LEFT = []
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
HEAD = '''#![allow(warnings)]
use steit::{steit_derive, state::State, types::*};
mod common {
    use steit::{steit_derive, types::*};
    #[steit_derive(State, PartialEq, Eq, Hash, Debug, Clone)] pub struct Other { #[steit(tag = 0)] a: u8, #[steit(tag = 1)] b: List<u8> }
    #[steit_derive(State, PartialEq, Eq, Hash, Debug, Clone)] pub enum OtherEnum { #[steit(tag = 0)] A, #[steit(tag = 1)] B { #[steit(tag = 0)] c: u8 } }
    #[steit_derive(State, PartialEq, Eq, Hash, Debug, Clone)] pub struct Gen<T: steit::state::State> { #[steit(tag = 0)] a: T }
    #[steit_derive(State, PartialEq, Eq, Hash, Debug, Clone)] pub enum GenEnum<T: steit::state::State> { #[steit(tag = 0)] A, #[steit(tag = 1)] B(#[steit(tag = 0)] T) }
    #[steit_derive(Serialize, Deserialize, PartialEq, Eq, Hash, Debug, Clone)] pub struct Data { #[steit(tag = 0)] a: u8, #[steit(tag = 1)] b: String }
}
use common::*;
fn main() {}
'''
OWN = HEAD.count('\n')


def broken(why):
    print('C20: ' + why, file=sys.stderr)
    sys.exit(2)


def compile(targets, timeout):
    """Checks targets, each a list of schemas; returns the errors in each schema, or None if that takes too long."""
    src = os.path.join(WORK, 'src')
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src)
    toml = '[package]\nname = "schemas"\nversion = "0.1.0"\nedition = "2018"\nautobins = false\n[workspace]\n[dependencies]\n'
    toml += f'steit = {{ path = "{REPO}/steit" }}\n[profile.dev]\ndebug = 0\nincremental = false\n[lib]\npath = "src/lib.rs"\n'
    toml += '[profile.dev.build-override]\nopt-level = 1\n'
    write(os.path.join(src, 'lib.rs'), '')
    for n, schemas_ in enumerate(targets):
        lines = [f'mod m{i} {{ use super::*; {s[1]} }}\n' for i, s in enumerate(schemas_)]
        write(os.path.join(src, f't{n}.rs'), HEAD + ''.join(lines))
        toml += f'[[bin]]\nname = "t{n}"\npath = "src/t{n}.rs"\nedition = "{["2018", "2021"][n % 2]}"\n'
    write(os.path.join(WORK, 'Cargo.toml'), toml)
    if not os.path.exists(os.path.join(WORK, 'Cargo.lock')):
        shutil.copy(os.path.join(REPO, 'Cargo.lock'), WORK)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings', CARGO_TERM_COLOR='never')
    cmd = ['cargo', 'check', '--offline', '--bins', '--keep-going', '--message-format=json', '--target-dir', os.path.join(WORK, 'target')]
    p = subprocess.Popen(cmd, cwd=WORK, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None
    errors = [{} for _ in targets]
    done = 0
    lost = []
    for line in out.splitlines():
        m = json.loads(line)
        if m.get('reason') != 'compiler-message' or not m['target']['name'].startswith('t') or m['target']['kind'] != ['bin']:
            if m.get('reason') == 'compiler-message' and m['message']['level'].startswith('error'): broken(m['message']['rendered'])
            continue
        n, m = int(m['target']['name'][1:]), m['message']
        done += 1
        if not m['level'].startswith('error'): continue
        at = set()
        for span in m['spans'] + [s for c in m['children'] for s in c['spans']]:
            while span.get('expansion'): span = span['expansion']['span']
            if span['file_name'] == f'src/t{n}.rs' and span['line_start'] > OWN: at.add((not span['is_primary'], span['line_start'] - OWN - 1))
        if at: errors[n].setdefault(min(at)[1], m['message'])
        elif not m['message'].startswith(('aborting', 'Some errors', 'For more')): lost.append(m.get('rendered') or m['message'])
    if lost: broken('error which belongs to no schema: ' + lost[0])
    if 'error: could not compile `schemas`' not in err and p.returncode != 0: broken(err[-3000:])
    if any('internal compiler error' in m for e in errors for m in e.values()): broken('the compiler crashed')
    return errors


def write(path, text):
    with open(path, 'w') as f: f.write(text)


def spread(all_, size):
    n = max(1, -(-len(all_) // size))
    return [t for t in (all_[i::n] for i in range(n)) if t]


def run(valid, invalid, timeout):
    """Returns schemas which compile or don't, contrary to their verdict, with an explanation."""
    wrong = []
    rounds = 0
    # An error found early by the compiler keeps it from looking for others. So schemas without an error are tried again.
    while valid or invalid:
        rounds += 1
        targets = spread(valid, 400) if valid else []
        k = len(targets)
        targets += spread(invalid, 800) if invalid else []
        errors = compile(targets, timeout)
        if errors is None:
            if len(valid) + len(invalid) == 1: return [((valid + invalid)[0], 'the derive does not end')], rounds
            # Looking for one the derive hangs on.
            both = valid + invalid
            for half in (both[:len(both) // 2], both[len(both) // 2:]):
                w, r = run([s for s in half if s[2]], [s for s in half if not s[2]], 120)
                if w: return w, rounds + r
            broken('the compiler takes too long')
        again, progress = [], False
        for n, t in enumerate(targets):
            bad = errors[n]
            if n < k:
                wrong += [(t[i], m) for i, m in bad.items()]
                if bad: again += [s for i, s in enumerate(t) if i not in bad]
        left = [s for n, t in enumerate(targets) if n >= k for i, s in enumerate(t) if i not in errors[n]]
        if len(left) == len(invalid):
            wrong += [(s, 'compiles') for s in left]
            LEFT.extend(left)
            left = []
        valid, invalid = again, left
    return wrong, rounds


def known():
    out = {}
    with open(os.path.join(VERIF, 'known_findings.jsonl')) as f:
        for line in f:
            k = json.loads(line)
            if k['property'] == 'C20' and k['status'] == 'known':
                for name in k['names']: out[k['family'], name] = k['id']
    return out


def main():
    if not os.path.isdir(os.path.join(REPO, 'steit-derive')): broken('no /repo')
    replay = None
    if '--replay' in sys.argv:
        with open(sys.argv[sys.argv.index('--replay') + 1]) as f: replay = json.load(f)
    os.makedirs(WORK, exist_ok=True)
    if '--warm' in sys.argv: return compile([[]], 600)
    if replay: all_ = [(replay['family'], replay['schema'], replay['ok'])]
    else: all_ = list(schemas.schemas(THOROUGH))
    listed, found = known(), {}
    # Those known to be rejected are compiled along with those which should be, to keep their errors from hiding others.
    listed = {s[1]: listed[s[0], schemas.subject(s)] for s in all_ if s[2] and (s[0], schemas.subject(s)) in listed}
    fresh, rounds = run([s for s in all_ if s[2] and s[1] not in listed], [s for s in all_ if not s[2] or s[1] in listed], 3000 if THOROUGH else 700)
    fresh = [(s, why) for s, why in fresh if s[1] not in listed]
    compiled = {s[1] for s in LEFT}
    for s in all_:
        if s[1] in listed and s[1] not in compiled: found.setdefault(listed[s[1]], set()).add(schemas.subject(s))
    for k, ns in sorted(found.items()):
        print(f'KNOWN-FINDING: property=C20 {k}: {", ".join(sorted(ns))}')
    if not replay:
        families = {}
        for f, _, ok in all_: families.setdefault(f, [0, 0])[not ok] += 1
        step = max(1, len(all_) // 12)
        evidence = {
            'property': 'C20', 'tier': 'thorough' if THOROUGH else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
            'coverage': {
                'states': len(all_), 'transitions': sum(1 for s in all_ if s[2]), 'traces_validated_against_impl': len(all_),
                'explanation': 'States: distinct schemas enumerated. Transitions: those expanded and compiled in full. Each is compiled by rustc with the real derive, and the outcome compared with the verdict.',
                'families (accepted, rejected)': families, 'rounds': rounds, 'exhaustive': True,
                'samples': [{'family': f, 'schema': t, 'accepted': ok} for f, t, ok in all_[::step]],
            },
            'assumptions': ['Editions 2018 and 2021 only.'],
            'violations': len(fresh), 'wall_s': round(time.time() - START, 1),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        write(os.path.join(VERIF, 'evidence', 'C20.json'), json.dumps(evidence, indent=1))
    if fresh:
        fresh.sort(key=lambda w: len(w[0][1]))
        for s, why in fresh[:9999 if os.environ.get('ALL') else 10]:
            print(f'{"rejected" if s[2] else "accepted"} [{s[0]}] {s[1][:300]}\n    {why}', file=sys.stderr)
        path = os.path.join(VERIF, 'replays', 'C20.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        s = fresh[0][0]
        if not replay: write(path, json.dumps({'family': s[0], 'schema': s[1], 'ok': s[2]}))
        else: path = sys.argv[sys.argv.index('--replay') + 1]
        print(f'{len(fresh)} schemas', file=sys.stderr)
        print(f'VIOLATION property=C20 replay={path}')
        sys.exit(1)
    print(f'C20: {len(all_)} schemas, held ({time.time() - START:.1f} s)')


if __name__ == '__main__': main()
