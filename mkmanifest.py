#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = 'contracts on the real functions, discharged by symbolic execution of their source with inferred loop invariants (pyvc) and z3'
BASE = 'All obligations generated from the current source are discharged for every input, iteration count and callback behaviour; ' \
       'trusted: the VC generator in pyvc/, z3, the models of builtins; assumed: see evidence (assumptions) and DESIGN.md. '
CLAIMS = {
    'C01': 'Arbitrary schema class, field, data and callback outcomes; the data is a finite mapping with distinct keys.',
    'C02': 'Both directions: every kind of problem raises the configured class with an error under the key, and nothing wrong returns.',
    'C03': 'Field._run_validators for every list of validators; load/update/assignment over its contract.',
    'C04': 'Any exception of any callback included.',
    'C05': 'Update and assignment.',
    'C06': 'Arbitrary include/exclude iterables and serialization callbacks.',
    'C07': 'Ambient variables at every callback and at every exit.',
    'C08': 'Induction on the type expression: every form of expression, over the contract of _process_value for its parts.',
    'C09': 'Arbitrary TypedDict classes (declared keys, types, required keys), over the contract of _process_value.',
    'C10': 'Arbitrary mappings and flags, over the contract of _process_value.',
    'C11': 'Arbitrary values, including objects with user-defined conversions.',
    'C12': 'Per field class, over the contract of TypeValidator.validate (decided by C08/C09).',
    'C13': 'Object.value_load/value_dump over the contracts of Schema construction and dump.',
    'C14': 'The flattening of messages, the errors by key and the conversion of messages, with lists filtered while iterated.',
    'C15': 'Both directions of independence after update, assignment and every write to a state mapping.',
    'C16': 'Schema.__init_subclass__ and Field._bind for arbitrary class bodies and parent tables; single inheritance of the tables.',
    'C17': 'Arbitrary bounds, values, patterns and validator sequences; re and == are uninterpreted.',
    'C18': 'Lists are arbitrary sequences; equality of validators is an uninterpreted relation.',
    'C19': 'Constructor options, keys and accessors.',
    'C20': 'Metaclass on arbitrary bodies with at most one configuration class and one base schema; options on arbitrary instances.',
    'C21': 'Arbitrary format_error results and field subclasses.',
    'C22': 'Ownership contract at every write of the library: with the per-thread, per-task semantics of ContextVar (trusted) and C07, no '
           'interleaving of operations on different schemas can mix their errors.',
}
PENDING = {}
NA = {}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = [{'property': p, 'quick_cmd': f'python3-vt check.py {p} --tier quick', 'thorough_cmd': f'python3-vt check.py {p} --tier thorough',
               'technique': T, 'level': 'proof', 'level_note': BASE + CLAIMS[p]} for p in ids if p in CLAIMS]
    na = [{'property': p, 'reason': NA.get(p) or PENDING.get(p) or 'contracts for this property are not finished'} for p in ids if p not in CLAIMS]
    json.dump({'version': 1, 'setup_cmd': "python3-vt -c 'import z3; print(z3.get_version_string())'", 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks: /repo is verified from its source as it is.'}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
