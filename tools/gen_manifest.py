#!/usr/bin/env python3
"""writes MANIFEST.json from the properties and the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TRUST = (' Trusted: rustc\'s MIR for the pinned nightly, the models of std/crossterm/nix functions in lib/models.py, and the '
         'engine\'s join/widening; a construct it cannot see through fails the check rather than passing it.')
T = {
    'C01': ('typestate analysis of MIR (terminal set-up/tear-down automaton, all error paths)', 'Sound over all paths of the interpreted code for every single failure point of I/O, channel and thread operations.'),
    'C02': ('call-order and typestate analysis of MIR (drop/die paths, request order)', 'All paths of Drop, die and the I/O thread body; ordering between threads rests on the FIFO channel of std.'),
    'C03': ('typestate analysis of the claim flag and global handle over MIR, both feature configurations', 'All paths of construction and tear-down, including unwinding ones; atomicity of the mutex is trusted.'),
    'C04': ('typestate (display automaton) over MIR; call-graph effect analysis', 'All requests and keys from an arbitrary session state; each key class is represented by concrete keys.'),
    'C05': ('typestate (display automaton) over MIR up to each blocking wait', 'All requests and keys from an arbitrary session state, compared as terms; incremental drawing itself is not decided (C27).'),
    'C06': ('taint/dominance analysis of MIR (sanitiser on every route into a line), decision table of the sanitiser', 'Routes are found from the fields of the line type; the character classes are enumerated completely.'),
    'C07': ('effect analysis of MIR per request, mode and read result', 'All paths per request with unknown payload; the mode table samples TERM values around the documented ones.'),
    'C08': ('symbolic-term invariant analysis over MIR (cursor inside text, panic obligations)', 'All edit actions from an arbitrary state satisfying the invariant; std string functions are trusted to their contracts.'),
    'C09': ('decision-table extraction from MIR, compared between sibling input paths and with the README', 'Every control character and named key is handled by the interpreted code; printable ones by representatives.'),
    'C10': ('progress/ranking and panic-obligation analysis over MIR of the decoders', 'Each pass over pending bytes with unknown contents; what the terminal sends is arbitrary.'),
    'C11': ('typestate and effect analysis over MIR of notice requests and the timer thread', 'All orders of two deadlines are explored symbolically; real time is not modelled.'),
    'C12': ('effect analysis over MIR of adding a line, per option setting', 'All paths of the add operation with unknown list and line.'),
    'C13': ('guarded-index dataflow over MIR of history navigation', 'All paths of navigation with an arbitrary remembered position and arbitrary history.'),
    'C14': ('typestate (file procedure automaton) and must-check-result analysis over MIR', 'Every failure point of every file operation on each path.'),
    'C15': ('effect analysis over MIR of every reader, including async bodies as coroutines', 'All outcomes of the response channel; tokio\'s channel contract is trusted.'),
    'C16': ('exhaustive table extraction by interpreting MIR and macro expansion witnesses', 'All keywords, all SGR codes 0..=255 and all flag combinations are enumerated.'),
    'C17': ('typestate analysis over MIR of each back end (tracked versus transmitted attributes)', 'All paths of every operation; the terminal is modelled as honouring what it is sent.'),
    'C18': ('typestate over MIR (interrupt and join on all exits; descriptor and signal protocol)', 'All paths of session end and of the interrupt procedure; the kernel is trusted.'),
    'C19': ('lock/borrow (loan) analysis over MIR', 'All requests and keys from an arbitrary state and all public functions; callbacks are opaque.'),
    'C20': ('type-level: compile-fail and compile-pass witnesses, auto-trait and signature queries', 'Decided by rustc\'s type checker for every client program of the stated shape.'),
    'C21': ('effect analysis over MIR: API call to request to effect, as terms', 'All paths of each method with unknown arguments and of its handling in an arbitrary session state.'),
    'C22': ('typestate over MIR (release, call, take back)', 'All paths of the callback and job-control handling in both modes.'),
    'C23': ('exhaustive type checking of feature combinations; macro hygiene witnesses', 'Every subset of the optional features is compiled by rustc.'),
    'C24': ('structural dataflow over MIR of the line type (span coverage, index provenance)', 'All constructors and mutators of lines; wrapping is decided through index provenance.'),
    'C25': ('guard/dominance analysis over MIR of widths and cursor movements', 'All call sites of relative movements and all uses of the width as divisor or bound.'),
    'C26': ('descriptor typestate over MIR of the capture set-up and thread', 'Every failure point of each system call on each path.'),
}
NA = {
    'C10': 'how the decoder splits its input depends on a growing byte buffer of arbitrary content and on how reads split it; a bounds/progress/consumption argument over positions in that buffer was designed but not completed, and a table of sampled byte strings would only be a test',
    'C27': 'the equality of two screens for all previous/new lines and widths is an unbounded relational property of numeric layout; no sound static argument in reach decides it without executing or solving (bookkeeping around it is covered by C04, C05 and C25)',
    'C28': 'a bound on elapsed time and fairness between threads depends on the scheduler and on the rate of requests, which no static argument over the source bounds',
    'C29': 'what matters is the arrival time of bytes relative to a timeout; static analysis of the source cannot bound or order real time',
}
have = [p['id'] for p in props if os.path.exists(os.path.join(V, 'props', p['id'].lower() + '.py'))]
m = {'version': 1, 'setup_cmd': './setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in have and i not in NA:
        m['checks'].append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check ' + i, 'evidence_file': 'evidence/%s.json' % i,
                            'technique': T[i][0], 'level': 'other', 'level_note': T[i][1] + TRUST})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check has been built for this property yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not')
