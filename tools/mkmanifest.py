#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
flav = json.load(open(root + '/sim/flavours.json'))
NA = {
 'P30': 'Pure, single-threaded numeric functions of their arguments: no schedule, clock, I/O, randomness or fault can influence the result, so a simulator decides nothing here; comparing kernels over inputs is ordinary differential testing.',
 'P31': 'CRF decoding and loss are sequential pure functions of the scores; no schedule or fault enters. (That they do not depend on the scheduling of the operators around them is part of P15.)',
 'P32': 'Closed-form arithmetic of one update; no interleaving, time or fault enters. (That concurrency leaves the updates unchanged is P07 and P18.)',
 'P33': 'Statistical distribution of pure samplers; no schedule or fault enters. (Atomicity and schedule-independence of the draws are P12 and P13.)',
}
TECH = 'deterministic simulation with fault injection: seeded schedule search, '
T = {
 'P01': ('comparison with an independent sequential evaluation of the expression', ''),
 'P02': ('comparison with an independent reference differentiation', ''),
 'P03': ('bounded-progress and retry checks after injected errors', ''),
 'P04': ('conservation of gradient contributions across concurrent graphs', ''),
 'P05': ('happens-before race detection inside simulated schedules', ''),
 'P06': ('concurrency invariant monitored in every state, bounded progress', ''),
 'P07': ('exactly-once and refinement against the sequential strategy', ''),
 'P08': ('history check against the direct visit, cancellation at arbitrary points', ''),
 'P09': ('storage faults at every operation, acknowledged-implies-complete check', ''),
 'P10': ('torn, truncated, failing and fragmented reads', ''),
 'P11': ('process kills at arbitrary points, refinement against uninterrupted training', ''),
 'P12': ('linearizability check of recorded histories against the seeded stream', ''),
 'P13': ('equality of seeded runs across schedules', ''),
 'P14': ('conservation of contributions and row-set equality', ''),
 'P15': ('equality with the sequential execution of the layer', ''),
 'P16': ('operator faults injected; nothing observable after the failure', ''),
 'P17': ('comparison with reference clipping under concurrent streams', ''),
 'P19': ('outcome checks over seeds of the simulated random source', ''),
 'P20': ('refinement of forked, incremental processing by processing at once', ''),
 'P21': ('gradients compared with the slope of the forward pass under drawn schedules', ''),
 'P22': ('refinement of programs of matrix operations by operations on independent copies, under drawn schedules', ''),
 'P23': ('equality of joint, concurrent optimization with the optimization of each parameter alone', ''),
 'P18': ('refinement of the parallel training program by the sequential one', ''),
}
LEVEL = ('Seeded random exploration of workloads, schedules and faults on the real library code under a simulated scheduler; '
         'evidence reports how much was explored. Not exhaustive. Trusted: the simulator\'s model of goroutines, channels, sync, context, time and files, '
         'the source instrumentation, and the reference model. Executions are sequentially consistent; preemption between statements.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif i in flav:
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check ' + i + ' -tier thorough',
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH + T[i][0],
                       'level': 'exploration', 'level_note': LEVEL + (' ' + T[i][1] if T[i][1] else '')})
    else:
        na.append({'property': i, 'reason': 'its simulated workload is still being built'})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is put in at build time by sim/cmd/rewrite, which generates instrumented copies of the current tree and a go build overlay. Fixes of genuine defects are separate "fix:" commits, listed in known_findings.json.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
