#!/usr/bin/env python3
"""Writes ../MANIFEST.json from bin/checks.tab and the notes below."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
BB='exhaustive enumeration of bounded programs, real binary against a reference interpreter'
LV={}
def c(id,technique,level,note): LV[id]=dict(technique=technique,level=level,level_note=note)
T='Trusts the reference interpreter in harness/spec, /bin/sh and the Go toolchain. '
c('P01',BB,'exploration','All graphs of 4 tasks with every kind of edge (and 5 tasks with dependencies) run through the built bab; the order of the commands is compared with the reference execution. '+T)
c('P02','exhaustive enumeration of failure positions and kinds, real binary against a reference interpreter','fault_enumeration','Every position of a failing step, every kind of failure, in small task graphs and parallel blocks; commands that ran, exit status and message are judged. '+T)
c('P03','stateless model checking of the real runner: all interleavings up to a preemption bound under a controlled scheduler, plus conformance runs of the real binary','model_checking','The runner package is instrumented from the current source (scheduling points before goroutine starts, channel, lock and command operations) and every schedule up to the bound is executed and judged by an order oracle. Processes are replaced by scheduler-controlled stand-ins; traces are replayed with real processes. Code between two points is atomic for the explorer.')
c('P04','stateless model checking of the real runner: all interleavings up to a preemption bound under a controlled scheduler','model_checking','As P03, with the number of running items observed at every step for every limit.')
c('P05','exhaustive enumeration of byte strings, chunkings and interleavings of the real writer','exploration','All contents over a small alphabet with all splits into writes and all merges of two items, real PrefixWriter and real bab against a line model.')
c('P06','exhaustive enumeration of byte strings over a control alphabet on the real sanitizer','exploration','All strings up to a length over an alphabet of control bytes, introducers, parameters, terminators, text; the output is parsed by an independent scanner.')
c('P07','stateless model checking of the real runner with a cancellation at every point of every schedule, and signals at every quiescent state of real runs','model_checking','As P03, with the cancellation as an event of the scheduler; SIGINT and SIGTERM are sent to the real binary at every acknowledged step of enumerated task shapes, and surviving processes and later commands are observed. Processes that leave the process group of their command are outside the property.')
c('P08',BB,'exploration','Enumerated files of every run item kind run dry and, for comparison, through the reference interpreter; side effects and preview lines are judged. '+T)
c('P09','exhaustive enumeration of strings over the reference syntax against a reference, in process and through the binary','exploration','All token strings up to a length against an independent single-pass substitution; every place that accepts references through the real binary. '+T)
c('P10','exhaustive enumeration of variable graphs and task histories against a reference','exploration','All reference graphs over global and task variables in process, histories with prompts through the real binary. '+T)
c('P11',BB,'exploration','All assignments of values to the four levels over sequences of commands, dependencies, references and parallel items. '+T)
c('P12',BB,'exploration','All combinations of directory settings on every level, start directories and includes. '+T)
c('P13',BB,'exploration','All combinations of unset, true and false on all levels for both settings and all item kinds. '+T)
c('P14','exhaustive enumeration of conditions and values against a reference, in process and through the binary','exploration','All documented forms over colliding operands and values. '+T)
c('P15',BB,'exploration','All combinations of platforms and conditions on run items of every kind and on tasks. '+T)
c('P16','exhaustive enumeration with a differential oracle: the same file alone and included','exploration','Every enumerated Babfile is run on its own and through one and two levels of includes and the observations are compared.')
c('P17','exhaustive enumeration of task, alias and include graphs against a reference verdict','exploration','All graphs over 3 tasks and 4 edge kinds, alias assignments and include graphs; verdict of --validate, --list and run compared with a graph oracle.')
c('P18','exhaustive enumeration of defects and positions against known locations','exploration','Every defect kind at every position of a file, alone and in pairs, in the root and in an included file; file, line and names are compared with the planted ones.')
c('P19','exhaustive enumeration of presentations and field types with a differential oracle, and of short inputs','exploration','Each construct in each YAML presentation must behave the same; each field with each YAML type; all short strings over YAML syntax must neither crash nor hang the parser.')
c('P20','exhaustive enumeration of name sets and prefixes against a reference','exploration','All small sets of names and aliases; --list, __complete and execution are compared with the file.')
c('P21','exhaustive enumeration of directory layouts against a reference','exploration','All placements of the file names over three levels, all ways to pass -b.')
c('P22','explicit-state exploration of the real cache writer under ptrace: kill and error at every system call, all orders of two writers up to a switch bound, all power-loss states of the recorded calls; enumerated cache contents','model_checking','The real writer and reader run under a tracer that stops them at every system call below the cache directory; each call is failed, the process killed before and after it, alone and in pairs, and two writers are interleaved call by call. The recorded calls are the input of a power-loss model (ordered directory operations, any prefix of unsynced data). Enumerated cache contents are fed to the real binary. Trusts the tracer and the power-loss model; Linux on amd64.')
c('P23','explicit-state breadth-first exploration of the real update code (cache state, clock, server answer, settings) against a reference model, to the fixpoint','model_checking','The real update package is the transition function, with a stand-in transport and a synctest clock; every command in every reachable state is compared with the model, then whole commands through cmd. The states reached by the alphabet close after three steps.')
c('P24','breadth-first state exploration of the real picker model against a reference model','model_checking','All key sequences up to a depth from several task sets and window sizes; the invariant is evaluated in every state. Then sessions of the real bab on a pseudo terminal.')
c('P25','breadth-first state exploration of the real parallel view models against a reference model','model_checking','All message and key sequences up to a depth; the views are compared with the reference in every state. Then sessions of the real bab on a pseudo terminal, with every order of item ends, keys and signals for blocks that are flat, nested and limited.')
c('P26','exhaustive enumeration of prompt attributes and key sequences against a reference','exploration','All prompt types with all combinations of attributes without a terminal, and enumerated key sequences in real sessions on a pseudo-terminal.')
c('P27','fault enumeration over every external command of the script','fault_enumeration','install.sh runs with stand-ins for every external command; each is failed or corrupted alone and in pairs.')
c('P28','exhaustive enumeration of programs and ways of watching with a differential oracle','exploration','Every program of an enumerated set is run plainly, compared with the reference execution, and then in every way of watching it; steps, directories, environments and exit status must be the same.')
c('P29','exhaustive enumeration of command sequences with a shell as differential oracle','exploration','All pairs and selected triples of commands in every arrangement run through bab and through a plain shell; output, error output, input left, files and exit status are compared. A stand-in for the shell records the texts it is given.')
c('P30','exhaustive enumeration of programs with a reference execution as oracle','exploration','Every graph of three tasks with skipped and failing tasks and all settings of silent, messages of every level, blocks of every mode: the whole report of the built program is compared line by line with the one the reference execution prescribes.')
props=[json.loads(l)['id'] for l in open(os.path.join(root,'properties.jsonl'))]
have=[l.split()[0] for l in open(os.path.join(root,'bin/checks.tab')) if l.strip()]
m=dict(version=1,setup_cmd='bash bin/setup',checks=[],not_applicable=[])
for p in props:
    if p in have:
        m['checks'].append(dict(property=p,quick_cmd=f'bash bin/check {p} quick',thorough_cmd=f'bash bin/check {p} thorough',evidence_file=f'evidence/{p}.json',**LV[p]))
    else:
        m['not_applicable'].append(dict(property=p,reason='The check is not built yet.'))
m['notes']='See DESIGN.md. The checks need no hooks in /repo: harness packages are overlaid into the module at build time.'
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1); open(os.path.join(root,'MANIFEST.json'),'a').write('\n')
