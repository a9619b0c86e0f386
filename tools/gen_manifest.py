#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per module in mc/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STATELESS = 'bounded exhaustive (stateless) model checking of the real code'
NOTES = {
    'C01': (STATELESS + ': every operation sequence up to a depth against a list model',
            'Exhaustive over operation sequences of the stated alphabet and depth; the model (a list of sets) is replayed against pyuff after every step.'),
    'C02': (STATELESS + ': every file of a bounded grammar of delimiters, line ends, noise and bodies against a grammar model',
            'Exhaustive over the stated grammar; trusts the independent layout encoder that generates the files and knows what they hold.'),
    'C10': ('bounded exhaustive model checking: every set of a bounded space is written and decoded by an independent model of the published layout',
            'Exhaustive over the stated bounds; trusts the decoder in mc/layout.py and mc/sets.py, written from the published record layouts.'),
    'C11': ('bounded exhaustive model checking: every file of a bounded space of an independent encoder of the published layout is read',
            'Exhaustive over the stated bounds; trusts the encoder in mc/layout.py and mc/sets.py.'),
    'C13': (STATELESS + ': every rejection point in every history up to a depth',
            'Exhaustive over the stated histories, defects and write calls.'),
    'C14': ('model checking of all crash points: every byte at which an append can stop and every failing I/O call',
            'Every prefix of every append of the histories, and every I/O call failing in turn; assumes appended bytes reach the file in order (no torn or reordered sectors).'),
    'C25': (STATELESS + ': every interleaving of the operations of two objects and an outside program, against a file model',
            'Exhaustive over interleavings of the stated operations up to the depth.'),
    'C26': ('stateless model checking under a controlled scheduler: all thread interleavings up to a preemption bound',
            'All schedules of two threads at line granularity inside pyuff with at most the stated number of preemptions; switches inside numpy or the interpreter are not explored.'),
    'C27': (STATELESS + ': the open descriptors after every call of every history, with every I/O call failing in turn',
            'Observes /proc/self/fd with garbage collection off, so a file left to the collector is seen.'),
    'C28': ('explicit enumeration of process environments: the same bounded set space run in each and compared',
            'All combinations of the stated environment settings; each one a fresh interpreter.'),
    'C36': (STATELESS + ': every call and every pair of calls, in two states of the process, with a snapshot of the process before and after each',
            'Exhaustive over the stated calls; compares the stated parts of the process.'),
    'C39': ('bounded-exhaustive model checking of writes of every kind with every field replaced by each of a pool of odd values, against a reference list of sets',
            'Exhaustive over the stated fields and values (pairs of fields in part); what the odd set itself reads as is not judged.'),
    'C38': ('model checking of all interruption points: every call of every kind with an exception raised before every executed line (thorough: bytecode) of the library',
            'Exhaustive over the stated calls, exceptions and points; exceptions inside numpy or the standard library arrive at the next line of the library.'),
    'C30': (STATELESS + ': every file of bounded sequences of lines and bytes, and every damaged byte, against the agreement of all answers',
            'Exhaustive over the stated alphabets and lengths; the property is the agreement of all the answers with each other, so no oracle is trusted.'),
    'C31': (STATELESS + ': every write after every previous content, compared byte by byte with the previous bytes and with the set written alone',
            'Exhaustive over the stated contents, kinds and sequences of writes.'),
    'C32': ('stateless model checking under a controlled scheduler: all interleavings of an appender and a reader up to a preemption bound, and every byte of the append as the moment of a refresh or read',
            'Switch points at every executed line of the library; bytes are assumed to reach the file in order.'),
    'C34': (STATELESS + ': every type number up to a bound and every history of operations up to a depth against a list model',
            'Exhaustive over the stated numbers and histories.'),
    'C35': (STATELESS + ': every name of an alphabet x way to give it x sequence of operations against a model of the whole folder',
            'Exhaustive over the stated names and sequences.'),
}
DEFAULT = (STATELESS + ': every choice of a bounded input space run through the public interface against an independent model',
           'Exhaustive within the bounds written in the evidence file (deviation-bounded from base sets: every field or pair of fields at every value of a finite alphabet, every count); '
           'says nothing about values outside the alphabets.')

props = [json.loads(s) for s in open(os.path.join(HERE, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(HERE, 'mc', 'props', i.lower() + '.py')):
        missing.append({'property': i, 'reason': 'no check yet'})
        continue
    tech, note = NOTES.get(i, DEFAULT)
    checks.append({'property': i, 'quick_cmd': '/opt/venv/bin/python check.py ' + i,
                   'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % i,
                   'technique': tech, 'level': 'model_checking', 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing,
           'notes': 'No hooks are needed in /repo: every check drives the public interface. check.py ID --replay FILE repeats one execution.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [m['property'] for m in missing])
