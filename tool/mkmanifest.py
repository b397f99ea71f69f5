#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'static analysis of the resolved clang syntax trees: '
CHECKS = {
    'P01': ('perm', T + 'path-sensitive permission (effect) analysis of every public entry point'),
    'P02': ('requests', T + 'must-precede analysis: every path from a request to the first data access or store carries the derived rank, bounds and type facts'),
    'P03': ('ioerrors', T + 'typestate of streams, S3 requests and error codes on every path to a normal return'),
    'P04': ('codecs', T + 'typestate and bounds analysis of every codec call'),
    'P05': ('stored', T + 'taint and bounds analysis of everything read out of stored bytes: linear range facts with wrap-around checks, shard index typestate'),
    'P06': ('metadata', T + 'abstract interpretation of the metadata readers with a model of JSON documents: every accepting path carries the required field, name, extent and rank facts'),
    'P07': ('roundtrip', T + 'symbolic composition of creation, metadata writer and metadata reader per format and codec, and comparison of the name tables'),
    'P08': ('options', T + 'abstract interpretation of the Python creation functions per format, compression and option name, and symbolic interpretation of each option from JSON to the codec library argument'),
    'P17': ('indexing', T + 'abstract interpretation of the Python indexing code over affine expressions with linear constraints, every path compared with a piecewise definition of the selection rules'),
    'P19': ('creation', 'mode table, abstract interpretation of the Python opening code for every mode and storage state, path-sensitive interpretation of the C++ creating functions'),
    'P15': ('dispatch', T + 'abstract interpretation of every choice by data type or codec, once per enumerator: what is constructed or called must belong to it; name tables, request type tests, typed exports and sizes'),
    'P16': ('partial', T + 'typestate of chunk buffers and shard slots over all paths of the write entry points; per axis arithmetic of blocks, overlaps and block ranges by linear reasoning'),
    'P21': ('missing', T + 'typestate of chunk buffers and of the output over all paths of the read and write entry points, with existence facts on every path that reads, fills or empties a chunk'),
    'P13': ('workers', T + 'path-sensitive interpretation of the task pool and of every function that starts tasks: tasks queued and run once, futures kept and waited for on every path, errors kept and raised, parts of a range adjacent and disjoint'),
    'P09': ('keys', T + 'abstract interpretation of strings: symbolic storage key from handle construction to reported path, per backend and format, compared with the prescribed key; all storage accesses and chunk handle constructions resolved; opener and metadata reader composed on the same document'),
    'P10': ('axes', T + 'parity of the axis order of shapes and positions through metadata documents (writer and reader composed), chunk headers and chunk keys, per format and backend'),
    'P11': ('order', T + 'abstract interpretation of the byte order parity of element data and header fields on every encode and decode path, per format and element type; affine check of the conversion loops; byte orders admitted by the metadata readers'),
    'P12': ('sharing', T + 'effect analysis of every task body and of static, global and mutable-field state, with lock scopes and thread-indexed containers'),
    'P14': ('attrs', T + 'interpretation of the metadata and attribute operations over a model of stored JSON documents: which document is read and rewritten on every path, which of its members survive, which names the guards refuse, which members are hidden; per format and backend'),
    'P22': ('assigned', T + 'definite assignment between functions: locals, fields left open by constructors, output arguments (told apart by a boolean result) and captured variables, over all paths with correlated conditions'),
    'P23': ('hierarchy', T + 'abstract interpretation of every Python operation that takes a path, over a model of the container tree, per spelling, format, place and state'),
    'P20': ('gil', T + 'state of the interpreter lock along every statement of every bound function and everything it calls; calls, values and destructions that touch Python, storage accesses with the lock held'),
    'P18': ('widths', T + 'origin analysis of every narrowing conversion with dominating-comparison facts where the origin does not bound the value'),
}
NA = {
    'P30': 'equality of arbitrary array contents across write and read is a value-level relation over unbounded histories and third-party codecs; the structural ingredients are decided by P04, P07, P09-P11, P16 and P21, the composition cannot be bounded by a static argument in reach',
    'P31': 'a crash-point property of the operating system and file system; the code makes no attempt at atomic replacement, so there is no mechanism in the source to decide it from',
    'P32': 'needs the byte-level definition of foreign implementations and of the codec libraries; source analysis of this tree cannot decide agreement with programs that are not part of it',
    'P33': 'the library documents no mutual exclusion between writers of the same chunk; whether updates are lost is decided by runtime interleavings of separate processes',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'All checks are Python over facts dumped by tool/z5facts.cpp (clang front end) from /repo on every run. See DESIGN.md.'}
for p in props:
    i = p['id']
    if i in CHECKS:
        mod, tech = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 checks/%s.py' % mod, 'thorough_cmd': 'python3 checks/%s.py' % mod,
                            'technique': tech, 'level': 'other',
                            'level_note': 'static analysis of the current source on every run; the rule, the obligations and what was discharged are in the evidence file; assumptions are listed there'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check has been built for this property yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
