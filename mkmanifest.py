#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (development aid)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
SIM = 'path-sensitive dataflow / typestate analysis of LLVM IR with case-split constant propagation'
T = {
    'C01': ('ring index protocol by ' + SIM, 'all posting interfaces (0,1,3,16 arguments, C and C++), flush/timesource markers and the reader; ring positions split by cases for capacities 2 and 4 (8 and 1024 in thorough); trusts clang IR generation'),
    'C02': ('publication/release ordering typestate on LLVM IR', 'every path of every posting interface and of both engine modes; barriers recognised as inline assembly with memory clobber, fences or atomics'),
    'C03': ('lockset and lock-balance typestate on LLVM IR', 'ring flags split by cases; every path of every shared-ring interface'),
    'C04': ('sequence-number accounting typestate with constant propagation', 'writers: all interfaces; engine: ordered mode, expected/actual numbers split by cases (no gap, gap of 1 and 300, no history)'),
    'C05': ('acknowledgement typestate with constant propagation', 'callers: timeouts 0 and 2500 us, all ring kinds; engine: both modes, every record kind'),
    'C06': ('conditional constant propagation of ordered engine passes over a finite abstract heap', 'sort result any permutation consistent with the comparator (ties in every order); two and three rings, timestamps and buffer capacities split by cases; three consecutive passes'),
    'C07': ('conditional constant propagation of engine passes over a finite abstract heap with an event trace', 'ring contents, positions, owners and index shapes split by cases, both modes, buffer capacities 1 to 64, up to four consecutive passes; other cases are not covered'),
    'C08': ('reference-count and use-after-release analysis: conditional constant propagation over an abstract heap and registry', 'add_ring (both), find_ring, hold, release, thread-local setup and teardown, engine pass and destructor; ring flags, reference counts and registry contents split by cases; another thread finding or using the ring before the registry lock is taken'),
    'C09': ('lock and condition-variable typestate of writers and conditional constant propagation of engine passes', 'writers: every posting interface on a blocking ring, the sleep decision re-read under the lock; engine: rings with a blocked writer, with and without records and owners, both modes, buffer capacities split by cases'),
    'C10': ('lockset, lock-balance and lock-order analysis on LLVM IR', 'every function touching the registries, the mask or the file naming state; locksets are computed per access on all paths; libstdc++ calls are classified as read or change by name'),
    'C11': ('bit-level constant propagation over the section bitmap and posting typestate', 'bitmaps of 128 sections; every section number for test/enable/disable, selected numbers for posts'),
    'C22': ('conditional constant propagation over strings of known shape, lists and regex objects', 'entry shapes (with/without !, colon, empty parts, colons in the section part) with opaque part texts; masks of up to three entries; areas of two sections, every outcome of every expression match; regex matching itself is trusted (std::regex_match)'),
    'C15': ('conditional constant propagation at byte level over output buffers, with virtual calls resolved through the vtables', 'every buffer class, append and flush of 0 to 5 bytes (and more than 4 GiB) into buffers of capacity 0 to 4 at every fill level; constructor capacities up to 4 GiB + 8'),
    'C16': ('conditional constant propagation at byte level over every outcome of the write calls', 'every partial count, up to two interruptions, errors and attempts without progress for flushes of up to 6 bytes in up to three pieces'),
    'C17': ('typestate of descriptors, names and locks over an abstract operating system', 'rotation helper on all paths with failing opens, header writes and allocations and up to two rotations in a row; constructor; chunk indices split by cases'),
    'C18': ('typestate of the request flag, lock, condition and helper thread over an abstract operating system', 'helper states on entry and requests injected at every lock acquisition and wait; writes around the limit; constructor with chunk counts up to 4294967295; destructor; name switch'),
    'C23': ('life-cycle typestate of the output classes over an abstract operating system at byte level', 'construction, two records, flush and destruction of all seven output classes with buffers of 0, 1, 4 and 64 bytes (more in thorough); failing opens'),
    'C20': ('conditional constant propagation of the whole recovery engine over core images from a case-split grammar, containers modelled as sequences, with every address checked before it is followed', 'rings of 1 to 8 slots in every head and tail state with and without --all; up to three rings in every relative position, with equal and extreme timestamps; every argument kind at all 16 positions with data and pointers around every boundary; every field of ring, area, section table, timesource and output buffer at its limits; translation of addresses around every section edge; section loading with every failure'),
    'C21': ('conditional constant propagation of the raw parser and the buffered reader over byte streams from a case-split grammar, with bounds on every memory access', 'record buffers from minimal to the maximal option value, both format versions, every declared length around 0, the room left, 2^8, 2^16, 2^31 and 2^32, alone, last, and in sequence; streams cut after every byte; all kind codes at the first, second and last position; names of every boundary length; the reader over every buffer state of small capacities with short, failing and ending reads; construction with every failure'),
    'C24': ('conditional constant propagation of every C interface function and of generated call sites of the posting macro, from option structures with distinct field values to the options handed on, and through the posting code to the record', 'all posting functions and the macro with 1 to 16 arguments of every kind; every C argument type; every section; option structures with small, zero and maximal values; every output class for deletion'),
    'C25': ('typestate with conditional constant propagation over an abstract heap', 'engine thread entry, loop and drain on all paths, constructor, destructor, activate and deactivate; registries of up to three entries, index and pass results split by cases'),
    'C26': ('typestate with conditional constant propagation over an abstract heap', 'engine pass with change markers, both add_ring functions with changes injected at every lock acquisition, change_timesource, ring setup; null timesources'),
    'C27': ('conditional constant propagation over an abstract heap with an event trace', 'registration with every relation between existing and new area (same, fewer, more, first/middle/last section differs), registration of the internal area, section lookup of every number up to the table size and beyond'),
    'C28': ('conditional constant propagation of the affinity parser over texts from a case-split grammar', 'numbers around 0, 31, 32, 63, 64, 255, 256, 2^32 and 2^64, single CPUs, lists, ranges, masks in decimal, octal and hex, malformed forms; the set of selected CPUs and every write into it are compared with the text; the QNX branch is not compiled here'),
    'C12': ('conditional constant propagation of the posting functions over a case-split of argument kinds, lengths and record sizes, every read and write checked against its object; constant propagation of the ring constructor', 'rings with 256 and 512 byte slots; 1, 2, 3 and 16 arguments; every kind and the lengths around every room boundary, 16 and 32 bit wrap-arounds; ring options with 22 tailroom and 7 capacity values'),
    'C13': ('conditional constant propagation along the whole chain: argument constructors, posting, record store, text formatter, raw writer, raw reader and text formatter again, results compared between the layers', 'every C++ and C argument type with small, negative and extreme values; lists of 1, 2, 3 and 16 arguments built so that every kind is at every position (plain and after a format string), six posting entries; every dump type and width; the recovery tool is compared in C20'),
    'C14': ('conditional constant propagation of the text and raw formatters over a case-split of records, with every read checked against the ranges of the record and every local write against the array; exception edges of the deferred format call', 'all pairs and, after a string, triples of argument kinds including null and truncated ones, 16 arguments of one kind and mixed, dump types x element widths x line widths x lengths x precisions, all header presets with long and empty names and extreme numbers; what happens inside the bundled fmt library is its printf semantics (rejection = exception)'),
    'C29': ('conditional constant propagation of the formatter over all field selections with record sequences, printf semantics modelled', 'all 128 selections and every string selection of names and presets up to pairs; sequences of records with repeated, changed and extreme timestamps, so that every cached part is used stale and fresh; local time is a model with a fixed offset'),
    'C19': ('call-effect and loop analysis of posting paths', 'all posting interfaces and argument constructors; compiler-generated TLS access and the timesource callback are excepted by the property'),
}
NA = {
    'C30': 'quantifies over wall-clock delays between posting and polling relative to timestamps; no static argument in reach bounds them',
    'C31': 'rendering is delegated to the bundled fmt library and libc; equality with printf for all values is a functional equivalence no static analysis here can establish',
    'C32': 'a liveness bound in wall-clock time that depends on scheduling and the output sink',
}
TODO = 'no sound static rule is built for it yet'
checks, na = [], []
for l in open(HERE + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in T:
        checks.append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': T[p][0], 'level': 'other', 'level_note': 'static analysis of the current sources: ' + T[p][1]})
    else:
        na.append({'property': p, 'reason': NA.get(p, TODO)})
m = {'version': 1, 'setup_cmd': 'python3 analyzer/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: /repo carries only fix: commits. See DESIGN.md.'}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
