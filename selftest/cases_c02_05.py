R = 'include/hogl/detail/ringbuf.hpp'
P = 'src/post.cc'
FL = 'src/flush.cc'
TS = 'src/timesource.cc'
E = 'src/engine.cc'
RC = 'include/hogl/detail/record.hpp'
CASES = [
 ('c02-nobar', ['C02'], 'V', [(R, 'if (bar)\n\t\t\tbarrier::memw();', 'if (!bar)\n\t\t\tbarrier::memw();')]),
 ('c02-readbar', ['C02'], 'V', [(E, '\tbarrier::memr();\n\n\t// Commit', '\t// Commit')]),
 ('c02-late-ts', ['C02'], 'V', [(FL, '\tr->special(internal::SPR_FLUSH);\n\tring->push_commit(r);', '\tring->push_commit(r);\n\tr->special(internal::SPR_FLUSH);')]),
 ('c03-timeout-unlock', ['C03'], 'V', [(FL, '\tring->lock();\n\tr = do_flush(ring, to_usec);\n\tring->unlock();', '\tring->lock();\n\tr = do_flush(ring, to_usec);\n\tif (r) ring->unlock();')]),
 ('c03-flush-late', ['C03'], 'V', [(FL, '\tring->lock();\n\tr = do_flush(ring, to_usec);\n\tring->unlock();', '\tr = do_flush(ring, to_usec);')]),
 ('c04-seq-early', ['C04'], 'V', [(FL, '\t// Wait for some room in the ringbuf\n', '\tuint64_t s = ring->inc_seqnum();\n\t// Wait for some room in the ringbuf\n'), (FL, 'r->seqnum    = ring->inc_seqnum();', 'r->seqnum    = s;')]),
 ('c04-mark-after', ['C04'], 'V', [(E, '\t\t\t_stats.recs_dropped += n;', '\t\t\t_stats.recs_dropped++;')]),
 ('c04-nospecial', ['C04'], 'V', [(E, '\t\t_ring_index(i)->seqnum  = r->seqnum + 1;', '\t\tif (!r->special()) _ring_index(i)->seqnum  = r->seqnum + 1;')]),
 ('c04-carry', ['C04'], 'V', [(E, '\t\tif (re) {\n\t\t\tni(i)->seqnum = re->seqnum;', '\t\tif (re && re->lastrec) {\n\t\t\tni(i)->seqnum = re->seqnum;')]),
 ('c04-unk0', ['C04'], 'V', [(E, 'ni(i)->seqnum    = ring_index::UNKNOWN_SEQNUM;', 'ni(i)->seqnum    = 0;')]),
 ('c04-ref', ['C04', 'C05'], 'ok', [(E, '\t\tif (r->seqnum != _ring_index(i)->seqnum && _ring_index(i)->seqnum != ring_index::UNKNOWN_SEQNUM) {\n\t\t\t// Detected a drop\n\t\t\tuint64_t n = r->seqnum - _ring_index(i)->seqnum;',
   '\t\tring_index::entry *en = _ring_index(i);\n\t\tconst uint64_t want = en->seqnum;\n\t\tuint64_t n = want == ring_index::UNKNOWN_SEQNUM ? 0 : r->seqnum - want;\n\t\tif (n) {')]),
 ('c05-stale', ['C05'], 'V', [(RC, '\t\targval[0].u64 = 0;\n\t\targval[1].u64 = arg1;', '\t\targval[1].u64 = arg1;')]),
 ('c05-true', ['C05'], 'V', [(FL, '\twhile (!r->acked()) {\n\t\tif (timeout(to, to_usec))\n\t\t\treturn false;\n\t}', '\twhile (!r->acked()) {\n\t\tif (timeout(to, to_usec))\n\t\t\tbreak;\n\t}')]),
 ('c05-empty', ['C05'], 'V', [(FL, '\twhile (!r->acked()) {', '\twhile (!r->acked() && !ring->empty()) {')]),
 ('c05-early-ack', ['C05'], 'V', [(E, '\t\tcase internal::SPR_TIMESOURCE_CHANGE:\n\t\t\tswitch_timesource', '\t\tcase internal::SPR_TIMESOURCE_CHANGE:\n\t\t\tr->ack();\n\t\t\tswitch_timesource')]),
 ('c05-noack', ['C05'], 'V', [(E, '\t\tcase internal::SPR_FLUSH:\n\t\tdefault:\n\t\t\tbreak;\n\t\t};\n\n\t\tr->ack();', '\t\t\tr->ack();\n\t\t\tbreak;\n\t\tcase internal::SPR_FLUSH:\n\t\tdefault:\n\t\t\tbreak;\n\t\t};\n')]),
 ('c05-unbounded', ['C05'], 'V', [(FL, 'usleep(1000); to += 1000;', 'usleep(1000); if (to + 1000 < usec) to += 1000;')]),
 ('c05-collect-ack', ['C05'], 'V', [(E, '\t\t\t_tso.push(te);', '\t\t\tif (te.rec->special() && te.rec->argtype == internal::SPR_FLUSH) te.rec->ack();\n\t\t\t_tso.push(te);')]),
 ('c05-ref', ['C05', 'C04', 'C01'], 'ok', [(FL, '\t// Wait for it to get acked\n\twhile (!r->acked()) {\n\t\tif (timeout(to, to_usec))\n\t\t\treturn false;\n\t}\n\n\treturn true;', '\tfor (;;) {\n\t\tif (r->acked()) break;\n\t\tif (timeout(to, to_usec))\n\t\t\treturn false;\n\t}\n\tbool ok = true;\n\treturn ok;')]),
]
