SPECS = ['h_dec.cc']
_T = r'std::vector<pocketkaldi::Decoder::Token\*, std::allocator<.*> ?>::'
_I = r'ArcIterator<fst::Fst<.*>::'
_C = [(_I + r'ArcIterator\(', 'SC_it'), (_I + r'~ArcIterator', 'SC_nop'), (_I + r'Done\(', 'SC_done'), (_I + r'Next\(', 'SC_next'), (_I + r'Value\(', 'SC_value'),
      (r'__normal_iterator<pocketkaldi::Decoder::Token\*\*, .*operator\*', 'SC_deref'), (_T + r'operator\[\]', 'SC_at'),
      (r'Decoder::LogLikelihood', 'SC_ll'), (r'Decoder::PropogateLm', 'SC_lm'), (r'HashTable<.*>::Clear\(', 'SC_clear'), (r'^pocketkaldi::Pool<pocketkaldi::Decoder::Token, 4096>::Dealloc', 'SC_release')]
_Q = r'std::vector<pocketkaldi::Decoder::State, std::allocator<.*> ?>::'
OPTS = {'*': dict(unroll_max=20), 'H_emit': dict(replace_re=_C + [(r'Decoder::InsertTok', 'SC_insert_e'), (r'Decoder::GetCutoff', 'SC_cutoff')]),
        'H_nonemit': (_N := dict(replace_re=[x for x in _C if x[1] not in ('SC_deref', 'SC_at')] + [(r'__normal_iterator<pocketkaldi::Decoder::Token\*\*, .*operator\*', 'SC_deref2'), (_T + r'operator\[\]', 'SC_at2'), (r'Decoder::InsertTok', 'SC_insert_n'),
                          (_Q + r'push_back', 'SC_push'), (_Q + r'empty', 'SC_qempty'), (_Q + r'size', 'SC_qsize'), (_Q + r'back', 'SC_back'), (_Q + r'pop_back', 'SC_pop'), (_Q + r'~?vector\(', 'SC_nop'), (r'HashTable<.*>::Find\(', 'SC_find2')])), 'H_nonemit_lm': _N,
        'H_best_mid': (_B := dict(replace_re=[(r'CachedFst::Final\(', 'SC_lmfinal')])), 'H_best_end': _B, 'H_best_end_lm': _B,
        'H_init': dict(replace_re=[(r'__normal_iterator<pocketkaldi::Decoder::Token\*\*, .*operator\*', 'SC_deref'), (r'HashTable<.*>::Clear\(', 'SC_clear2'), (r'^pocketkaldi::Pool<pocketkaldi::Decoder::Token, 4096>::Dealloc', 'SC_release2'),
                       (r'Decoder::InsertTok', 'SC_insert_i'), (r'Decoder::ProcessNonemitting', 'SC_non'), (r'CachedFst::StartState', 'SC_lmstart')]),
        'H_process': dict(replace_re=[(r'__normal_iterator<pocketkaldi::Decoder::Token\*\*, .*operator\*', 'SC_deref'), (r'Decoder::ProcessEmitting', 'SC_emit'), (r'Decoder::ProcessNonemitting', 'SC_non2'), (r'vector<pocketkaldi::Decoder::OLabel\*.*>::push_back', 'SC_root'), (r'GCPool<.*>::GC\(', 'SC_gc'), (r'Pool<.*>::(free|allocated)_nodes', 'SC_nodes')]),
        'H_collect': (_M := dict(replace_re=[(r'^std::unordered_map<int, pocketkaldi::Decoder::OLabel\*.*>::' + a + r'\(', b) for a, b in (('clear', 'SC_mclear'), ('erase', 'SC_merase'), ('find', 'SC_mfind'), ('end', 'SC_mend'), (r'operator\[\]', 'SC_mat'))])), 'H_next': _M,
        'H_lm': dict(replace_re=[(r'CachedFst::GetArc', 'SC_getarc'), (r'^std::(basic_)?ostream.*(operator<<|endl)', 'SC_os')]),
        'H_cutoff': dict(replace_re=[(r'void std::nth_element<', 'SC_nth')]),
        'H_insert': dict(replace_re=[(r'HashTable<.*>::Find\(', 'SC_find'), (r'HashTable<.*>::Insert\(', 'SC_put'), (r'pocketkaldi::Pool<pocketkaldi::Decoder::Token, 4096>::Alloc<', 'SC_talloc'), (r'^pocketkaldi::Pool<pocketkaldi::Decoder::Token, 4096>::Dealloc', 'SC_tfree'),
                                     (r'pocketkaldi::GCPool<pocketkaldi::Decoder::OLabel, 4096>::Alloc<', 'SC_oalloc'), (r'Decoder::OLabel::next\(', 'SC_onext'), (r'Decoder::OLabel::set_next\(', 'SC_oset')]),
}
DRIVER = 'd_dec.cc'
SRCS = ['decoder.cc', 'fst.cc', 'symbol_table.cc', 'vector.cc', 'util.cc', 'hashtable.cc', 'openfst/lib/compat.cc', 'openfst/lib/flags.cc', 'openfst/lib/fst.cc', 'openfst/lib/fst-types.cc', 'openfst/lib/mapped-file.cc', 'openfst/lib/properties.cc', 'openfst/lib/symbol-table.cc', 'openfst/lib/symbol-table-ops.cc', 'openfst/lib/weight.cc', 'openfst/lib/util.cc']
CFLAGS = []
LIBS = ['-ldl']
QSECS = 15
BOUND = 'random graphs of up to 8 states, up to 30 frames (400 for long streams), with and without language model, against exhaustive dynamic programming'
ASSUME = [
 "of several equally cheap complete paths any may be given (the words are proved for a unique cheapest one)",
 'costs are mathematical reals: rounding, overflow and NaN of float arithmetic are outside the proof (the driver runs with real floats)',
 'the passes are proved for one arbitrary token (state) with one arbitrary arc, each insertion being a step of the graph and the language model from the token at hand; that every token therefore has a path with its words and cost, and that the cheapest is among them, is the induction over passes written out in DESIGN.md',
 'the non-emitting pass is proved for whenever it ends (a cycle of arcs without input whose total weight is negative would not end; the property excludes negative weights)',
 'HashTable (C01), Pool (C02), GCPool (C03), CachedFst (C06) are used by their contracts, which their own checks prove; OpenFst (ArcIterator, Final, Start) and std::unordered_map by an assumed contract',
 'with more than 30000 tokens at least one cost is sampled (the sequence is fixed; computed once: sample 13870 is below every threshold)',
 'assert() in the code is an obligation, except the limit of 100000 labels, which is a precondition',
]
NOTE = 'Contracts on ProcessEmitting, ProcessNonemitting, InsertTok, GetCutoff, BestPath, Initialize, Process, PropogateLm, LogLikelihood and the label nodes; the driver compares whole decodings with exhaustive search.'
