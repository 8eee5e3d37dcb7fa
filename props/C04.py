SPECS = ['h_fst.cc']
HARNESSES = ['H_count', 'H_get', 'H_iter', 'H_final']
_C = [(r'Fst::CountArcs\(', 'SC_count')]
OPTS = {'H_get': dict(replace_re=_C), 'H_iter': dict(replace_re=_C)}
DRIVER = 'd_fst.cc'
SRCS = ['fst.cc', 'util.cc', 'symbol_table.cc', 'vector.cc']
CFLAGS = ['-DPROP=4']
LIBS = []
QSECS = 15
BOUND = 'random transducers of 1..60 states, all labels -3..25 in every state'
ASSUME = ['well-formed transducer: arcs of a state contiguous, blocks in state order, labels sorted inside a block (what the file format promises; Fst::Read is decided under C07)', 'fewer than 5e8 arcs and states', 'the arc array bounds counted by CountArcs enter GetArc and IterateArcs as its contract (proved by H_count)']
NOTE = 'all-input proof of CountArcs, GetArc, IterateArcs, ArcIterator::Next, Final, StartState against the arc list; the labels of a block are assumed sorted (file format)'
