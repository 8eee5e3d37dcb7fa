import contracts
SPECS = ['h_hashtable.cc']
_R = [(r'HashTable<int, int>::Lookup\(', contracts.lookup_contract)]
OPTS = {'H_lookup': dict(assume_assert_in=r'Lookup'), 'H_insert': dict(unroll_re=[(r'::Insert\(', 2)], replace_re=_R + [(r'HashTable<int, int>::ExtendBuckets\(', 'SC_extend')]), 'H_extend': dict(replace_re=_R), 'H_find': dict(replace_re=_R), 'H_clear': dict(replace_re=_R), 'H_ctor': dict(replace_re=_R)}
HARNESSES = ['H_lookup', 'H_insert', 'H_extend', 'H_find', 'H_clear', 'H_ctor', 'H_sizes']
DRIVER = 'd_hashtable.cc'
SRCS = ['hashtable.cc']
QSECS = 8
BOUND = 'random operation histories up to 6000 operations on tables with int and pair keys, every capacity 1..40 exhaustively with keys 0..119 and absent keys -130..259, against std::map'
ASSUME = ['the contracts are proved for HashTable<int,int>; other instances (Decoder::State keys) run the same template and are exercised by the driver', 'probe sequences shorter than 65536 (the assertion in Lookup is taken as an assumption of the safety proof; the driver checks it on adversarial tables)', 'no signed overflow']
