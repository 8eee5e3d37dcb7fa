SPECS = ['h_cache.cc']
DRIVER = 'd_fst.cc'
SRCS = ['fst.cc', 'util.cc', 'symbol_table.cc', 'vector.cc']
CFLAGS = ['-DPROP=6']
LIBS = []
QSECS = 15
BOUND = 'random look-up histories over synthetic and real language models, cache sizes 1..1000'
ASSUME = ['the transducer behind the cache is a function of state and label that gives an arc with the label looked for (proved for Fst, LmFst and DeltaLmFst in C04 and C05) and promises nothing about the arc of a failed look-up', 'states and labels are not negative; the hash computation does not overflow int (states below 69 million)', 'allocation succeeds']
NOTE = 'all-input proof: every entry of the cache holds what the transducer gives (data invariant), so each look-up is transparent'
