SPECS = ['h_lmfst.cc']
HARNESSES = ['H_lmget', 'H_lmfinal', 'H_bucket', 'H_delta', 'H_deltafinal', 'H_deltastart']
_C = [(r'Fst::CountArcs\(', 'SC_cnt'), (r'^pocketkaldi::Fst::GetArc\(', 'SC_base'), (r'LmFst::GetArc\(', 'SC_rec@rec'), (r'LmFst::Final\(', 'SC_final@rec')]
OPTS = {'*': dict(replace_re=_C), 'H_delta': dict(replace_re=[(r'pocketkaldi::LmFst::GetArc', 'SC_rec')]),
        'H_deltafinal': dict(replace_re=[(r'pocketkaldi::LmFst::GetArc', 'SC_rec'), (r'pocketkaldi::LmFst::Final', 'SC_final')]),
        'H_deltastart': dict(replace_re=[(r'pocketkaldi::LmFst::GetArc', 'SC_rec')])}
DRIVER = 'd_fst.cc'
SRCS = ['fst.cc', 'util.cc', 'symbol_table.cc', 'vector.cc']
CFLAGS = ['-DPROP=5']
LIBS = []
QSECS = 15
BOUND = 'random backoff models of up to 25 states and 9 words, every state and word'
ASSUME = ['well-formed transducer as in C04; backoff arcs lead to states', 'the look-up result of a state is specified along the backoff chain (one unfolding per proof: partial correctness; the chain ending is a precondition of the property)', 'the direct table is filled by InitBucket0 as proved by H_bucket for labels 0..999999 strictly increasing in state 0', 'weights are mathematical reals']
NOTE = 'all-input proof of LmFst::GetArc, Final, InitBucket0 and DeltaLmFst::GetArc, Final, StartState; recursion by contract'
