SPECS = ['h_gc.cc']
_V = r'std::vector<N\*, std::allocator<N\*> ?>::'
_G = [(_V + r'vector\(std::vector<N\*, std::allocator<N\*> ?> const&\)', 'SC_vcopy'), (_V + r'vector<__gnu_cxx', 'SC_vrange'), (_V + r'vector\(\)', 'SC_vnew'), (_V + r'~vector', 'SC_vdel'), (_V + r'push_back', 'SC_push'), (_V + r'back\(\)', 'SC_back'), (_V + r'pop_back', 'SC_pop'), (_V + r'empty\(\)', 'SC_empty'),
      (_V + r'begin\(\)$', 'SC_begin'), (_V + r'end\(\)$', 'SC_end'), (r'operator!=<N\*\*', 'SC_ne'), (r'__normal_iterator<N\*\*, .*operator\*', 'SC_deref'), (r'__normal_iterator<N\*\*, .*operator\+\+\(\)', 'SC_inc'),
      (r'^pocketkaldi::Pool<N, 4096>::Dealloc', 'SC_dealloc'), (r'pocketkaldi::Pool<N, 4096>::Alloc<', 'SC_alloc')]
OPTS = {'*': dict(unroll_max=20, replace_re=_G)}
DRIVER = 'd_gc.cc'
SRCS = []
CFLAGS = []
LIBS = []
QSECS = 15
BOUND = 'random forests of nodes, root sets and interleavings, several block sizes'
ASSUME = ['Pool::Alloc and Pool::Dealloc by the contracts proved in C02', 'the two vectors of the collection are multisets (std::vector<N *> by contract: construction from the roots, push_back, back, pop_back, empty, iteration)', 'fewer than 4e8 slots; counters do not overflow', 'previous() and OnCollect() of the node type do not change the pool or the links', 'links of live nodes lead to live nodes (the invariant of the decoder)', 'termination of the marking loop is not proved (every node is marked at most once)', 'the proof instantiates the template at a block of 4096 nodes']
NOTE = 'GC, GCPool::Alloc and GCPool::Dealloc proved: the nodes kept contain the roots, are closed under links, and lie in every set with these two properties'
