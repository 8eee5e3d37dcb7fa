SPECS = ['h_pool.cc']
_S = [(r'std::unordered_set<Obj\*.*>::unordered_set\(\)', 'SC_set_new'), (r'std::unordered_set<Obj\*.*>::~unordered_set', 'SC_set_del'), (r'std::unordered_set<Obj\*.*>::insert', 'SC_set_insert'),
      (r'std::unordered_set<Obj\*.*>::find', 'SC_set_find'), (r'std::unordered_set<Obj\*.*>::end', 'SC_set_end'), (r'^operator new\(unsigned long\)$', 'SC_new'), (r'^operator delete\(void\*\)$', 'SC_delete')]
OPTS = {'*': dict(unroll_max=20, replace_re=_S)}
DRIVER = 'd_pool.cc'
SRCS = []
CFLAGS = []
LIBS = []
QSECS = 15
BOUND = 'random allocation/release/clear histories on pools of several block sizes and element types'
ASSUME = ['blocks are consecutive parts of one memory in the order they are obtained (addresses of different blocks are distinct; the code compares addresses for equality only)', 'std::unordered_set, operator new and operator delete by contract; allocation succeeds', 'fewer than 1e9 slots; counters do not overflow', 'the constructor and destructor of the element type do not throw or use the pool', 'the proof instantiates the template at a block of 4096 objects of a non-trivial type; other sizes and types are sampled by the driver']
NOTE = 'Pool(), Alloc, Dealloc, Clear, ~Pool and allocated_nodes keep the data invariant: every slot below the cursor is live or in the free list once'
