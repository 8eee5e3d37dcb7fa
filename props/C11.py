SPECS = ['h_am.cc']
_D = [(r'std::deque<.*>::emplace_back', 'SC_emplace'), (r'std::deque<.*>::size\(\)', 'SC_size'), (r'std::deque<.*>::empty\(\)', 'SC_empty'), (r'std::deque<.*>::operator\[\]', 'SC_at'),
      (r'std::deque<.*>::back\(\)', 'SC_back'), (r'std::deque<.*>::pop_front\(\)', 'SC_pop'),
      (r'Vector<float>::Resize', 'SC_vresize'), (r'Matrix<float>::Resize', 'SC_resize'), (r'Matrix<float>::~Matrix', 'SC_mdtor'), (r'Nnet::Propagate', 'SC_propagate')]
OPTS = {'*': dict(unroll_max=20, replace_re=_D)}
DRIVER = 'd_nn.cc'
SRCS = ['am.cc', 'configuration.cc', 'nnet.cc', 'matrix.cc', 'vector.cc', 'util.cc', 'gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc']
CFLAGS = ['-DPROP=11']
LIBS = ['-lopenblas']
QSECS = 15
BOUND = 'random networks, contexts 0..5, chunks 1..7, up to 40 frames'
ASSUME = ['floating point values are mathematical reals', 'contexts and chunk size below 1e6, fewer than 1e8 frames; sums of counts and index products do not overflow', 'allocation succeeds',
          'std::deque behaves as a sequence (emplace_back, size, empty, operator[], back, pop_front by contract)',
          'Nnet::Propagate is known by its contract: a network of receptive field left + 1 + right gives rows - left - right rows, row r depending on input rows r .. r + left + right only (the layers and their composition are proved in C13)',
          'Vector and Matrix Resize by the contracts proved in C12', 'AcousticModel::Read (configuration and files) is not under contract']
NOTE = 'all-input proof of Process and EndOfStream with ComputeBatch, AppendFrame and BatchAvailable inlined: inductive over the stream'
