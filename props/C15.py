SPECS = ['h_cmvn.cc']
OPTS = {'*': dict(unroll_max=20), 'H_new': dict(unroll_max=20, replace_re=[(r'Matrix<float>::Resize', 'SC_cresize'), (r'MatrixBase<float>::CopyFromMat', 'SC_ccopy')])}
DRIVER = 'd_cmvn.cc'
SRCS = ['cmvn.cc', 'matrix.cc', 'vector.cc', 'util.cc', 'gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc']
CFLAGS = []
LIBS = ['-lopenblas']
QSECS = 15
BOUND = 'random feature matrices of 1..1500 frames'
ASSUME = ['floating point values are mathematical reals (running sums have no rounding)', 'fewer than 5e8 elements; index products do not overflow', 'allocation succeeds', 'the recurrence of the ghost prefix sum is assumed at the two frames it is used for (it is a definition)', 'frames are fetched in order (the code asserts it)']
NOTE = 'all-input inductive proof over the frames: one GetFrame from any state satisfying the window invariant, for an arbitrary column'
