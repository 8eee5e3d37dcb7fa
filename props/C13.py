SPECS = ['h_nnet.cc', 'h_vector.cc', 'h_matrix.cc', 'h_resize.cc']
HARNESSES = ['H_relu', 'H_batchnorm', 'H_linear', 'H_narrow', 'H_softmaxl', 'H_logsoftmaxl', 'H_normalizel', 'H_splice']
_R = [(r'Matrix<float>::Resize', 'SC_resize'), (r'MatrixBase<float>::CopyFromMat', 'SC_copy')]
OPTS = {h: dict(replace_re=_R) for h in HARNESSES}
OPTS['H_softmaxl'] = dict(replace_re=_R + [(r'VectorBase<float>::ApplySoftMax', 'SC_rowop')])
OPTS['H_logsoftmaxl'] = dict(replace_re=_R + [(r'VectorBase<float>::ApplyLogSoftMax', 'SC_rowop')])
OPTS['H_normalizel'] = dict(replace_re=_R + [(r'VectorBase<float>::VecVec', 'SC_dot')])
OPTS['H_linear'] = dict(replace_re=_R + [(r'pocketkaldi::MatMat\(', 'SC_matmat')])
OPTS['H_net'] = dict(replace_re=[(r'Matrix<float>::Resize', 'SN_resize'), (r'MatrixBase<float>::CopyFromMat', 'SN_copy'), (r'Matrix<float>::~Matrix', 'SN_dtor')])
HARNESSES += ['H_net', 'H_softmax', 'H_logsoftmax', 'H_dot', 'H_mcopy', 'H_matmat', 'H_view', 'H_mresize_new', 'H_mresize_undef', 'H_mresize_zero']
OPTS['H_matmat'] = dict(replace_re=[(r'^cblas_sgemm', 'SC_sgemm')])
DRIVER = 'd_nn.cc'
SRCS = ['am.cc', 'configuration.cc', 'nnet.cc', 'matrix.cc', 'vector.cc', 'util.cc', 'gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc']
CFLAGS = ['-DPROP=13']
LIBS = ['-lopenblas']
QSECS = 15
BOUND = 'random layers and stacks on random inputs up to 14 x 8'
ASSUME = ['floating point values are mathematical reals; exp, log and sqrt are uninterpreted functions', 'fewer than 1e8 elements per matrix; index products and row + offset do not overflow', 'allocation succeeds', 'cblas_sgemm computes the product of its specification (the arguments of the call are proved)', 'each layer of a network is known by its contract only: it reads its input and replaces its output (the layers themselves are proved one by one)', 'the row passed to Normalize is not all zero']
NOTE = 'all-input proof of every layer and of the composition, callee by contract; MatMat up to the BLAS call'
