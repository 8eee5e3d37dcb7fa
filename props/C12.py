SPECS = ['h_vector.cc', 'h_matrix.cc', 'h_resize.cc']

OPTS = {'H_matmul': dict(replace_re=[(r'MatrixBase<float>::SetZero', 'SC_mzero')]), 'H_matmat': dict(replace_re=[(r'^cblas_sgemm', 'SC_sgemm')])}
DRIVER = 'd_mat.cc'
SRCS = ['matrix.cc', 'vector.cc', 'util.cc', 'gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc']
CFLAGS = []
LIBS = ['-lopenblas']
QSECS = 15
BOUND = 'random operations on random shapes, strides and views'
ASSUME = ['floating point values are mathematical reals (sums have no rounding); log, exp, pow are uninterpreted functions', 'fewer than 5e8 elements (1e8 for owned blocks); index products do not overflow', 'allocation succeeds', 'cblas_sgemm computes the product of its specification (its call is proved to pass the right arguments)', 'operands do not overlap the result']
NOTE = 'all-input proof of every element operation of VectorBase/MatrixBase (frame included), views, resizing with each policy, moves, swaps, release of storage, SimpleMatMat; MatMat up to the BLAS call'
