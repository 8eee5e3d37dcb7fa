SPECS = ['h_quant.cc']
OPTS = {'H_quantize': dict(fptosi_check=True, replace_re=[(r'FindMinMax', 'SC_minmax'), (r'Matrix<unsigned char>::Resize', 'SC_u8resize')]),
        'H_product': dict(replace_re=[(r'EightBitIntGemm', 'SC_gemm')])}
DRIVER = 'd_quant.cc'
SRCS = ['matrix.cc', 'vector.cc', 'util.cc', 'gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc']
CFLAGS = []
LIBS = ['-lopenblas']
QSECS = 15
BOUND = 'random matrices up to 9 x 9 of six kinds'
ASSUME = ['floating point values are mathematical reals', 'finite elements, fewer than 1e8', 'allocation succeeds', 'gemmlowp EightBitIntGemm computes the integer product of its specification (the call is proved to pass the right arguments; the product itself is compared by the driver)']
NOTE = 'all-input proof of the range, the parameters, the one-step bound for every element and of the call of the integer kernel; the kernel (vendored gemmlowp) is trusted in the proof and exercised by the driver'
