SPECS = []
HARNESSES = []
LEVEL = 'exploration'
DRIVER = 'd_capi.cc'
SRCS = ['ce_stt.cc', 'am.cc', 'nnet.cc', 'configuration.cc', 'pcm_reader.cc', 'fbank.cc', 'srfft.cc', 'matrix.cc', 'strlcpy.cc', 'decoder.cc', 'fst.cc', 'symbol_table.cc', 'vector.cc', 'util.cc', 'hashtable.cc', 'gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc', 'openfst/lib/compat.cc', 'openfst/lib/flags.cc', 'openfst/lib/fst.cc', 'openfst/lib/fst-types.cc', 'openfst/lib/mapped-file.cc', 'openfst/lib/properties.cc', 'openfst/lib/symbol-table.cc', 'openfst/lib/symbol-table-ops.cc', 'openfst/lib/weight.cc', 'openfst/lib/util.cc']
CFLAGS = []
LIBS = ['-lopenblas', '-ldl']
QSECS = 15
BOUND = 'random small models and audio up to 12000 samples, every division style, missing and truncated files'
ASSUME = []
NOTE = ''
