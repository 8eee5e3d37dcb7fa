from vfio import IO, STR
SPECS = ['h_io.cc', 'h_nnetio.cc']
_V = [(r'Vector<float>::Resize', 'SC_vresize'), (r'Vector<int>::Resize', 'SC_viresize')]
_M = [(r'Matrix<float>::Resize', 'SC_mresize'), (r'pocketkaldi::Vector<float>::Read\(', 'SC_vread'), (r'pocketkaldi::Vector<float>::Vector\(\)', 'SC_vctor'), (r'pocketkaldi::Vector<float>::~Vector', 'SC_vdtor')]
OPTS = {'*': dict(unroll_max=40, unroll_re=[(r'text_at|text_len|fst_block|SC_strne', 40)], replace_re=IO + _V), 'H_mread': dict(replace_re=IO + _M), 'H_mread0': dict(replace_re=IO + _M), 'H_fstread': dict(replace_re=IO + [(r'operator!=<char', 'SC_strne')])}
_L = [(r'Matrix<float>::Read\(', 'SC_mread'), (r'pocketkaldi::Vector<float>::Read\(', 'SC_vread')]
OPTS['H_linear'] = OPTS['H_bn'] = dict(replace_re=IO + _L)
OPTS['H_readlayer'] = dict(replace_re=IO + [(r'pocketkaldi::(\w+)?Layer::Read\(', 'SC_lread'), (r'std::vector<std::unique_ptr<.*>::emplace_back', 'SC_addlayer'), (r'pocketkaldi::(Vector|Matrix)<float>::~(Vector|Matrix)', 'SC_ldel')])
OPTS['H_nnetread'] = dict(replace_re=IO + [(r'Nnet::ReadLayer', 'SC_readlayer')])
DRIVER = 'd_io.cc'
SRCS = ['vector.cc', 'matrix.cc', 'fst.cc', 'nnet.cc', 'util.cc', 'symbol_table.cc', 'gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc']
CFLAGS = []
LIBS = ['-lopenblas']
QSECS = 15
BOUND = 'random sections, every truncation point of small ones, random damage'
ASSUME = ['the file is a byte sequence seen through typed views (integers and floats at a byte position); little-endian representation is the machine\'s', 'ReadableFile::Read and ReadAndVerifyString by the contracts proved in C09', 'Vector::Resize and Matrix::Resize by the contracts proved in C12; storage is always available', 'the rows of a matrix, the layers of a network and the two parts of a layer by the contracts proved here for their readers', 'std::string, message texts, unique_ptr and the growth of std::vector by contract', 'file length below 4e12, fewer than 1e9 splice indices', 'the proof instantiates the vector reader at float and int32 and the matrix reader at float']
NOTE = 'Vector, Matrix, Fst, Nnet and all layer readers proved for every file content: accepted exactly when well-formed and complete, content equal, position directly behind'
