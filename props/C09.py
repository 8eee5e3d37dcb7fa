from vfio import IO, STR
SPECS = ['h_pcm.cc']
HARNESSES = ['H_header', 'H_read', 'H_verify']
OPTS = {'*': dict(unroll_max=20, unroll_re=[(r'text_at|text_len', 40)], replace_re=IO)}
OPTS['H_read'] = dict(replace_re=STR + [(r'^fread$', 'SC_fread')])
OPTS['H_verify'] = dict(replace_re=[(r'basic_string<char, std::char_traits<char>, std::allocator<char> ?>::size\(\)', 'SC_strsize'), (r'operator!=<char', 'SC_strne')] + STR + [(r'^fread$', 'SC_fread')])
DRIVER = 'd_pcm.cc'
SRCS = ['pcm_reader.cc', 'vector.cc', 'util.cc']
CFLAGS = ['-DPROP=9']
LIBS = []
QSECS = 15
BOUND = 'random and field-wise damaged headers, every truncation'
ASSUME = ['the file is a byte sequence seen through typed views (integers at a byte position); little-endian representation is the machine\'s', 'fread by contract: all bytes or fewer than requested; no read error other than the end of the file', 'std::string and message texts by contract (texts of messages are not followed)', 'file length below 4e12; a section name has no zero byte']
NOTE = 'ReadPcmHeader, ReadableFile::Read and ReadAndVerifyString proved for every file content; the oracle reads the fields at fixed positions'
