from vfio import STR
SPECS = ['h_pcm.cc']
HARNESSES = ['H_setformat', 'H_pcm8', 'H_pcm16', 'H_pcm32', 'H_pcmbad', 'H_pcmreset']
OPTS = {'*': dict(unroll_max=20, replace_re=STR + [(r'std::vector<char, std::allocator<char> ?>::insert<', 'SC_insert'), (r'std::vector<char, std::allocator<char> ?>::erase\(', 'SC_erase'), (r'Vector<float>::Resize', 'SC_presize')])}
DRIVER = 'd_pcm.cc'
SRCS = ['pcm_reader.cc', 'vector.cc', 'util.cc']
CFLAGS = ['-DPROP=8']
LIBS = []
QSECS = 15
BOUND = 'random streams and cuts, formats'
ASSUME = ['std::vector<char>::insert and erase, Vector::Resize by contract', '32-bit samples are converted to float without rounding (reals)', 'fewer than 1e9 bytes in the buffer and in a call; sums of sizes do not overflow', 'message texts are not followed']
NOTE = 'SetFormat, Process and Reset proved for every byte sequence, every cut and every width: one step of Process keeps "decoded so far + bytes kept = stream so far", so the property follows by induction over the calls'
