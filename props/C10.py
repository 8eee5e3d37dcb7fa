SPECS = ['h_fbank.cc', 'h_resize.cc', 'h_vector.cc']
HARNESSES = ['H_process', 'H_extract', 'H_window', 'H_power', 'H_mel', 'H_hamming', 'H_frame', 'H_vresize', 'H_vresize0', 'H_copy', 'H_floor', 'H_log', 'H_dot']
_V = [(r'Vector<float>::Resize', 'SC_vresize')]
OPTS = {'H_process': dict(unroll_max=20, replace_re=_V + [(r'Matrix<float>::Resize', 'SC_fresize'), (r'Fbank::ExtractWindow', 'SC_extract'), (r'Fbank::ComputeFrame', 'SC_compute')]),
        'H_extract': dict(unroll_max=20, replace_re=_V + [(r'Fbank::ProcessWindow', 'SC_window')]),
        'H_window': dict(unroll_max=20), 'H_power': dict(unroll_max=20),
        'H_hamming': dict(unroll_max=20, replace_re=_V),
        'H_mel': dict(unroll_max=64, replace_re=[(r'::VecVec', 'SC_vecvec')]),
        'H_frame': dict(unroll_max=20, replace_re=[(r'SRFFT::Compute', 'SC_fft'), (r'Fbank::ComputePowerSpectrum', 'SC_power'), (r'Melbanks::Compute', 'SC_mel')])}
DRIVER = 'd_fbank.cc'
SRCS = ['fbank.cc', 'srfft.cc', 'vector.cc', 'util.cc', 'matrix.cc', 'gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc']
CFLAGS = []
LIBS = ['-lopenblas']
QSECS = 15
BOUND = 'random signals up to 80000 samples, random divisions, against a double precision reference'
ASSUME = ['floating point values are mathematical reals; log and cos are uninterpreted functions', 'fewer than 1e8 samples in a call and the carried rest together; index products and row + offset do not overflow', 'allocation succeeds',
          'SRFFT::Compute (the 512-point transform), the SRFFT tables and the construction of the mel filters (one concrete execution of the constructor) are not under contract: the driver compares the features with a double-precision DFT reference (bounded)',
          'the energies given to the floor are not negative (a negative or NaN energy would fail the assertion in ApplyLog)']
NOTE = 'all-input proof of the streaming algorithm (frames completed, order, carry-over for every division of every stream) and of every step of a frame except the FFT and the filter construction, which the driver checks bounded'
