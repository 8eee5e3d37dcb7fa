SPECS = []
HARNESSES = []
LEVEL = 'exploration'
DRIVER = 'd_srfft.cc'
SRCS = ['srfft.cc']
CFLAGS = []
LIBS = []
QSECS = 15
BOUND = 'sizes 4..4096, four kinds of signal'
ASSUME = []
NOTE = ''
