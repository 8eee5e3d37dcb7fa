SPECS = ['h_strlcpy.cc']
HARNESSES = ['H_strlcpy']
DRIVER = 'd_strlcpy.cc'
SRCS = ['strlcpy.cc']
QSECS = 4
BOUND = 'all source lengths 0..79 x sizes 0..89, random contents; random lengths below 5000 for the time limit'
ASSUME = ['source and destination do not overlap (C contract of strlcpy)', 'lengths and sizes below 2^40']
