from vfio import IO, STR
SPECS = ['h_str.cc', 'h_sym.cc']
_S = r'std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::'
_I = r'__gnu_cxx::__normal_iterator<char( const)?\*, .*'
_X = [(_S + r'c?begin\(\)', 'SC_sbegin'), (_S + r'c?end\(\)', 'SC_send'), (_S + r'(size|length)\(\)', 'SC_ssize'), (_S + r'empty\(\)', 'SC_sempty'), (_S + r'(c_str|data)\(\)', 'SC_scstr'), (_S + r'back\(\)', 'SC_sback'), (_S + r'pop_back\(\)', 'SC_spop'),
      (_S + r'find\(', 'SC_find'), (_S + r'basic_string<__gnu_cxx', 'SC_srange'), (r'^isspace$', 'SC_isspace'), (r'^tolower$', 'SC_tolower'), (r'^(__isoc23_)?strtol$', 'SC_strtol'), (r'^__errno_location$', 'SC_errno')]
_V = r'std::vector<std::(__cxx11::)?(basic_string<.*>|string), std::allocator<.*> ?>::'
OPTS = {'*': dict(unroll_max=20, replace_re=_X + STR),
        'H_lower': dict(replace_re=[(_S + r'basic_string<__gnu_cxx', 'SC_scopy')] + _X + STR),
        'H_number': dict(replace_re=[(r'pocketkaldi::util::Trim', 'SC_trim')] + _X + STR),
        'H_line': dict(replace_re=[(_S + r'operator=\(char const\*\)', 'SC_sassign'), (_S + r'operator\+=\(char const\*\)', 'SC_sappend'), (r'^feof$', 'SC_feof'), (r'^fgets$', 'SC_fgets'), (r'^strlen$', 'SC_strlen')] + _X + STR),
        'H_split': dict(replace_re=[(_V + r'vector\(\)', 'SC_vecnew'), (_V + r'~vector\(\)', 'SC_vecdel'), (r'emplace_back', 'SC_emplace')] + _X + STR)}
_M = r'std::unordered_map<.*>::'
_Y = [(_S + r'basic_string(<.*>)?\(char const\*', 'SC_lit'), (_S + r'basic_string\(\)', 'SC_empty0'), (_S + r'basic_string\(std::(__cxx11::)?basic_string', 'SC_copy'), (_S + r'~basic_string\(\)', 'SC_nop'), (_S + r'operator=\(', 'SC_asg'), (_S + r'c_str\(\)', 'SC_cstr'),
      (r'std::(__new_)?allocator<char>::~?(__new_)?allocator\(\)', 'SC_nop'), (r'pocketkaldi::util::Format<', 'SC_nop'), (r'pocketkaldi::Status::Status\(int, ', 'SC_status'),
      (r'util::ReadableFile::~?ReadableFile\(\)', 'SC_nop'), (r'util::ReadableFile::Open', 'SC_open'), (r'util::ReadableFile::Eof', 'SC_eof'), (r'util::ReadableFile::ReadLine', 'SC_readline'), (r'util::Split', 'SC_split'), (r'util::StringToLong', 'SC_tolong'),
      (_V + r'(size)\(\)', 'SC_vsize'), (_V + r'operator\[\]', 'SC_vat'), (_V + r'resize', 'SC_vresize'), (_V + r'(reserve|~vector)', 'SC_nop'),
      (_M + r'operator\[\]', 'SC_mat'), (_M + r'find', 'SC_mfind'), (_M + r'end\(\)', 'SC_mend'), (r'_Node_(const_)?iterator<.*>::operator->', 'SC_mpair')]
OPTS['H_symread'] = OPTS['H_symget'] = dict(replace_re=_Y, unroll_re=[(r'^same', 40)])
DRIVER = 'd_str.cc'
SRCS = ['configuration.cc', 'symbol_table.cc', 'util.cc']
CFLAGS = ['-DPROP=19']
LIBS = []
QSECS = 15
BOUND = 'random strings, line files and symbol tables'
ASSUME = ['std::string (iterators, size, back, pop_back, find, range construction, assignment, appending), std::vector<std::string> and std::unordered_map<std::string, int> by the contracts of their members', 'isspace and tolower of the C locale, strtol, fgets, feof and strlen by contract; no read error other than the end of the file inside ReadLine', 'text files contain no zero byte; strings shorter than 2e9, file length below 4e12, fewer than 2e9 lines', 'the delimiter of Split is not empty', 'in the symbol table proof texts are opaque (equal or not); lines, splitting and numbers by the contracts proved for ReadLine, Split and StringToLong', 'definitions: white space is that of isspace; a number is what strtol accepts with base 0; a line ends at the next line feed, and the carriage returns and line feeds at its end are dropped']
NOTE = 'Trim, Split, Tolower, StringToLong, ReadLine, SymbolTable::Read, Get and GetId proved for every string and file'
