SPECS = ['h_conf.cc']
_S = r'std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::'
_V = r'std::vector<std::(__cxx11::)?(basic_string<.*>|string), std::allocator<.*> ?>::'
_M = r'std::unordered_map<.*>::'
_Y = [(_S + r'basic_string<__gnu_cxx', 'SC_range'), (_S + r'basic_string(<.*>)?\(char const\*', 'SC_lit'), (_S + r'basic_string\(\)', 'SC_empty0'), (_S + r'basic_string\(std::(__cxx11::)?basic_string', 'SC_copy'), (_S + r'~basic_string\(\)', 'SC_nop'), (_S + r'operator=\(', 'SC_asg'),
      (_S + r'empty\(\)', 'SC_isempty'), (_S + r'front\(\)', 'SC_front'), (_S + r'rfind\(', 'SC_rfind'), (_S + r'cbegin\(\)', 'SC_cbegin'), (r'operator\+<char', 'SC_concat'), (r'operator==<char', 'SC_eq'), (r'operator!=<char', 'SC_ne'), (r'std::(__cxx11::)?stoi\(', 'SC_stoi'),
      (r'std::(__new_)?allocator<char>::~?(__new_)?allocator\(\)', 'SC_nop'), (r'pocketkaldi::util::Format<', 'SC_nop'), (r'pocketkaldi::Status::Status\(int, ', 'SC_status'),
      (r'util::ReadableFile::~?ReadableFile\(\)', 'SC_nop'), (r'util::ReadableFile::Open', 'SC_open'), (r'util::ReadableFile::Eof', 'SC_eof'), (r'util::ReadableFile::ReadLine', 'SC_readline'), (r'util::Split', 'SC_split'), (r'util::Trim', 'SC_trim'), (r'util::Tolower', 'SC_lower'),
      (_V + r'vector\(\)', 'SC_vnew'), (_V + r'(~vector)', 'SC_nop'), (_V + r'operator=\(', 'SC_vasg'), (_V + r'(size)\(\)', 'SC_vsize'), (_V + r'operator\[\]', 'SC_vat'),
      (_M + r'operator\[\]', 'SC_mat'), (_M + r'find', 'SC_mfind'), (_M + r'end\(\)', 'SC_mend'), (r'_Node_(const_)?iterator<.*>::operator->', 'SC_mpair')]
OPTS = {'*': dict(replace_re=_Y, unroll_re=[(r'^same', 40)])}
DRIVER = 'd_str.cc'
SRCS = ['configuration.cc', 'symbol_table.cc', 'util.cc']
CFLAGS = ['-DPROP=18']
LIBS = []
QSECS = 15
BOUND = 'random configuration files'
ASSUME = ['texts are opaque values: equality, emptiness, the first character, trimming, lower-casing, splitting at = and the number of a text are functions of the text; what Trim, Tolower, Split and ReadLine compute is proved under C19 (spec/h_str.cc, h_sym.cc)',
          'std::string, std::vector<std::string> and std::unordered_map members, std::stoi (a number, or std::invalid_argument / std::out_of_range) and util::Format obey the C++ standard',
          'opening the file and reading a line succeed or fail arbitrarily (contract of util::ReadableFile proved under C04/C07)',
          'no value equals the internal marker kDefaultString; an entry is what util::Split makes of the line, so a text behind a second, trailing = is dropped',
          'GetIntegerOrElse on a value that is not a number throws (by its design): only numbers and absent keys are specified']
NOTE = 'Configuration::Read, GetStringOrElse, GetPathOrElse, GetIntegerOrElse, GetString, GetPath, GetInteger (with the exceptions of std::stoi): for every sequence of lines, every key and every value.'
