# contracts shared by the readers (spec/vfio.h)
_STR = r'std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::'
STR = [(_STR + r'basic_string(<.*>)?\(char const\*', 'SC_str'), (_STR + r'basic_string\(\)', 'SC_str0'), (_STR + r'basic_string\(std::(__cxx11::)?basic_string', 'SC_strcopy'),
       (_STR + r'~basic_string\(\)', 'SC_strdel'), (_STR + r'operator=\(', 'SC_strasg'),
       (r'std::(__new_)?allocator<char>::~?(__new_)?allocator\(\)', 'SC_str0'),
       (r'pocketkaldi::util::Format<', 'SC_fmt'), (r'pocketkaldi::Status::Status\(int, ', 'SC_status')]
IO = STR + [(r'ReadableFile::Read\(void\*, int\)', 'SC_read'), (r'ReadableFile::ReadAndVerifyString', 'SC_verify')]
