// The standard library's templates that libstdc++ normally supplies precompiled: instantiated here so that they are executed
// symbolically like everything else.
#include <string>
#include <istream>
#include <ostream>
#include <sstream>
#include <streambuf>
namespace std {
template class basic_string<char>;
template class basic_string<wchar_t>;
template class basic_istream<char>;
template class basic_istream<wchar_t>;
template class basic_ostream<char>;
template class basic_ostream<wchar_t>;
template class basic_ios<char>;
template class basic_ios<wchar_t>;
template class basic_streambuf<char>;
template class basic_streambuf<wchar_t>;
template class basic_stringbuf<char>;
template class basic_stringbuf<wchar_t>;
template class basic_stringstream<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<wchar_t>;
template class basic_istringstream<wchar_t>;
template class basic_ostringstream<wchar_t>;
template basic_ostream<char>& __ostream_insert(basic_ostream<char>&, const char*, streamsize);
template basic_ostream<wchar_t>& __ostream_insert(basic_ostream<wchar_t>&, const wchar_t*, streamsize);
}
