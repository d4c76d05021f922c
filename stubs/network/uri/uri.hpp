// Stand-in for cpp-netlib/uri (not installed here): declarations only, so that the sources that use it can be
// type-checked by the analyser.
#pragma once
#include <iterator>
#include <string>
#include <system_error>
namespace network {
struct string_view
{
    int compare(const std::string&) const;
    int compare(const char*) const;
    std::string to_string() const;
    void remove_prefix(unsigned long);
};
class uri
{
public:
    explicit uri(const std::string&); // throws uri_syntax_error
    string_view scheme() const;
    bool has_path() const;
    string_view path() const;
    bool has_authority() const;
    string_view authority() const;
};
namespace detail {
std::string decode(const std::string&);
template<class It>
void encode_char(char c, It& out, const char* ignore);
} // namespace detail
} // namespace network
