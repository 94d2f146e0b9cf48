// Minimal stand-in for cpp-netlib/uri (not installed here): only what the language server uses.
#pragma once
#include <cctype>
#include <stdexcept>
#include <string>
#include <string_view>
#include <cstring>
namespace network {
class string_view : public std::string_view
{
public:
    using std::string_view::string_view;
    string_view(std::string_view s) : std::string_view(s) {}
    std::string to_string() const { return std::string(*this); }
};
class uri
{
    std::string s_;
    size_t colon_ = 0, auth_b_ = 0, auth_e_ = 0, path_e_ = 0;
    bool has_auth_ = false;

public:
    explicit uri(const std::string& s) : s_(s)
    {
        colon_ = s_.find(':');
        if (colon_ == std::string::npos || colon_ == 0)
            throw std::runtime_error("Unable to parse URI string.");
        size_t p = colon_ + 1;
        auth_b_ = auth_e_ = p;
        if (s_.compare(p, 2, "//") == 0)
        {
            has_auth_ = true;
            auth_b_ = p + 2;
            auth_e_ = s_.find_first_of("/?#", auth_b_);
            if (auth_e_ == std::string::npos)
                auth_e_ = s_.size();
        }
        path_e_ = s_.find_first_of("?#", auth_e_);
        if (path_e_ == std::string::npos)
            path_e_ = s_.size();
    }
    string_view scheme() const { return std::string_view(s_).substr(0, colon_); }
    bool has_path() const { return true; }
    string_view path() const { return std::string_view(s_).substr(auth_e_, path_e_ - auth_e_); }
    bool has_authority() const { return has_auth_; }
    string_view authority() const { return std::string_view(s_).substr(auth_b_, auth_e_ - auth_b_); }
};
namespace detail {
inline int hexval(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    throw std::runtime_error("percent decoding error");
}
inline std::string decode(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1)
        {
            r.push_back((char)(hexval(s[i + 1]) * 16 + hexval(s[i + 2])));
            i += 2;
        }
        else
            r.push_back(s[i]);
    return r;
}
template<typename Out>
void encode_char(char in, Out& out, const char* ignore = "")
{
    if (std::isalnum((unsigned char)in) || in == '-' || in == '.' || in == '_' || in == '~' || (in && std::strchr(ignore, in)))
        *out++ = in;
    else
    {
        static const char h[] = "0123456789ABCDEF";
        *out++ = '%';
        *out++ = h[((unsigned char)in) >> 4];
        *out++ = h[((unsigned char)in) & 15];
    }
}
} // namespace detail
} // namespace network
