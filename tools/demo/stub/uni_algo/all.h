// uni-algo is not installed: ASCII stand-in, enough for a demonstration.
#pragma once
#include <string>
#include <string_view>
namespace una
{
inline std::wstring utf8to16(std::string_view s) { return std::wstring(s.begin(), s.end()); }
inline std::string utf16to8(std::wstring_view s) { return std::string(s.begin(), s.end()); }
inline char fold_(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
namespace norm
{
    inline std::string to_nfc_utf8(std::string_view s) { return std::string(s); }
    inline std::string to_nfd_utf8(std::string_view s) { return std::string(s); }
}
namespace cases
{
    inline std::string to_casefold_utf8(std::string_view s)
    {
        std::string r;
        for (char c : s)
            r.push_back(fold_(c));
        return r;
    }
    inline std::string to_lowercase_utf8(std::string_view s) { return to_casefold_utf8(s); }
}
namespace caseless
{
    inline int compare_utf8(std::string_view a, std::string_view b)
    {
        auto x = cases::to_casefold_utf8(a), y = cases::to_casefold_utf8(b);
        return x.compare(y);
    }
}
}
