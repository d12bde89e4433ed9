// uni-algo is not installed here. ASCII model: case folding maps A-Z, normalisation is the identity; with composing() on,
// e followed by U+0301 is canonically equivalent to U+00E9.
#pragma once
#include "../../rt/sym.h"
#include <string>
#include <string_view>
namespace una
{
inline std::wstring utf8to16(std::string_view s) { return std::wstring(s.begin(), s.end()); }
inline std::string utf16to8(std::wstring_view s) { return std::string(s.begin(), s.end()); }
namespace norm
{
    inline bool& composing()
    {
        static bool b = false;
        return b;
    }
    inline std::string swap_(std::string s, std::string_view from, std::string_view to)
    {
        if (composing())
            for (size_t i = 0; (i = s.find(from, i)) != std::string::npos; i += to.size())
                s.replace(i, from.size(), to);
        return s;
    }
    inline std::string to_nfc_utf8(std::string_view s) { return swap_(std::string(s), "e\xcc\x81", "\xc3\xa9"); }
    inline std::string to_nfd_utf8(std::string_view s) { return swap_(std::string(s), "\xc3\xa9", "e\xcc\x81"); }
}    // namespace norm
inline unsigned char fold_(unsigned char c)
{
    return (unsigned char)sym_ite(c >= 'A' && c <= 'Z', c + 32u, c);
}
namespace cases
{
    inline std::string to_casefold_utf8(std::string_view s)
    {
        std::string r;
        for (unsigned char c : s)
            r.push_back((char)fold_(c));
        return r;
    }
    inline std::string to_lowercase_utf8(std::string_view s) { return to_casefold_utf8(s); }
}    // namespace cases
namespace caseless
{
    inline int compare_utf8(std::string_view a, std::string_view b)
    {
        size_t n = a.size() < b.size() ? a.size() : b.size();
        int64_t r = a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
        for (size_t i = n; i-- > 0;)
        {
            unsigned char x = fold_(a[i]), y = fold_(b[i]);
            r = (int64_t)sym_ite(x == y, (uint64_t)r, sym_ite(x < y, (uint64_t)-1, 1));
        }
        return (int)r;
    }
}    // namespace caseless
}    // namespace una
