// The comparisons by which names are found and directories are ordered.
#include "model.h"
#include "mystring.h"
#include <uni_algo/all.h>
using namespace securefs;
static std::string name_(const char* tag)
{
    std::string s;
    for (size_t n = sym_choice(0, 2, tag); n--;)
        switch (sym_choice(0, 3, tag))
        {
        case 0:
        {
            unsigned char c = sym_u8(tag);
            sym_assume(c >= 1 && c < 128);
            s += (char)c;
            break;
        }
        case 1:
            s += "e";
            break;
        case 2:
            s += "\xc3\xa9";
            break;
        default:
            s += "e\xcc\x81";
        }
    return s;
}
// e with an accent, composed, becomes what it is decomposed
static std::string decomposed(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = s[i], d = i + 1 < s.size() ? s[i + 1] : 0;
        if (c == 0xc3)
            if (d == 0xa9)
            {
                r += "e\xcc\x81";
                ++i;
                continue;
            }
        r += s[i];
    }
    return r;
}
static int order(const std::string& a, const std::string& b, bool fold)
{
    int r = a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
    for (size_t i = std::min(a.size(), b.size()); i-- > 0;)
    {
        unsigned x = (unsigned char)a[i], y = (unsigned char)b[i];
        if (fold)
        {
            x = (unsigned)sym_ite(x >= 'A' && x <= 'Z', x + 32, x);
            y = (unsigned)sym_ite(y >= 'A' && y <= 'Z', y + 32, y);
        }
        r = (int)(int64_t)sym_ite(x == y, (uint64_t)(int64_t)r, sym_ite(x < y, (uint64_t)-1, 1));
    }
    return r;
}
extern "C" void h_compare()
{
    una::norm::composing() = true;
    std::string a = name_("a"), b = name_("b");
    auto sign = [](int x) { return (x > 0) - (x < 0); };
    int got, want;
    switch (sym_choice(0, 3, "which"))
    {
    case 0:
        got = binary_compare(a, b);
        want = order(a, b, false);
        break;
    case 1:
        got = case_insensitive_compare(a, b);
        want = order(a, b, true);
        break;
    case 2:
        got = uni_norm_insensitive_compare(a, b);
        want = order(decomposed(a), decomposed(b), false);
        break;
    default:
        got = case_uni_norm_insensitve_compare(a, b);
        want = order(decomposed(a), decomposed(b), true);
    }
    CHECK(sign(got) == sign(want), "names are compared in another order than directories are kept in");
    sym_reach(want ? "different" : "equal");
}
