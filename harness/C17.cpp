// Stored names of the lite format: every kind of translator.
#include "model.h"
#include "exceptions.h"
#include "lite_format.h"
#include "mystring.h"
using namespace model;
using namespace lite_format;
using TranslatorP = std::shared_ptr<NameTranslator>;
enum
{
    LEGACY,
    MODERN,
    PLAIN,
    KINDS
};
static unsigned threshold;
static std::string suffix;
static TranslatorP make(int kind, bool fold = false, bool nfc = false, unsigned char key = 4)
{
    NameNormalizationFlags f{};
    f.no_op = kind == PLAIN;
    f.should_case_fold = fold;
    f.should_normalize_nfc = nfc;
    f.long_name_threshold = kind == MODERN ? threshold : 0;
    f.long_name_suffix = suffix;
    if (suffix.empty())
        suffix = "...";
    return make_name_translator(f, StrongType<key_type, tNameMasterKey>(test_key(key)));
}
static void configure()
{
    static const unsigned T[] = {3, 1, 20};
    static const char* S[] = {"", ".ln"};
    static const unsigned B[] = {128, 143, 255};
    threshold = sym_param("big", 0) ? pick(B, "threshold") : pick(T, "threshold");
    suffix = pick(S, "suffix");
}
// the names a stored path is made of
static std::vector<std::string> names(const std::string& p)
{
    std::vector<std::string> r;
    std::string cur;
    CHECK(p.empty() || p[0] != '/', "stored path leaves the data directory");
    for (size_t i = 0; i <= p.size(); ++i)
        if (i == p.size() || p[i] == '/')
        {
            if (!cur.empty() && cur != ".")
                r.push_back(cur);
            cur.clear();
        }
        else
            cur.push_back(p[i]);
    return r;
}
// a file name of n bytes, two of them arbitrary
static std::string any_name(size_t n, const char* tag)
{
    std::string s;
    for (size_t i = 0; i < n; ++i)
        s.push_back((char)('a' + i % 20));
    std::string t = sym_bytes(std::min<size_t>(n, 2), tag);
    for (size_t i = 0; i < t.size(); ++i)
    {
        sym_assume(t[i] != 0);
        sym_assume(t[i] != '/');
        s[i ? n - 1 : 0] = t[i];
    }
    if (n < 3)    // not a directory reference
        sym_assume(s[0] != '.');
    return s;
}
static bool ends(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.substr(s.size() - e.size()) == e; }
// the name behind a stored name, given what was reported as the long form when it was stored
static std::string back(NameTranslator& t, const std::string& stored, const std::string& full, bool& is_long)
{
    auto v = t.decrypt_path_component(stored);
    is_long = std::holds_alternative<LongNameTag>(v);
    if (is_long)
        v = t.decrypt_path_component(full);
    CHECK(std::holds_alternative<std::string>(v), "stored name not understood");
    return std::get<std::string>(v);
}
static size_t any_length(const char* tag)
{
    static const size_t L[] = {1, 2, 3, 4, 5, 20, 21}, B[] = {40, 64, 100, 128, 129, 143, 144, 200, 239, 240, 255};
    return sym_param("big", 0) ? pick(B, tag) : pick(L, tag);
}
extern "C" void h_component()
{
    int kind = (int)sym_choice(0, KINDS - 1, "kind");
    configure();
    auto t = make(kind);
    std::string n = any_name(any_length("len"), "name"), full = "";
    std::string p = t->encrypt_full_path("/" + n, &full);
    auto v = names(p);
    CHECK(v.size() == 1, "one name stored as several");
    CHECK(std::string(t->get_last_component(p)) == v[0], "last component");
    bool lg;
    CHECK(same(back(*t, v[0], full, lg), n), "name differs after storing it");
    bool expect = kind == MODERN && n.size() > threshold;
    CHECK(lg == expect, "long form used for the wrong names");
    CHECK(lg == !full.empty(), "full encrypted name missing or superfluous");
    if (kind != PLAIN)
    {
        CHECK(v[0][0] != '.', "stored name is hidden from listings");
        if (lg)
            CHECK(v[0].size() == 77 + suffix.size() && ends(v[0], suffix), "length of a long name's stored form");
        else
            CHECK(v[0].size() == ((n.size() + 16) * 8 + 4) / 5, "length of a stored name");
    }
    std::string again;
    auto t2 = make(kind);
    CHECK(same(t2->encrypt_full_path("/" + n, &again), p) && same(again, full), "stored name changes from call to call");
    CHECK(same(t2->encrypt_full_path("/" + n, nullptr), p), "stored name depends on whether the full name is asked for");
    sym_reach(lg ? "long" : "short");
}
extern "C" void h_path()
{
    int kind = (int)sym_choice(0, KINDS - 1, "kind");
    configure();
    auto t = make(kind);
    static const size_t D[] = {4, 9, 40};
    size_t k = sym_param("big", 0) ? pick(D, "depth") : sym_choice(1, 3, "depth");
    std::vector<std::string> c;
    static const size_t L[] = {1, 4};
    std::string plain, parent, full, dummy;
    for (size_t i = 0; i < k; ++i)
    {
        if (i && i + 1 < k && sym_param("big", 0))
            c.push_back(std::string(i % 9 + 1, (char)('a' + i % 20)));
        else
            c.push_back(any_name(i + 1 == k ? any_length("len") : pick(L, "len"), "name"));
        parent = plain;
        plain += "/" + c.back();
    }
    std::string p = t->encrypt_full_path(plain, &full);
    auto v = names(p);
    CHECK(v.size() == k, "depth of the path changed");
    for (size_t i = 0; i < k; ++i)
    {
        auto alone = names(t->encrypt_full_path("/" + c[i], &dummy));
        CHECK(alone.size() == 1 && same(alone[0], v[i]), "stored name depends on its place in the path");
    }
    dummy.clear();
    t->encrypt_full_path("/" + c[k - 1], &dummy);
    CHECK(same(dummy, full), "full name of the last component");
    auto up = names(std::string(t->remove_last_component(p)));
    auto dir = names(t->encrypt_full_path(parent.empty() ? "/" : parent, nullptr));
    CHECK(up.size() == dir.size() && up.size() == k - 1, "parent directory");
    for (size_t i = 0; i + 1 < k; ++i)
        CHECK(same(up[i], dir[i]) && same(up[i], v[i]), "parent directory of a stored path is not the stored parent");
    CHECK(same(std::string(t->get_last_component(p)), v[k - 1]), "last component");
    CHECK(names(t->encrypt_full_path("/", nullptr)).empty(), "root");
    CHECK(!t->encrypt_full_path("/", nullptr).empty(), "root");
    sym_reach("path");
}
extern "C" void h_distinct()
{
    int kind = (int)sym_choice(0, KINDS - 1, "kind");
    configure();
    auto t = make(kind);
    std::string a = any_name(any_length("len"), "a"), b = any_name(any_length("len2"), "b");
    auto x = names(t->encrypt_full_path("/" + a, nullptr)), y = names(t->encrypt_full_path("/" + b, nullptr));
    bool eq = same(a, b);
    CHECK(same(x[0], y[0]) == eq, "different names share a stored name");
    sym_reach(eq ? "equal" : "different");
    if (kind != PLAIN)
    {
        auto z = names(make(kind, false, false, 5)->encrypt_full_path("/" + a, nullptr));
        CHECK(!same(z[0], x[0]), "stored name independent of the key");
    }
}
extern "C" void h_fold()
{
    int kind = (int)sym_choice(0, 1, "kind");
    configure();
    auto t = make(kind, true, sym_fork_flag("nfc")), u = make(kind);
    std::string a = any_name(any_length("len"), "a"), f = a, full, full2, dummy;
    for (char& c : f)
        c = (char)sym_ite(c >= 'A' && c <= 'Z', (unsigned char)(c + 32), (unsigned char)c);
    std::string p = t->encrypt_full_path("/" + a, &full);
    CHECK(same(p, u->encrypt_full_path("/" + f, &full2)) && same(full, full2), "folded name stored differently");
    bool lg;
    CHECK(same(back(*t, names(p).at(0), full, lg), f), "folded name differs");
    sym_reach("folded");
    if (sym_fork_flag("nfc-only"))
    {
        auto w = make(kind, false, true);
        CHECK(same(w->encrypt_full_path("/" + a, &dummy), u->encrypt_full_path("/" + a, &dummy)), "normalised name stored differently");
    }
}
// the longest name claimed to fit does fit
extern "C" void h_limit()
{
    int kind = (int)sym_choice(0, KINDS - 1, "kind");
    static const unsigned T[] = {1, 3, 128, 143, 255};
    threshold = pick(T, "threshold");
    suffix = "";
    auto t = make(kind);
    static const unsigned P[] = {255, 254, 253, 252, 251, 250, 143, 231, 230, 229, 228, 227};
    bool any = sym_fork_flag("any");
    unsigned phys = any ? sym_u32("physical") : pick(P, "physical");
    if (any)
        sym_assume(phys <= 65535);
    unsigned most = t->max_virtual_path_component_size(phys);
    if (any)
    {    // no wrap-around
        CHECK(kind == MODERN || most <= phys, "limit above the one of the data directory");
        CHECK(most <= phys || most == 65535, "limit");
        sym_reach("any");
        return;
    }
    std::string full;
    unsigned n = most > 300 ? 300 : most;
    CHECK(n > 0, "no name fits");
    for (unsigned m : {n, n - 1, n / 2})
    {
        auto v = names(t->encrypt_full_path("/" + std::string(m, 'q'), &full));
        CHECK(v.size() == 1 && v[0].size() <= phys, "stored name exceeds the limit");
    }
    sym_reach("limit");
}
// arbitrary stored names
extern "C" void h_foreign()
{
    int kind = (int)sym_choice(0, 1, "kind");
    configure();
    auto t = make(kind);
    std::string s, name, full;
    int how = (int)sym_choice(0, 2, "how");
    if (how == 0)    // anything
        s = sym_bytes(sym_choice(0, sym_param("n", 6), "len"), "stored");
    else
    {
        name = any_name(sym_choice(1, 2, "len"), "name");
        threshold = 20;
        t = make(kind);
        s = names(t->encrypt_full_path("/" + name, nullptr))[0];
        if (how == 1)    // a genuine one with one character changed
            s[sym_choice(0, s.size() - 1, "at")] = (char)sym_u8("byte");
        else    // or cut, or extended
        {
            size_t n = sym_choice(0, s.size() + 3, "len");
            s = n <= s.size() ? s.substr(0, n) : s + sym_bytes(n - s.size(), "extra");
        }
    }
    std::unique_ptr<char[]> exact(new char[s.size()]);
    if (!s.empty())
        memcpy(exact.get(), s.data(), s.size());
    sym_reach("foreign");
    try
    {
        auto v = t->decrypt_path_component(std::string_view(exact.get(), s.size()));
        if (std::holds_alternative<LongNameTag>(v))
            CHECK(kind == MODERN && ends(s, suffix), "long name out of nowhere");
        if (std::holds_alternative<std::string>(v))
        {
            CHECK(how != 0, "name out of nowhere");
            CHECK(same(std::get<std::string>(v), name), "modified stored name shows as another name");
            sym_reach("genuine");
        }
    }
    catch (const std::exception&)
    {
        sym_reach("threw");
    }
}
