// Small replacements of the Abseil pieces securefs uses (semantics per Abseil's documentation).
// Used both by the symbolic build and by native replays.
#pragma once
#include "sym.h"
#include <algorithm>
#include <array>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <deque>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

#define ABSL_GUARDED_BY(x)
#define ABSL_PT_GUARDED_BY(x)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_SHARED_LOCKS_REQUIRED(...)
#define ABSL_LOCKS_EXCLUDED(...)
#define ABSL_SCOPED_LOCKABLE
#define ABSL_LOCKABLE
#define ABSL_EXCLUSIVE_LOCK_FUNCTION(...)
#define ABSL_SHARED_LOCK_FUNCTION(...)
#define ABSL_UNLOCK_FUNCTION(...)
#define ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(...)
#define ABSL_SHARED_TRYLOCK_FUNCTION(...)
#define ABSL_NO_THREAD_SAFETY_ANALYSIS
#define ABSL_ASSERT_EXCLUSIVE_LOCK(...)
#define ABSL_ASSERT_SHARED_LOCK(...)
#define ABSL_LOCK_RETURNED(x)
#define ABSL_ACQUIRED_AFTER(...)
#define ABSL_ACQUIRED_BEFORE(...)
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_MUST_USE_RESULT
#define ABSL_ATTRIBUTE_NOINLINE
#define ABSL_ATTRIBUTE_ALWAYS_INLINE
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]

namespace absl
{
using std::in_place;
using std::make_optional;
using std::nullopt;
using std::optional;
using std::string_view;
using std::make_unique;
using std::variant;
using std::visit;
using std::monostate;
using std::get;
using std::get_if;
using std::holds_alternative;
using std::in_place_t;
using std::apply;
using std::exchange;
using std::index_sequence;
using std::make_index_sequence;
using std::bad_variant_access;
template <class C>
auto WrapUnique(C* p)
{
    return std::unique_ptr<C>(p);
}
template <class T, size_t N, class A = std::allocator<T>>
class InlinedVector : public std::vector<T, A>
{
public:
    using std::vector<T, A>::vector;
    InlinedVector() = default;
    InlinedVector(std::vector<T, A> v) : std::vector<T, A>(std::move(v)) {}
};
template <class T, size_t N = 0>
class FixedArray
{
    std::vector<T> v_;

public:
    using value_type = T;
    explicit FixedArray(size_t n) : v_(n) {}
    FixedArray(size_t n, const T& x) : v_(n, x) {}
    template <class It, class = typename std::iterator_traits<It>::iterator_category>
    FixedArray(It b, It e) : v_(b, e)
    {
    }
    T* data() { return v_.data(); }
    const T* data() const { return v_.data(); }
    size_t size() const { return v_.size(); }
    bool empty() const { return v_.empty(); }
    T& operator[](size_t i) { return v_[i]; }
    const T& operator[](size_t i) const { return v_[i]; }
    T* begin() { return v_.data(); }
    T* end() { return v_.data() + v_.size(); }
    const T* begin() const { return v_.data(); }
    const T* end() const { return v_.data() + v_.size(); }
};

template <class T>
class Span
{
    T* p_ = nullptr;
    size_t n_ = 0;
    template <class C>
    using DataT = decltype(std::declval<C&>().data());

public:
    using element_type = T;
    using value_type = std::remove_cv_t<T>;
    using pointer = T*;
    using const_pointer = const T*;
    using reference = T&;
    using const_reference = const T&;
    using iterator = T*;
    using const_iterator = const T*;
    using size_type = size_t;
    using difference_type = ptrdiff_t;
    static constexpr size_t npos = ~size_t(0);
    constexpr Span() = default;
    constexpr Span(T* p, size_t n) : p_(p), n_(n) {}
    template <size_t N>
    constexpr Span(T (&a)[N]) : p_(a), n_(N)
    {
    }
    template <class C,
              class = std::enable_if_t<
                  std::is_convertible<std::remove_pointer_t<DataT<C>> (*)[], T (*)[]>::value
                  && !std::is_same<std::remove_cv_t<C>, Span>::value>,
              class = decltype(std::declval<C&>().size())>
    constexpr Span(C& c) : p_(c.data()), n_(c.size())
    {
    }
    template <class C,
              class U = T,
              class = std::enable_if_t<std::is_const<U>::value
                                       && std::is_convertible<
                                           std::remove_pointer_t<DataT<const C>> (*)[],
                                           T (*)[]>::value
                                       && !std::is_same<std::remove_cv_t<C>, Span>::value>,
              class = decltype(std::declval<const C&>().size()),
              int = 0>
    constexpr Span(const C& c) : p_(c.data()), n_(c.size())
    {
    }
    template <class U = T, class = std::enable_if_t<std::is_const<U>::value>>
    constexpr Span(std::initializer_list<value_type> l) : p_(l.begin()), n_(l.size())
    {
    }
    constexpr T* data() const { return p_; }
    constexpr size_t size() const { return n_; }
    constexpr size_t length() const { return n_; }
    constexpr bool empty() const { return n_ == 0; }
    constexpr T& operator[](size_t i) const { return p_[i]; }
    T& at(size_t i) const
    {
        if (i >= n_)
            throw std::out_of_range("Span::at");
        return p_[i];
    }
    constexpr T& front() const { return p_[0]; }
    constexpr T& back() const { return p_[n_ - 1]; }
    constexpr T* begin() const { return p_; }
    constexpr T* end() const { return p_ + n_; }
    constexpr const T* cbegin() const { return p_; }
    constexpr const T* cend() const { return p_ + n_; }
    void remove_prefix(size_t n) { p_ += n, n_ -= n; }
    void remove_suffix(size_t n) { n_ -= n; }
    Span subspan(size_t pos = 0, size_t len = npos) const
    {
        if (pos > n_)
            throw std::out_of_range("pos > size()");
        return Span(p_ + pos, std::min(n_ - pos, len));
    }
    Span first(size_t len) const
    {
        if (len > n_)
            throw std::out_of_range("len > size()");
        return Span(p_, len);
    }
    Span last(size_t len) const
    {
        if (len > n_)
            throw std::out_of_range("len > size()");
        return Span(p_ + (n_ - len), len);
    }
    template <class U>
    bool operator==(Span<U> o) const
    {
        return std::equal(begin(), end(), o.begin(), o.end());
    }
};
template <class T>
Span<T> MakeSpan(T* p, size_t n)
{
    return Span<T>(p, n);
}
template <class C>
auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>>
{
    return {c.data(), c.size()};
}
template <class T, size_t N>
Span<T> MakeSpan(T (&a)[N])
{
    return Span<T>(a, N);
}
template <class T>
Span<const T> MakeConstSpan(const T* p, size_t n)
{
    return Span<const T>(p, n);
}
template <class C>
auto MakeConstSpan(const C& c) -> Span<const std::remove_pointer_t<decltype(c.data())>>
{
    return {c.data(), c.size()};
}
template <class T, size_t N>
Span<const T> MakeConstSpan(const T (&a)[N])
{
    return Span<const T>(a, N);
}

template <class T>
class FunctionRef;
template <class R, class... A>
class FunctionRef<R(A...)>
{
    void* o_ = nullptr;
    R (*fp_)(A...) = nullptr;
    R (*f_)(void*, R (*)(A...), A...);

public:
    template <class F,
              class = std::enable_if_t<!std::is_same<std::decay_t<F>, FunctionRef>::value
                                       && !std::is_function<std::remove_pointer_t<F>>::value
                                       && std::is_invocable_r<R, const F&, A...>::value>>
    FunctionRef(const F& f)
        : o_((void*)&f)
        , f_([](void* o, R (*)(A...), A... a) -> R {
            return static_cast<R>((*(const F*)o)(std::forward<A>(a)...));
        })
    {
    }
    FunctionRef(R (*fp)(A...))
        : fp_(fp), f_([](void*, R (*fp)(A...), A... a) -> R { return fp(std::forward<A>(a)...); })
    {
    }
    R operator()(A... a) const { return f_(o_, fp_, std::forward<A>(a)...); }
};

// ---- hash containers: insertion ordered with linear lookup (equality is decided by the solver)
template <class K, class V, class H = void, class EQ = std::equal_to<>>
class flat_hash_map
{
public:
    using value_type = std::pair<const K, V>;
    using key_type = K;
    using mapped_type = V;

private:
    std::list<value_type> l_;
    template <class Q>
    static bool same(const K& a, const Q& b)
    {
        return a == b;
    }

public:
    using iterator = typename std::list<value_type>::iterator;
    using const_iterator = typename std::list<value_type>::const_iterator;
    flat_hash_map() = default;
    flat_hash_map(std::initializer_list<value_type> l)
    {
        for (auto& p : l)
            insert(p);
    }
    iterator begin() { return l_.begin(); }
    iterator end() { return l_.end(); }
    const_iterator begin() const { return l_.begin(); }
    const_iterator end() const { return l_.end(); }
    size_t size() const { return l_.size(); }
    bool empty() const { return l_.empty(); }
    void clear() { l_.clear(); }
    void reserve(size_t) {}
    template <class Q>
    iterator find(const Q& k)
    {
        for (auto it = l_.begin(); it != l_.end(); ++it)
            if (same(it->first, k))
                return it;
        return l_.end();
    }
    template <class Q>
    const_iterator find(const Q& k) const
    {
        for (auto it = l_.begin(); it != l_.end(); ++it)
            if (same(it->first, k))
                return it;
        return l_.end();
    }
    template <class Q>
    bool contains(const Q& k) const
    {
        return find(k) != end();
    }
    template <class Q>
    size_t count(const Q& k) const
    {
        return contains(k);
    }
    template <class Q>
    V& at(const Q& k)
    {
        auto it = find(k);
        if (it == end())
            throw std::out_of_range("flat_hash_map::at");
        return it->second;
    }
    template <class Q>
    const V& at(const Q& k) const
    {
        auto it = find(k);
        if (it == end())
            throw std::out_of_range("flat_hash_map::at");
        return it->second;
    }
    template <class Q, class... A>
    std::pair<iterator, bool> try_emplace(Q&& k, A&&... a)
    {
        auto it = find(k);
        if (it != end())
            return {it, false};
        l_.emplace_back(std::piecewise_construct,
                        std::forward_as_tuple(std::forward<Q>(k)),
                        std::forward_as_tuple(std::forward<A>(a)...));
        return {std::prev(l_.end()), true};
    }
    template <class Q, class A>
    std::pair<iterator, bool> emplace(Q&& k, A&& a)
    {
        return try_emplace(std::forward<Q>(k), std::forward<A>(a));
    }
    template <class Q, class A>
    std::pair<iterator, bool> insert_or_assign(Q&& k, A&& a)
    {
        auto it = find(k);
        if (it != end())
        {
            it->second = std::forward<A>(a);
            return {it, false};
        }
        return try_emplace(std::forward<Q>(k), std::forward<A>(a));
    }
    std::pair<iterator, bool> insert(const value_type& p) { return try_emplace(p.first, p.second); }
    std::pair<iterator, bool> insert(std::pair<K, V>&& p)
    {
        return try_emplace(std::move(p.first), std::move(p.second));
    }
    template <class Q>
    V& operator[](Q&& k)
    {
        return try_emplace(std::forward<Q>(k)).first->second;
    }
    void erase(iterator it) { l_.erase(it); }
    void erase(const_iterator it) { l_.erase(it); }
    size_t erase(const K& k)
    {
        auto it = find(k);
        if (it == end())
            return 0;
        l_.erase(it);
        return 1;
    }
    template <class F>
    friend size_t erase_if(flat_hash_map& m, F f)
    {
        size_t n = 0;
        for (auto it = m.l_.begin(); it != m.l_.end();)
            if (f(*it))
                it = m.l_.erase(it), ++n;
            else
                ++it;
        return n;
    }
};
template <class K, class H = void, class EQ = std::equal_to<>>
class flat_hash_set
{
    std::list<K> l_;

public:
    using iterator = typename std::list<K>::const_iterator;
    iterator begin() const { return l_.begin(); }
    iterator end() const { return l_.end(); }
    size_t size() const { return l_.size(); }
    bool empty() const { return l_.empty(); }
    void clear() { l_.clear(); }
    iterator find(const K& k) const { return std::find(l_.begin(), l_.end(), k); }
    bool contains(const K& k) const { return find(k) != end(); }
    size_t count(const K& k) const { return contains(k); }
    std::pair<iterator, bool> insert(K k)
    {
        auto it = find(k);
        if (it != end())
            return {it, false};
        l_.push_back(std::move(k));
        return {std::prev(l_.end()), true};
    }
    size_t erase(const K& k)
    {
        auto it = find(k);
        if (it == end())
            return 0;
        l_.erase(it);
        return 1;
    }
};
template <class K, class V>
using node_hash_map = flat_hash_map<K, V>;

// ---- strings
class AlphaNum
{
    char buf_[32];
    std::string_view v_;

public:
    template <class I,
              std::enable_if_t<std::is_integral<I>::value && !std::is_same<I, char>::value
                                   && !std::is_same<I, bool>::value,
                               int>
              = 0>
    AlphaNum(I i)
    {
        char* e = buf_ + sizeof buf_;
        char* p = e;
        bool neg = false;
        unsigned long long u = (unsigned long long)i;
        if (std::is_signed<I>::value && (long long)i < 0)
            neg = true, u = 0 - (unsigned long long)(long long)i;
        do
            *--p = (char)('0' + u % 10), u /= 10;
        while (u);
        if (neg)
            *--p = '-';
        v_ = std::string_view(p, e - p);
    }
    AlphaNum(const char* s) : v_(s ? std::string_view(s) : std::string_view()) {}
    AlphaNum(std::string_view s) : v_(s) {}
    AlphaNum(const std::string& s) : v_(s) {}
    AlphaNum(const AlphaNum&) = delete;
    std::string_view Piece() const { return v_; }
};
inline std::string StrCat() { return {}; }
template <class... A>
std::string StrCat(const A&... a)
{
    std::string r;
    (r.append(AlphaNum(a).Piece()), ...);
    return r;
}
template <class... A>
void StrAppend(std::string* r, const A&... a)
{
    (r->append(AlphaNum(a).Piece()), ...);
}
template <class C>
std::string StrJoin(const C& c, std::string_view sep)
{
    std::string r;
    bool first = true;
    for (const auto& x : c)
    {
        if (!first)
            r.append(sep);
        first = false;
        r.append(AlphaNum(x).Piece());
    }
    return r;
}
template <class It>
std::string StrJoin(It b, It e, std::string_view sep)
{
    std::string r;
    bool first = true;
    for (; b != e; ++b)
    {
        if (!first)
            r.append(sep);
        first = false;
        r.append(AlphaNum(*b).Piece());
    }
    return r;
}
struct SkipEmpty
{
    bool operator()(std::string_view s) const { return !s.empty(); }
};
struct AllowEmpty
{
    bool operator()(std::string_view) const { return true; }
};
struct ByChar
{
    char c;
    explicit ByChar(char x) : c(x) {}
};
template <class T>
struct is_sv_elem : std::false_type
{
};
class SplitRes
{
    std::vector<std::string_view> v_;

public:
    explicit SplitRes(std::vector<std::string_view> v) : v_(std::move(v)) {}
    auto begin() const { return v_.begin(); }
    auto end() const { return v_.end(); }
    template <class C, class T = typename C::value_type, class = decltype(std::declval<C&>().push_back(std::declval<T>()))>
    operator C() const
    {
        C c;
        for (auto s : v_)
            c.push_back(T(s));
        return c;
    }
};
template <class Pred = AllowEmpty>
SplitRes StrSplit(std::string_view s, char d, Pred pred = {})
{
    std::vector<std::string_view> r;
    size_t st = 0;
    for (size_t i = 0; i <= s.size(); ++i)
        if (i == s.size() || s[i] == d)
        {
            auto t = s.substr(st, i - st);
            if (pred(t))
                r.push_back(t);
            st = i + 1;
        }
    return SplitRes(std::move(r));
}
template <class Pred = AllowEmpty>
SplitRes StrSplit(std::string_view s, ByChar d, Pred pred = {})
{
    return StrSplit(s, d.c, pred);
}
template <class Pred = AllowEmpty>
SplitRes StrSplit(std::string_view s, std::string_view d, Pred pred = {})
{
    std::vector<std::string_view> r;
    for (;;)
    {
        size_t p = s.find(d);
        auto t = s.substr(0, p);
        if (pred(t))
            r.push_back(t);
        if (p == s.npos)
            break;
        s.remove_prefix(p + d.size());
    }
    return SplitRes(std::move(r));
}
inline char ascii_tolower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
inline char ascii_toupper(unsigned char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool StartsWith(std::string_view t, std::string_view p)
{
    return t.size() >= p.size() && sym_eq(t.data(), p.data(), p.size());
}
inline bool EndsWith(std::string_view t, std::string_view p)
{
    return t.size() >= p.size() && sym_eq(t.data() + (t.size() - p.size()), p.data(), p.size());
}
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (ascii_tolower(a[i]) != ascii_tolower(b[i]))
            return false;
    return true;
}
inline bool StartsWithIgnoreCase(std::string_view t, std::string_view p)
{
    return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p);
}
inline bool EndsWithIgnoreCase(std::string_view t, std::string_view p)
{
    return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p);
}
inline bool StrContains(std::string_view a, std::string_view b) { return a.find(b) != a.npos; }
inline bool ConsumePrefix(std::string_view* s, std::string_view p)
{
    if (!StartsWith(*s, p))
        return false;
    s->remove_prefix(p.size());
    return true;
}
inline bool ConsumeSuffix(std::string_view* s, std::string_view p)
{
    if (!EndsWith(*s, p))
        return false;
    s->remove_suffix(p.size());
    return true;
}
inline std::string_view StripPrefix(std::string_view s, std::string_view p)
{
    ConsumePrefix(&s, p);
    return s;
}
inline std::string_view StripSuffix(std::string_view s, std::string_view p)
{
    ConsumeSuffix(&s, p);
    return s;
}
inline std::string_view ClippedSubstr(std::string_view s, size_t pos, size_t n = std::string_view::npos)
{
    return s.substr(std::min(pos, s.size()), n);
}
template <class I>
bool SimpleAtoi(std::string_view s, I* out)
{
    while (!s.empty() && ascii_isspace(s.front()))
        s.remove_prefix(1);
    while (!s.empty() && ascii_isspace(s.back()))
        s.remove_suffix(1);
    bool neg = false;
    if (!s.empty() && (s[0] == '-' || s[0] == '+'))
    {
        neg = s[0] == '-';
        s.remove_prefix(1);
    }
    if (s.empty() || (neg && std::is_unsigned<I>::value))
        return false;
    __int128 v = 0;
    for (char c : s)
    {
        if (c < '0' || c > '9')
            return false;
        v = v * 10 + (c - '0');
        if (v > ((__int128)1 << 66))
            return false;
    }
    if (neg)
        v = -v;
    if (v > (__int128)std::numeric_limits<I>::max() || v < (__int128)std::numeric_limits<I>::min())
        return false;
    *out = (I)v;
    return true;
}
inline std::string CEscape(std::string_view s)
{
    return std::string(s);
}
inline std::string Utf8SafeCEscape(std::string_view s) { return std::string(s); }
inline std::string BytesToHexString(std::string_view s)
{
    std::string r;
    for (unsigned char c : s)
    {
        r.push_back("0123456789abcdef"[c >> 4]);
        r.push_back("0123456789abcdef"[c & 15]);
    }
    return r;
}
// url-safe base64 alphabet, branch free in the data so that symbolic bytes do not fork
inline char b64c_(unsigned v)
{
    return (char)sym_ite(v < 26,
                         'A' + v,
                         sym_ite(v < 52, 'a' + v - 26, sym_ite(v < 62, '0' + v - 52, v == 62 ? '-' : '_')));
}
inline unsigned b64d_(unsigned char c, int& bad)
{
    bool u = c >= 'A' && c <= 'Z', l = c >= 'a' && c <= 'z', d = c >= '0' && c <= '9';
    bool m = c == '-', s = c == '_';
    bad |= !(u | l | d | m | s);
    return (unsigned)sym_ite(
        u, c - 'A', sym_ite(l, c - 'a' + 26, sym_ite(d, c - '0' + 52, sym_ite(m, 62, 63))));
}
inline std::string WebSafeBase64Escape(std::string_view s)
{
    std::string r;
    size_t i = 0;
    for (; i + 2 < s.size(); i += 3)
    {
        unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2];
        r.push_back(b64c_(v >> 18));
        r.push_back(b64c_(v >> 12 & 63));
        r.push_back(b64c_(v >> 6 & 63));
        r.push_back(b64c_(v & 63));
    }
    if (s.size() - i == 1)
    {
        unsigned v = (unsigned char)s[i] << 16;
        r.push_back(b64c_(v >> 18));
        r.push_back(b64c_(v >> 12 & 63));
    }
    else if (s.size() - i == 2)
    {
        unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8;
        r.push_back(b64c_(v >> 18));
        r.push_back(b64c_(v >> 12 & 63));
        r.push_back(b64c_(v >> 6 & 63));
    }
    return r;
}
inline void WebSafeBase64Escape(std::string_view s, std::string* d) { *d = WebSafeBase64Escape(s); }
inline bool WebSafeBase64Unescape(std::string_view s, std::string* out)
{
    out->clear();
    while (!s.empty() && (s.back() == '=' || s.back() == '.'))
        s.remove_suffix(1);
    if (s.size() % 4 == 1)
        return false;
    int bad = 0;
    unsigned acc = 0, n = 0;
    for (unsigned char c : s)
    {
        acc = acc << 6 | b64d_(c, bad);
        n += 6;
        if (n >= 8)
        {
            n -= 8;
            out->push_back((char)(acc >> n));
            acc &= (1u << n) - 1;
        }
    }
    if (bad || acc)
    {
        out->clear();
        return false;
    }
    return true;
}

// ---- formatting: the arguments are evaluated, the text is not modelled
struct FormatSpec_
{
    FormatSpec_(const char*) {}
    FormatSpec_(std::string_view) {}
};
template <class... A>
using FormatSpec = FormatSpec_;
template <class... A>
std::string StrFormat(const char* f, const A&...)
{
    return std::string(f);
}
template <class... A>
void StrAppendFormat(std::string* s, const char* f, const A&...)
{
    s->append(f);
}
template <class F, class... A>
int FPrintF(std::FILE*, const F&, const A&...)
{
    return 0;
}
template <class... A>
int PrintF(const char*, const A&...)
{
    return 0;
}
template <class S, class... A>
bool Format(S*, const char*, const A&...)
{
    return true;
}
struct FormatSink
{
    void Append(std::string_view) {}
    void Append(size_t, char) {}
};

// ---- time
class Duration
{
public:
    __int128 ns = 0;
    Duration() = default;
    explicit Duration(__int128 n) : ns(n) {}
    friend bool operator<(Duration a, Duration b) { return a.ns < b.ns; }
    friend bool operator>(Duration a, Duration b) { return a.ns > b.ns; }
    friend bool operator<=(Duration a, Duration b) { return a.ns <= b.ns; }
    friend bool operator>=(Duration a, Duration b) { return a.ns >= b.ns; }
    friend bool operator==(Duration a, Duration b) { return a.ns == b.ns; }
    friend bool operator!=(Duration a, Duration b) { return a.ns != b.ns; }
    friend Duration operator+(Duration a, Duration b) { return Duration(a.ns + b.ns); }
    friend Duration operator-(Duration a, Duration b) { return Duration(a.ns - b.ns); }
};
inline Duration Nanoseconds(int64_t n) { return Duration(n); }
inline Duration Microseconds(int64_t n) { return Duration((__int128)n * 1000); }
inline Duration Milliseconds(int64_t n) { return Duration((__int128)n * 1000000); }
inline Duration Seconds(int64_t n) { return Duration((__int128)n * 1000000000); }
inline Duration Minutes(int64_t n) { return Seconds(n * 60); }
inline Duration Hours(int64_t n) { return Seconds(n * 3600); }
inline Duration ZeroDuration() { return Duration(); }
inline Duration InfiniteDuration() { return Duration((__int128)1 << 100); }
class Time
{
public:
    __int128 ns = 0;
    Time() = default;
    explicit Time(__int128 n) : ns(n) {}
    friend bool operator<(Time a, Time b) { return a.ns < b.ns; }
    friend bool operator>(Time a, Time b) { return a.ns > b.ns; }
    friend bool operator<=(Time a, Time b) { return a.ns <= b.ns; }
    friend bool operator>=(Time a, Time b) { return a.ns >= b.ns; }
    friend bool operator==(Time a, Time b) { return a.ns == b.ns; }
    friend bool operator!=(Time a, Time b) { return a.ns != b.ns; }
    friend Time operator+(Time a, Duration b) { return Time(a.ns + b.ns); }
    friend Time operator-(Time a, Duration b) { return Time(a.ns - b.ns); }
    friend Duration operator-(Time a, Time b) { return Duration(a.ns - b.ns); }
};
inline Time UniversalEpoch() { return Time(-((__int128)62135596800) * 1000000000); }
inline Time UnixEpoch() { return Time(); }
inline Time InfinitePast() { return Time(-((__int128)1 << 100)); }
inline Time InfiniteFuture() { return Time((__int128)1 << 100); }
inline Time TimeFromTimespec(timespec t) { return Time((__int128)t.tv_sec * 1000000000 + t.tv_nsec); }
inline Time sym_now_hook()
{
    timespec t;
    ::clock_gettime(CLOCK_REALTIME, &t);
    return Time((__int128)t.tv_sec * 1000000000 + t.tv_nsec);
}
inline Time Now() { return sym_now_hook(); }
struct TimeZone
{
};
inline TimeZone UTCTimeZone() { return {}; }
constexpr const char RFC3339_full[] = "rfc";
inline std::string FormatTime(std::string_view, Time, TimeZone) { return "time"; }

// ---- synchronisation: single threaded; taking a lock twice is a self deadlock
class Mutex;
class Condition
{
    std::function<bool()> f_;

public:
    template <class T>
    Condition(bool (*f)(T*), T* a) : f_([=] { return f(a); })
    {
    }
    template <class T>
    Condition(bool (*f)(const T*), const T* a) : f_([=] { return f(a); })
    {
    }
    template <class T>
    Condition(bool (*f)(const T*), T* a) : f_([=] { return f(a); })
    {
    }
    explicit Condition(const bool* b) : f_([=] { return *b; }) {}
    bool Eval() const { return f_(); }
};
class Mutex
{
    int excl_ = 0, shared_ = 0;

public:
    Mutex() = default;
    Mutex(const Mutex&) = delete;
    Mutex& operator=(const Mutex&) = delete;
    void Lock()
    {
        if (excl_ || shared_)
            sym_fail("deadlock: Mutex locked while already held by this thread");
        excl_ = 1;
    }
    void Unlock()
    {
        if (!excl_)
            sym_fail("Mutex unlocked while not locked");
        excl_ = 0;
    }
    bool TryLock()
    {
        if (excl_ || shared_)
            return false;
        excl_ = 1;
        return true;
    }
    void ReaderLock()
    {
        if (excl_)
            sym_fail("deadlock: Mutex read-locked while held by this thread");
        ++shared_;
    }
    void ReaderUnlock()
    {
        if (!shared_)
            sym_fail("Mutex read-unlocked while not locked");
        --shared_;
    }
    bool ReaderTryLock()
    {
        if (excl_)
            return false;
        ++shared_;
        return true;
    }
    void WriterLock() { Lock(); }
    void WriterUnlock() { Unlock(); }
    bool WriterTryLock() { return TryLock(); }
    void AssertHeld() const
    {
        if (!excl_)
            sym_fail("AssertHeld fails");
    }
    void AssertReaderHeld() const {}
    bool AwaitWithDeadline(const Condition& c, Time) { return c.Eval(); }
    bool AwaitWithTimeout(const Condition& c, Duration) { return c.Eval(); }
    void Await(const Condition&) {}
    bool sym_held() const { return excl_ || shared_; }
};
class MutexLock
{
    Mutex* m_;

public:
    explicit MutexLock(Mutex* m) : m_(m) { m->Lock(); }
    ~MutexLock() { m_->Unlock(); }
    MutexLock(const MutexLock&) = delete;
};
class ReaderMutexLock
{
    Mutex* m_;

public:
    explicit ReaderMutexLock(Mutex* m) : m_(m) { m->ReaderLock(); }
    ~ReaderMutexLock() { m_->ReaderUnlock(); }
};
using WriterMutexLock = MutexLock;
template <class F>
class Cleanup_
{
    F f_;
    bool on_ = true;

public:
    explicit Cleanup_(F f) : f_(std::move(f)) {}
    ~Cleanup_()
    {
        if (on_)
            f_();
    }
    void Cancel() && { on_ = false; }
};
template <class F>
Cleanup_<F> MakeCleanup(F f)
{
    return Cleanup_<F>(std::move(f));
}
}    // namespace absl
