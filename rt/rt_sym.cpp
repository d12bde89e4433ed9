// Runtime for symbolic execution: the parts of libc / libstdc++ / libc++abi which live in shared
// libraries and are therefore not part of the bitcode. Only used by the engine, never natively.
#include "sym.h"
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <pthread.h>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <ctime>
#include <ios>

bool std::ios_base::sync_with_stdio(bool b) { return b; }
extern "C"
{
    char __libc_single_threaded = 0; // reference counts are atomic, as in a process with threads
    static thread_local int g_errno;
    int* __errno_location(void) noexcept { return &g_errno; }
    FILE* stderr = nullptr;
    FILE* stdout = nullptr;
    FILE* stdin = nullptr;
    char** environ = nullptr;

    void sym_rt_bad_alloc() { throw std::bad_alloc(); }

    // ---- string.h
    size_t strlen(const char* s) noexcept
    {
        size_t n = 0;
        while (s[n])
            ++n;
        return n;
    }
    size_t strnlen(const char* s, size_t m) noexcept
    {
        size_t n = 0;
        while (n < m && s[n])
            ++n;
        return n;
    }
    int strcmp(const char* a, const char* b) noexcept
    {
        while (*a && *a == *b)
            ++a, ++b;
        return (int)(unsigned char)*a - (int)(unsigned char)*b;
    }
    int strncmp(const char* a, const char* b, size_t n) noexcept
    {
        while (n && *a && *a == *b)
            ++a, ++b, --n;
        if (!n)
            return 0;
        return (int)(unsigned char)*a - (int)(unsigned char)*b;
    }
    static int lower_(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
    int tolower(int c) noexcept { return lower_(c); }
    int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
    int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
    int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    int isalnum(int c) noexcept { return isdigit(c) || isalpha(c); }
    int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
    int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
    int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
    int isprint(int c) noexcept { return c >= 32 && c < 127; }
    int isxdigit(int c) noexcept { return isdigit(c) || (lower_(c) >= 'a' && lower_(c) <= 'f'); }
    int strcasecmp(const char* a, const char* b) noexcept
    {
        while (*a && lower_(*a) == lower_(*b))
            ++a, ++b;
        return lower_((unsigned char)*a) - lower_((unsigned char)*b);
    }
    int strncasecmp(const char* a, const char* b, size_t n) noexcept
    {
        while (n && *a && lower_(*a) == lower_(*b))
            ++a, ++b, --n;
        if (!n)
            return 0;
        return lower_((unsigned char)*a) - lower_((unsigned char)*b);
    }
    char* strcpy(char* d, const char* s) noexcept
    {
        char* r = d;
        while ((*d++ = *s++))
            ;
        return r;
    }
    char* strncpy(char* d, const char* s, size_t n) noexcept
    {
        size_t i = 0;
        for (; i < n && s[i]; ++i)
            d[i] = s[i];
        for (; i < n; ++i)
            d[i] = 0;
        return d;
    }
    char* strcat(char* d, const char* s) noexcept
    {
        strcpy(d + strlen(d), s);
        return d;
    }
    char* rt_strchr_(const char* s, int c) noexcept __asm__("strchr");
    char* rt_strchr_(const char* s, int c) noexcept
    {
        // one fork only, whatever the length of the (concrete) string
        size_t n = strlen(s);
        if (n > 256)
        {
            for (size_t i = 0; i <= n; ++i)
                if (s[i] == (char)c)
                    return (char*)s + i;
            return nullptr;
        }
        uint64_t idx = n + 1;
        for (size_t i = n + 1; i-- > 0;)
            idx = sym_ite(s[i] == (char)c, i, idx);
        if (idx == n + 1)
            return nullptr;
        return (char*)s + idx;
    }
    char* rt_strrchr_(const char* s, int c) noexcept __asm__("strrchr");
    char* rt_strrchr_(const char* s, int c) noexcept
    {
        const char* r = nullptr;
        for (;; ++s)
        {
            if (*s == (char)c)
                r = s;
            if (!*s)
                return (char*)r;
        }
    }
    char* rt_strstr_(const char* h, const char* n) noexcept __asm__("strstr");
    char* rt_strstr_(const char* h, const char* n) noexcept
    {
        size_t l = strlen(n);
        for (;; ++h)
        {
            if (strncmp(h, n, l) == 0)
                return (char*)h;
            if (!*h)
                return nullptr;
        }
    }
    void* rt_memchr_(const void* p, int c, size_t n) noexcept __asm__("memchr");
    void* rt_memchr_(const void* p, int c, size_t n) noexcept
    {
        const unsigned char* s = (const unsigned char*)p;
        if (sym_is_symbolic((unsigned char)c) && n <= 256)
        {
            uint64_t idx = n;
            for (size_t i = n; i-- > 0;)
                idx = sym_ite(s[i] == (unsigned char)c, i, idx);
            return idx == n ? nullptr : (void*)(s + idx);
        }
        for (size_t i = 0; i < n; ++i)
            if (s[i] == (unsigned char)c)
                return (void*)(s + i);
        return nullptr;
    }
    void* rt_memrchr_(const void* p, int c, size_t n) noexcept __asm__("memrchr");
    void* rt_memrchr_(const void* p, int c, size_t n) noexcept
    {
        const unsigned char* s = (const unsigned char*)p;
        while (n--)
            if (s[n] == (unsigned char)c)
                return (void*)(s + n);
        return nullptr;
    }
    char* strdup(const char* s) noexcept
    {
        size_t n = strlen(s) + 1;
        char* r = (char*)malloc(n);
        memcpy(r, s, n);
        return r;
    }
    char* strerror(int) noexcept { return (char*)"errno"; }
    char* strerror_r(int, char* b, size_t n) noexcept
    {
        if (n)
            b[0] = 0;
        return b;
    }
    void explicit_bzero(void* p, size_t n) noexcept { memset(p, 0, n); }
    char* getenv(const char*) noexcept { return nullptr; }
    char* secure_getenv(const char*) noexcept { return nullptr; }

    static long long parse_(const char* s, char** e, int base)
    {
        const char* p = s;
        while (isspace((unsigned char)*p))
            ++p;
        bool neg = false;
        if (*p == '-' || *p == '+')
            neg = *p++ == '-';
        if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X'))
            p += 2, base = 16;
        if (base == 0)
            base = p[0] == '0' ? 8 : 10;
        unsigned long long v = 0;
        const char* st = p;
        for (;; ++p)
        {
            int c = (unsigned char)*p, d;
            if (isdigit(c))
                d = c - '0';
            else if (isalpha(c))
                d = lower_(c) - 'a' + 10;
            else
                break;
            if (d >= base)
                break;
            v = v * base + d;
        }
        if (e)
            *e = (char*)(p == st ? s : p);
        return neg ? -(long long)v : (long long)v;
    }
    long strtol(const char* s, char** e, int b) noexcept { return parse_(s, e, b); }
    long long strtoll(const char* s, char** e, int b) noexcept { return parse_(s, e, b); }
    unsigned long strtoul(const char* s, char** e, int b) noexcept { return parse_(s, e, b); }
    unsigned long long strtoull(const char* s, char** e, int b) noexcept { return parse_(s, e, b); }

    __attribute__((weak)) char* __cxa_demangle(const char*, char*, size_t*, int*) { return nullptr; }
    // ---- stdio: nothing is really printed
    __attribute__((weak)) int fputs(const char*, FILE*) { return 0; }
    __attribute__((weak)) int fputc(int, FILE*) { return 0; }
    __attribute__((weak)) int putc(int, FILE*) { return 0; }
    int puts(const char*) { return 0; }
    __attribute__((weak)) int fflush(FILE*) { return 0; }
    __attribute__((weak)) int fclose(FILE*) { return 0; }
    int fileno(FILE*) noexcept { return 2; }
    __attribute__((weak)) size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; }
    __attribute__((weak)) int fprintf(FILE*, const char*, ...) { return 0; }
    int printf(const char*, ...) { return 0; }
    int vfprintf(FILE*, const char*, va_list) { return 0; }
    int isatty(int) noexcept { return 0; }
    void perror(const char*) {}

    // %d %i %u %x %X %o %s %c %% with l/ll/z/h modifiers, width, 0 flag, precision for %s
    int vsnprintf(char* b, size_t n, const char* f, va_list ap) noexcept
    {
        size_t o = 0;
        auto put = [&](char c) {
            if (o + 1 < n)
                b[o] = c;
            ++o;
        };
        for (; *f; ++f)
        {
            if (*f != '%')
            {
                put(*f);
                continue;
            }
            ++f;
            bool zero = false, left = false;
            while (*f == '0' || *f == '-' || *f == '#' || *f == ' ' || *f == '+')
            {
                if (*f == '0')
                    zero = true;
                if (*f == '-')
                    left = true;
                ++f;
            }
            int width = 0, prec = -1;
            if (*f == '*')
                width = va_arg(ap, int), ++f;
            while (isdigit(*f))
                width = width * 10 + (*f++ - '0');
            if (*f == '.')
            {
                ++f;
                prec = 0;
                if (*f == '*')
                    prec = va_arg(ap, int), ++f;
                while (isdigit(*f))
                    prec = prec * 10 + (*f++ - '0');
            }
            int l = 0;
            while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't')
            {
                if (*f == 'h')
                    --l;
                else
                    ++l;
                ++f;
            }
            char tmp[32];
            int tn = 0;
            const char* s = nullptr;
            size_t sl = 0;
            bool neg = false;
            unsigned long long v = 0;
            int base = 10;
            bool num = true;
            switch (*f)
            {
            case 'd':
            case 'i':
            {
                long long q = l > 0 ? va_arg(ap, long long) : va_arg(ap, int);
                neg = q < 0;
                v = neg ? 0 - (unsigned long long)q : q;
                break;
            }
            case 'p':
                v = (unsigned long long)va_arg(ap, void*);
                base = 16;
                break;
            case 'u':
            case 'x':
            case 'X':
            case 'o':
                v = l > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
                if (l == -2)
                    v &= 0xff;
                if (l == -1)
                    v &= 0xffff;
                base = *f == 'u' ? 10 : *f == 'o' ? 8 : 16;
                break;
            case 'c':
                tmp[0] = (char)va_arg(ap, int);
                s = tmp;
                sl = 1;
                num = false;
                break;
            case 's':
                s = va_arg(ap, const char*);
                sl = prec >= 0 ? strnlen(s, prec) : strlen(s);
                num = false;
                break;
            case '%':
                tmp[0] = '%';
                s = tmp;
                sl = 1;
                num = false;
                break;
            default:
                sym_fail("runtime: unsupported printf conversion");
                return -1;
            }
            if (num)
            {
                char rev[32];
                int r = 0;
                do
                {
                    int d = (int)(v % base);
                    rev[r++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10;
                    v /= base;
                } while (v);
                while (r < prec)
                    rev[r++] = '0';
                if (neg)
                    tmp[tn++] = '-';
                while (zero && prec < 0 && !left && tn + r < width && r < 31)
                    rev[r++] = '0';
                while (r)
                    tmp[tn++] = rev[--r];
                s = tmp;
                sl = tn;
            }
            if (!left)
                for (int i = (int)sl; i < width; ++i)
                    put(' ');
            for (size_t i = 0; i < sl; ++i)
                put(s[i]);
            if (left)
                for (int i = (int)sl; i < width; ++i)
                    put(' ');
        }
        if (n)
            b[o < n ? o : n - 1] = 0;
        return (int)o;
    }
    int snprintf(char* b, size_t n, const char* f, ...) noexcept
    {
        va_list ap;
        va_start(ap, f);
        int r = vsnprintf(b, n, f, ap);
        va_end(ap);
        return r;
    }
    int sprintf(char* b, const char* f, ...) noexcept
    {
        va_list ap;
        va_start(ap, f);
        int r = vsnprintf(b, 1u << 20, f, ap);
        va_end(ap);
        return r;
    }

    // ---- single threaded pthreads
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept
    {
        if (m->__data.__kind != PTHREAD_MUTEX_RECURSIVE && m->__data.__count)
        {
            sym_fail("deadlock: mutex locked twice by the same thread");
        }
        m->__data.__count++;
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
    {
        if (m->__data.__kind != PTHREAD_MUTEX_RECURSIVE && m->__data.__count)
            return EBUSY;
        m->__data.__count++;
        return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
    {
        if (!m->__data.__count)
            sym_fail("unlock of a mutex that is not locked");
        m->__data.__count--;
        return 0;
    }
    int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
    {
        memset(m, 0, sizeof *m);
        if (a)
            m->__data.__kind = *(const int*)a;
        return 0;
    }
    int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
    int pthread_mutexattr_init(pthread_mutexattr_t* a) noexcept
    {
        *(int*)a = 0;
        return 0;
    }
    int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) noexcept
    {
        *(int*)a = t;
        return 0;
    }
    int pthread_mutexattr_destroy(pthread_mutexattr_t*) noexcept { return 0; }
    pthread_t pthread_self(void) noexcept { return 1; }
    int pthread_once(pthread_once_t* o, void (*f)(void))
    {
        if (!*o)
        {
            *o = 1;
            f();
        }
        return 0;
    }
    int sched_yield(void) noexcept { return 0; }
    int getpid(void) noexcept { return 4242; }
    unsigned getuid(void) noexcept { return 1000; }
    unsigned getgid(void) noexcept { return 1000; }
    long syscall(long, ...) noexcept { return 4242; }
    static long g_clock = 1000000000;
    int clock_gettime(clockid_t, struct timespec* t) noexcept
    {
        t->tv_sec = g_clock++;
        t->tv_nsec = 0;
        return 0;
    }
    time_t time(time_t* t) noexcept
    {
        time_t r = g_clock++;
        if (t)
            *t = r;
        return r;
    }
    void __cxa_throw_bad_array_new_length(void) { throw std::bad_array_new_length(); }
    void __cxa_bad_cast(void) { throw std::bad_cast(); }
    void __cxa_bad_typeid(void) { throw std::bad_typeid(); }
    void __cxa_throw_bad_array_length(void) { throw std::bad_array_new_length(); }
}

namespace std
{
ios_base::Init::Init() {}
ios_base::Init::~Init() {}

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {}
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }

static char* cow_dup_(const char* s, size_t n)
{
    char* p = (char*)malloc(n + 1);
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
__cow_string::__cow_string() : _M_p(cow_dup_("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(cow_dup_(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(cow_dup_(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(cow_dup_(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept
{
    if (this != &o)
    {
        free((void*)_M_p);
        _M_p = cow_dup_(o._M_p, strlen(o._M_p));
    }
    return *this;
}
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(cow_dup_(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = (const __cow_string&)o; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept
{
    _M_msg = o._M_msg;
    return *this;
}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept
{
    _M_msg = o._M_msg;
    return *this;
}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define ERR(cls, base)                                                                             \
    cls::cls(const string& s) : base(s) {}                                                         \
    cls::cls(const char* s) : base(s) {}                                                           \
    cls::~cls() noexcept {}
ERR(domain_error, logic_error)
ERR(invalid_argument, logic_error)
ERR(length_error, logic_error)
ERR(out_of_range, logic_error)
ERR(range_error, runtime_error)
ERR(overflow_error, runtime_error)
ERR(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

bool _Sp_make_shared_tag::_S_eq(const type_info& t) noexcept { return t == typeid(_Sp_make_shared_tag); }

namespace chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept
{
    return time_point(duration(g_clock++ * 1000000000LL));
}
steady_clock::time_point steady_clock::now() noexcept
{
    return time_point(duration(g_clock++ * 1000000000LL));
}
}    // namespace _V2
}    // namespace chrono

namespace __detail
{
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    this->_M_next = p;
    this->_M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    auto n = _M_next, p = _M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this != last)
    {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next = first;
        auto tmp = this->_M_prev;
        this->_M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = tmp;
    }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    if (x._M_next != &x)
    {
        if (y._M_next != &y)
        {
            auto t = x._M_next; x._M_next = y._M_next; y._M_next = t;
            t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t;
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        }
        else
        {
            y._M_next = x._M_next; y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    }
    else if (y._M_next != &y)
        swap(y, x);
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    size_t r = 11;
    while (r < n)
        r = r * 2 + 1;
    _M_next_resize = r;
    return r;
}
std::pair<bool, std::size_t>
_Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > bkt)
        return {true, _M_next_bkt(elt + ins > 2 * bkt ? elt + ins : 2 * bkt)};
    return {false, 0};
}
}    // namespace __detail

size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    const unsigned char* s = (const unsigned char*)p;
    size_t h = seed ^ 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ s[i]) * 1099511628211ull;
    return h;
}

static _Rb_tree_node_base* rb_inc_(_Rb_tree_node_base* x)
{
    if (x->_M_right)
    {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
    }
    else
    {
        auto y = x->_M_parent;
        while (x == y->_M_right)
        {
            x = y;
            y = y->_M_parent;
        }
        if (x->_M_right != y)
            x = y;
    }
    return x;
}
static _Rb_tree_node_base* rb_dec_(_Rb_tree_node_base* x)
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
        x = x->_M_right;
    else if (x->_M_left)
    {
        auto y = x->_M_left;
        while (y->_M_right)
            y = y->_M_right;
        x = y;
    }
    else
    {
        auto y = x->_M_parent;
        while (x == y->_M_left)
        {
            x = y;
            y = y->_M_parent;
        }
        x = y;
    }
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc_(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{
    return rb_inc_(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec_(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{
    return rb_dec_(const_cast<_Rb_tree_node_base*>(x));
}
// An unbalanced search tree is enough here (header conventions of libstdc++ are kept; all nodes are
// black apart from the header).
void _Rb_tree_insert_and_rebalance(const bool left,
                                   _Rb_tree_node_base* x,
                                   _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h)
        {
            h._M_parent = x;
            h._M_right = x;
        }
        else if (p == h._M_left)
            h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right)
            h._M_right = x;
    }
    h._M_color = _S_red;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,
                                                 _Rb_tree_node_base& h) throw()
{
    auto replace = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
        if (h._M_parent == u)
            h._M_parent = v;
        else if (u->_M_parent->_M_left == u)
            u->_M_parent->_M_left = v;
        else
            u->_M_parent->_M_right = v;
        if (v)
            v->_M_parent = u->_M_parent;
    };
    if (!z->_M_left)
        replace(z, z->_M_right);
    else if (!z->_M_right)
        replace(z, z->_M_left);
    else
    {
        auto y = z->_M_right;
        while (y->_M_left)
            y = y->_M_left;
        if (y->_M_parent != z)
        {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
        y->_M_color = _S_black;
    }
    auto r = h._M_parent;
    if (!r)
    {
        h._M_left = h._M_right = &h;
    }
    else
    {
        auto l = r;
        while (l->_M_left)
            l = l->_M_left;
        h._M_left = l;
        auto g = r;
        while (g->_M_right)
            g = g->_M_right;
        h._M_right = g;
    }
    return z;
}
}    // namespace std

extern "C" void sym_set_tid(uint64_t t);
extern "C" void sym_tls_reset(uint64_t t);    // fresh thread-local variables for the next thread of this number
namespace
{
struct ThreadExit
{
    int tid;
    void (*fn)(void*);
    void* arg;
};
ThreadExit g_exits[64];
int g_nexits, g_tid;
struct Switch
{
    int old = g_tid;
    explicit Switch(int t)
    {
        g_tid = t;
        sym_set_tid((uint64_t)t);
    }
    ~Switch()
    {
        g_tid = old;
        sym_set_tid((uint64_t)old);
    }
};
}    // namespace
extern "C"
{
    int __cxa_thread_atexit(void (*fn)(void*), void* arg, void*)
    {
        sym_race(2, nullptr);
        if (g_nexits < 64)
            g_exits[g_nexits++] = ThreadExit{g_tid, fn, arg};
        sym_race(3, nullptr);
        return 0;
    }
    void sym_on_thread(int t, void (*f)(void*), void* arg)
    {
        Switch s(t);
        f(arg);
    }
    void sym_thread_end(int t)
    {
        Switch s(t);
        for (int i = g_nexits; i--;)
            if (g_exits[i].fn && g_exits[i].tid == t)
            {
                auto e = g_exits[i];
                g_exits[i].fn = nullptr;
                e.fn(e.arg);
            }
        if (t)
            sym_tls_reset((uint64_t)t);
    }
}
