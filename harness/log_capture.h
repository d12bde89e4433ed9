// The real logger, printing into memory.
#pragma once
#include "model.h"
#include "logger.h"
#include "platform.h"
#include <cstdarg>
namespace cap
{
struct Log
{
    std::string text;
    std::vector<uint64_t> numbers;
    std::string marks;    // L lock, U unlock, n end of line, F flush, w anything else, + colour set, - colour reset
    bool any = false;
    void put(const char* s, size_t n)
    {
        text.append(s, n);
        for (size_t i = 0; i < n; ++i)
            mark(s[i] == '\n' ? 'n' : 'w');
        if (!n)
            mark('w');
    }
    void mark(char c)
    {
        any = true;
        if (c != 'w' || marks.empty() || marks.back() != 'w')
            marks.push_back(c);
    }
    void clear() { *this = Log(); }
};
inline Log& log()
{
    static Log l;
    return l;
}
inline char& file()
{
    static char f[512];
    return f[0];
}
inline FILE* fp() { return (FILE*)&file(); }
inline absl::CaptureSink& sink()
{
    static absl::CaptureSink s{&log().text, &log().numbers};
    return s;
}
inline bool& coloured()
{
    static bool c = false;
    return c;
}
struct Setter final : securefs::ConsoleColourSetter
{
    void use(securefs::Colour::Code c) noexcept override { log().mark(c == securefs::Colour::Default ? '-' : '+'); }
};
inline std::unique_ptr<securefs::Logger> logger(securefs::LoggingLevel l)
{
    std::unique_ptr<securefs::Logger> p(new securefs::Logger(fp(), false));
    p->set_level(l);
    return p;
}
}    // namespace cap
namespace absl
{
CaptureSink* sym_log(std::FILE* f)
{
    if (f != cap::fp())
        return nullptr;
    cap::log().mark('w');
    return &cap::sink();
}
}    // namespace absl
#ifndef REAL_CONSOLE
namespace securefs
{
std::unique_ptr<ConsoleColourSetter> ConsoleColourSetter::create_setter(FILE*)
{
    if (!cap::coloured())
        return {};
    return std::make_unique<cap::Setter>();
}
}    // namespace securefs
#endif
extern "C"
{
    int fputs(const char* s, FILE* f)
    {
        if (f == cap::fp())
            cap::log().put(s, strlen(s));
        return 0;
    }
    int fputc(int c, FILE* f)
    {
        char ch = (char)c;
        if (f == cap::fp())
            cap::log().put(&ch, 1);
        return c;
    }
    int putc(int c, FILE* f) { return fputc(c, f); }
    size_t fwrite(const void* p, size_t s, size_t n, FILE* f)
    {
        if (f == cap::fp())
            cap::log().put((const char*)p, s * n);
        return n;
    }
    int fflush(FILE* f)
    {
        if (f == cap::fp())
            cap::log().mark('F');
        return 0;
    }
    void flockfile(FILE* f) noexcept
    {
        if (f == cap::fp())
            cap::log().mark('L');
    }
    void funlockfile(FILE* f) noexcept
    {
        if (f == cap::fp())
            cap::log().mark('U');
    }
#ifdef REAL_CONSOLE
    FILE* fopen(const char*, const char*) { return cap::fp(); }
    FILE* fdopen(int, const char*) noexcept { return cap::fp(); }
    int fclose(FILE*) { return 0; }
#endif
    int fprintf(FILE* f, const char* s, ...)    // the conversions that are used for numbers and plain strings only
    {
        if (f != cap::fp())
        {
            va_list ap;
            va_start(ap, s);
            int r = vfprintf(f, s, ap);
            va_end(ap);
            return r;
        }
        cap::log().put(s, strlen(s));
        return 0;
    }
}
// the number of complete lines; anything else but complete, locked lines is an error
inline size_t whole_lines(const std::string& m)
{
    size_t n = 0;
    for (size_t i = 0; i < m.size();)
    {
        auto take = [&](char c)
        {
            bool b = i < m.size() && m[i] == c;
            i += b;
            return b;
        };
        CHECK(take('L'), "output to the log without its lock");
        bool colour = take('+');
        while (take('w'))
            ;
        CHECK(!colour || take('-'), "colour of the log not reset");
        CHECK(take('n'), "line of the log not ended");
        CHECK(take('F'), "line of the log not flushed");
        CHECK(take('U'), "log left locked");
        ++n;
    }
    return n;
}
