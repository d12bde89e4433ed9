from plant import plant
BASE = "$BASE"
plant("b19-log-lock-kept", "C40",
 [("logger.cpp", '''    prelog(level, funcsig, lineno);
    DEFER(postlog(level));
    try
    {
        output_fun(m_fp);
    }
    catch (const std::exception& e)
    {
        absl::FPrintF(m_fp, "Logging itself throws exception: %s", e.what());
    }
''', '''    prelog(level, funcsig, lineno);
    try
    {
        output_fun(m_fp);
    }
    catch (const std::exception& e)
    {
        absl::FPrintF(m_fp, "Logging itself throws exception: %s\\n", e.what());
        fflush(m_fp);
        return;
    }
    postlog(level);
''')],
 r'''
#include "logger.h"
#include <cstdio>
#include <cstring>
#include <stdexcept>
#include <string>
#include <thread>
using namespace securefs;
int main(int, char** argv)
{
    std::string path = std::string(argv[0]) + ".log";
    auto l = Logger::create_file_logger(path);
    l->log_v2(LoggingLevel::kLogError, "f", 1, absl::FunctionRef<void(std::FILE*)>([](std::FILE*) { throw std::runtime_error("x"); }));
    int locked = 0;
    std::thread t([&] {
        // another thread must be able to log
        locked = ftrylockfile(l->m_fp) != 0;
        if (!locked)
            funlockfile(l->m_fp);
    });
    t.join();
    remove(path.c_str());
    puts(locked ? "the log stays locked" : "ok");
    return locked;
}
''', BASE, "a message whose composition throws, then logging from another thread", "the lock of the log file is never released, so the other threads hang when they log")
