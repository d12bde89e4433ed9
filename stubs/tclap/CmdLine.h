// Model of the part of TCLAP that the commands use: "--name value", "--name=value", "-f value", switches, positional
// arguments.
#pragma once
#include <cstdint>
#include <list>
#include <stdexcept>
#include <string>
#include <vector>
namespace TCLAP
{
class ArgException : public std::exception
{
    std::string e_, id_;

public:
    ArgException(const std::string& e, const std::string& id = "undefined") : e_(e), id_(id) {}
    std::string error() const { return e_; }
    std::string argId() const { return id_; }
    const char* what() const noexcept override { return e_.c_str(); }
};
class Arg
{
protected:
    std::string flag_, name_, desc_;
    bool req_ = false, set_ = false;

public:
    Arg(const std::string& f, const std::string& n, const std::string& d, bool r) : flag_(f), name_(n), desc_(d), req_(r) {}
    Arg(const Arg&) = delete;
    virtual ~Arg() {}
    const std::string& getFlag() const { return flag_; }
    const std::string& getName() const { return name_; }
    std::string getDescription() const { return desc_; }
    bool isSet() const { return set_; }
    bool isRequired() const { return req_; }
    static char flagStartChar() { return '-'; }
    static std::string flagStartString() { return "-"; }
    static std::string nameStartString() { return "--"; }
    virtual bool positional() const { return false; }
    virtual bool needs_value() const { return true; }
    virtual void take(const std::string&) = 0;
    bool matches(const std::string& a) const
    {
        return !positional() && ((!flag_.empty() && a == "-" + flag_) || a == "--" + name_);
    }
};
class CmdLine
{
    std::list<Arg*> args_;

public:
    CmdLine(const std::string&, char = ' ', const std::string& = "none", bool = true) {}
    void add(Arg& a) { args_.push_back(&a); }
    void add(Arg* a) { args_.push_back(a); }
    std::list<Arg*>& getArgList() { return args_; }
    void parse(int argc, const char* const* argv)
    {
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            Arg* found = nullptr;
            std::string v;
            bool has = false;
            if (a.size() > 1 && a[0] == '-')
            {
                auto eq = a.find('=');
                if (a.size() > 2 && a[1] == '-' && eq != std::string::npos)
                {
                    v = a.substr(eq + 1);
                    a = a.substr(0, eq);
                    has = true;
                }
                for (auto x : args_)
                    if (x->matches(a))
                        found = x;
                if (!found)
                    throw ArgException("Couldn't find match for argument", a);
                if (found->needs_value() && !has)
                {
                    if (++i >= argc)
                        throw ArgException("Missing a value for this argument!", a);
                    v = argv[i];
                }
            }
            else
            {
                for (auto x : args_)
                    if (!found && x->positional() && !x->isSet())
                        found = x;
                if (!found)
                    throw ArgException("Couldn't find match for argument", a);
                v = a;
            }
            found->take(v);
        }
        for (auto x : args_)
            if (x->isRequired() && !x->isSet())
                throw ArgException("Required argument missing: " + x->getName());
    }
};
using CmdLineInterface = CmdLine;
inline void assign_(std::string& o, const std::string& v) { o = v; }
template <class T>
void assign_(T& o, const std::string& v)
{
    bool neg = !v.empty() && v[0] == '-';
    long r = 0;
    if (v.size() == neg)
        throw ArgException("Couldn't read argument value from string", v);
    for (size_t i = neg; i < v.size(); ++i)
    {
        if (v[i] < '0' || v[i] > '9')
            throw ArgException("Couldn't read argument value from string", v);
        r = r * 10 + (v[i] - '0');
    }
    o = (T)(neg ? -r : r);
}
template <class T>
class ValueArg : public Arg
{
protected:
    T value_, default_;

public:
    ValueArg(const std::string& f, const std::string& n, const std::string& d, bool r, T v, const std::string&, CmdLine& c)
        : Arg(f, n, d, r), value_(v), default_(v)
    {
        c.add(*this);
    }
    ValueArg(const std::string& f, const std::string& n, const std::string& d, bool r, T v, const std::string&)
        : Arg(f, n, d, r), value_(v), default_(v)
    {
    }
    T& getValue() { return value_; }
    const T& getValue() const { return value_; }
    operator const T&() const { return value_; }
    void take(const std::string& v) override
    {
        if (set_)
            throw ArgException("Argument already set!", name_);
        assign_(value_, v);
        set_ = true;
    }
};
template <class T>
class UnlabeledValueArg : public ValueArg<T>
{
public:
    UnlabeledValueArg(const std::string& n, const std::string& d, bool r, T v, const std::string& t, CmdLine& c)
        : ValueArg<T>("", n, d, r, v, t, c)
    {
    }
    bool positional() const override { return true; }
};
class SwitchArg : public Arg
{
    bool value_;

public:
    SwitchArg(const std::string& f, const std::string& n, const std::string& d, CmdLine& c, bool v = false)
        : Arg(f, n, d, false), value_(v)
    {
        c.add(*this);
    }
    bool needs_value() const override { return false; }
    bool& getValue() { return value_; }
    bool getValue() const { return value_; }
    void take(const std::string&) override
    {
        if (set_)
            throw ArgException("Argument already set!", name_);
        set_ = true;
        value_ = !value_;
    }
};
template <class T>
class MultiArg : public Arg
{
    std::vector<T> v_;

public:
    MultiArg(const std::string& f, const std::string& n, const std::string& d, bool r, const std::string&, CmdLine& c)
        : Arg(f, n, d, r)
    {
        c.add(*this);
    }
    const std::vector<T>& getValue() const { return v_; }
    void take(const std::string& v) override
    {
        T t{};
        assign_(t, v);
        v_.push_back(t);
        set_ = true;
    }
};
}    // namespace TCLAP
