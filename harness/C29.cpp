// Per-thread slots: arbitrary short histories of creating and destroying owners and of fetching objects on several
// threads, against a plain table.
#include "sym.h"
#include "thread_local.h"
#include <map>
#include <memory>
#include <stdexcept>
#include <vector>
using namespace securefs;
static const int INST = 3, THR = 3;    // at most; the numbers used are parameters
// bookkeeping of every object made
struct Rec
{
    int owner, thread;
    bool alive;
};
static std::vector<Rec>* g_recs;
static int g_thread;
template <int Kind>
struct Obj
{
    int rec;
    char pad[Kind * 8 + 1];
    Obj(int owner)
    {
        rec = (int)g_recs->size();
        g_recs->push_back(Rec{owner, g_thread, true});
    }
    ~Obj()
    {
        CHECK((*g_recs)[rec].alive, "object destroyed twice");
        (*g_recs)[rec].alive = false;
    }
};
struct Owner
{
    int id;
    std::unique_ptr<ThreadLocal<Obj<0>>> a;
    std::unique_ptr<ThreadLocal<Obj<1>>> b;
    std::map<int, int> expect;    // thread -> object record
    bool fail = false;
};
struct Job
{
    Owner* o;
    int rec;
    bool threw;
};
static void fetch(void* p)
{
    Job* j = (Job*)p;
    try
    {
        j->rec = j->o->a ? j->o->a->get().rec : j->o->b->get().rec;
    }
    catch (const std::runtime_error&)
    {
        j->threw = true;
    }
}
static void do_get(Owner& o, int t)
{
    Job j{&o, -1, false};
    g_thread = t;
    sym_on_thread(t, fetch, &j);
    g_thread = 0;
    auto it = o.expect.find(t);
    if (j.threw)
    {
        CHECK(o.fail && it == o.expect.end(), "an existing object was not returned");
        sym_reach("threw");
        return;
    }
    CHECK(j.rec >= 0 && j.rec < (int)g_recs->size(), "not an object of this kind");
    const Rec& r = (*g_recs)[j.rec];
    CHECK(r.alive, "destroyed object returned");
    CHECK(r.owner == o.id, "object of another owner returned");
    CHECK(r.thread == t, "object of another thread returned");
    CHECK(it == o.expect.end() || it->second == j.rec, "a second object was made for the same thread");
    CHECK(it != o.expect.end() || !o.fail, "object made although the initializer failed");
    o.expect[t] = j.rec;
    sym_reach("got");
}
extern "C" void h_history()
{
    std::vector<Rec> recs;
    g_recs = &recs;
    std::unique_ptr<Owner> inst[INST];
    int ids = 0, threads = (int)sym_param("threads", 2);
    unsigned n = (unsigned)sym_param("ops", 5);
    for (unsigned step = 0; step < n; ++step)
    {
        unsigned what = (unsigned)sym_choice(0, 3, "what");
        if (what == 3)
        {
            int t = (int)sym_choice(1, threads - 1, "thread");
            bool any = false;
            for (auto& r : recs)
                any |= r.thread == t && r.alive;
            sym_assume(any);
            sym_thread_end(t);
            for (auto& i : inst)
                if (i)
                    i->expect.erase(t);
            for (auto& r : recs)
                CHECK(r.thread != t || !r.alive, "object outlives its thread");
            sym_reach("end");
            continue;
        }
        auto& i = inst[sym_choice(0, sym_param("inst", 2) - 1, "instance")];
        sym_assume(what == 0 || i);
        if (what == 0)
        {
            // create (or replace)
            i.reset();
            i = std::make_unique<Owner>();
            i->id = ++ids;
            Owner* o = i.get();
            auto check = [o]()
            {
                if (o->fail)
                    throw std::runtime_error("initializer");
            };
            if (sym_fork_flag("kind"))
                i->a = std::make_unique<ThreadLocal<Obj<0>>>([o, check]() { check(); return std::make_unique<Obj<0>>(o->id); });
            else
                i->b = std::make_unique<ThreadLocal<Obj<1>>>([o, check]() { check(); return std::make_unique<Obj<1>>(o->id); });
            sym_reach("create");
        }
        else if (what == 1)
        {
            i.reset();
            sym_reach("destroy");
        }
        else
        {
            i->fail = sym_param("fail", 1) && sym_fork_flag("fail");
            do_get(*i, (int)sym_choice(0, threads - 1, "thread"));
        }
    }
    for (auto& i : inst)
        i.reset();
    for (int t = 1; t < THR; ++t)
        sym_thread_end(t);
    for (auto& r : recs)
        CHECK(r.thread == 0 || !r.alive, "object never destroyed");
    sym_reach("done");
    g_recs = new std::vector<Rec>(recs);    // the main thread's objects end after this function
}
// all slots taken: the next owner is refused, and a freed slot can be used again
extern "C" void h_full()
{
    std::vector<Rec> recs;
    g_recs = &recs;
    std::vector<std::unique_ptr<ThreadLocal<Obj<0>>>> v;
    for (size_t i = 0; i < ThreadLocalBase::kMaxIndex; ++i)
        v.push_back(std::make_unique<ThreadLocal<Obj<0>>>([i]() { return std::make_unique<Obj<0>>((int)i); }));
    bool refused = false;
    try
    {
        ThreadLocal<Obj<0>> one([]() { return std::make_unique<Obj<0>>(-1); });
    }
    catch (const std::exception&)
    {
        refused = true;
    }
    CHECK(refused, "more owners than slots");
    size_t k = (size_t)sym_choice(0, ThreadLocalBase::kMaxIndex - 1, "slot");
    CHECK(recs[v[k]->get().rec].owner == (int)k, "object of another owner returned");
    v[k].reset();
    v[k] = std::make_unique<ThreadLocal<Obj<0>>>([]() { return std::make_unique<Obj<0>>(1000); });
    CHECK(recs[v[k]->get().rec].owner == 1000, "object of the previous owner returned");
    size_t m = (k + 1) % v.size();
    CHECK(recs[v[m]->get().rec].owner == (int)m, "object of another owner returned");
    g_recs = new std::vector<Rec>(recs);
    sym_reach("full");
}
