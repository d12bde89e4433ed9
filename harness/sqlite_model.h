// In-memory SQLite for the tables of long names: the statements the code issues are parsed and interpreted; each database
// belongs to the inode of its file, transactions are snapshots. Include after os.h.
#pragma once
#include "tree.h"
#include <sqlite3.h>
#include <memory>
extern "C" void unsupported_sql();    // nowhere defined: reaching it makes the check report that it has no answer
namespace msql
{
struct Rows
{
    bool table = false;
    std::vector<std::pair<std::string, std::string>> v;
};
// by inode
inline std::vector<std::pair<mos::InodeP, std::shared_ptr<Rows>>>& dbs()
{
    static std::vector<std::pair<mos::InodeP, std::shared_ptr<Rows>>> d;
    return d;
}
inline std::shared_ptr<Rows> rows_of(const mos::InodeP& n)
{
    for (auto& x : dbs())
        if (x.first == n)
            return x.second;
    dbs().push_back({n, std::make_shared<Rows>()});
    return dbs().back().second;
}
struct Control
{
    long fail_after = -1;    // statements that change something and still succeed; -1: never fail
    int open = 0, statements = 0;
};
inline Control& ctl()
{
    static Control c;
    return c;
}
inline bool fail()
{
    auto& c = ctl();
    if (c.fail_after == 0)
        return true;
    if (c.fail_after > 0)
        --c.fail_after;
    return false;
}
struct Db
{
    mos::InodeP file;
    std::shared_ptr<Rows> rows;
    bool readonly = false, changed = false;
};
struct Conn
{
    std::vector<std::pair<std::string, Db>> dbs;    // schema name
    bool tx = false;
    std::vector<Rows> saved;
    Db* find(const std::string& schema)
    {
        for (auto& d : dbs)
            if (schema.empty() || d.first == schema)
                return &d.second;
        return nullptr;
    }
};
struct Stmt
{
    Conn* c;
    std::vector<std::string> tok;
    std::vector<std::pair<const char*, size_t>> bound;
    bool ran = false;
    std::vector<std::string> result;
    size_t at = 0;
    std::string row;
};
inline std::vector<std::string> tokens(const char* s, size_t n)
{
    std::vector<std::string> r;
    for (size_t i = 0; i < n && s[i];)
    {
        unsigned char c = s[i];
        auto word = [](unsigned char c)
        { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= '0' && c <= '9'); };
        if (word(c))
        {
            std::string w;
            for (; i < n && word(s[i]); ++i)
                w.push_back(s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i]);
            r.push_back(w);
        }
        else
        {
            if (c > ' ')
                r.push_back(std::string(1, c));
            ++i;
        }
    }
    return r;
}
// at: position in the tokens; reads [schema .] table
inline Db* target(Conn* c, const std::vector<std::string>& t, size_t& at)
{
    std::string schema, name;
    if (at < t.size())
        name = t[at++];
    if (at + 1 < t.size() && t[at] == ".")
    {
        schema = name;
        name = t[at + 1];
        at += 2;
    }
    if (name != "encrypted_mappings")
        unsupported_sql();
    return c->find(schema);
}
inline bool has(const std::vector<std::string>& t, size_t at, std::initializer_list<const char*> w)
{
    for (auto x : w)
    {
        if (at >= t.size() || t[at] != x)
            return false;
        ++at;
    }
    return true;
}
// which bound parameter is the n-th question mark
inline std::string param(Stmt* s, unsigned i)
{
    if (i >= s->bound.size() || !s->bound[i].first)
        return std::string();
    return std::string(s->bound[i].first, s->bound[i].second);
}
inline size_t find(Rows& r, const std::string& k)
{
    size_t i = 0;
    while (i < r.v.size() && r.v[i].first != k)
        ++i;
    return i;
}
inline int begin(Conn* c)
{
    if (c->tx)
        return SQLITE_ERROR;
    c->tx = true;
    c->saved.clear();
    for (auto& d : c->dbs)
        c->saved.push_back(*d.second.rows);
    return SQLITE_OK;
}
inline int finish(Conn* c, bool keep)
{
    if (!c->tx)
        return SQLITE_ERROR;
    c->tx = false;
    for (size_t i = 0; i < c->saved.size(); ++i)
        if (!keep)
            *c->dbs[i].second.rows = c->saved[i];
    return SQLITE_OK;
}
inline int attach(Conn* c, const std::string& path, int flags, const std::string& schema)
{
    int err;
    mos::InodeP n = mos::lookup(path, err);
    if (!n && err == ENOENT && (flags & SQLITE_OPEN_CREATE))
    {
        std::string last;
        auto d = mos::parent_of(path, last, err);
        if (!d)
            return SQLITE_CANTOPEN;
        n = mos::add(d, last, S_IFREG | 0644);
    }
    if (!n || n->dir())
        return SQLITE_CANTOPEN;
    Db d;
    d.file = n;
    d.rows = rows_of(n);
    d.readonly = !(flags & SQLITE_OPEN_READWRITE);
    c->dbs.push_back({schema, d});
    return SQLITE_OK;
}
// runs a statement up to its first row or its end
inline int run(Stmt* s)
{
    auto& t = s->tok;
    Conn* c = s->c;
    ++ctl().statements;
    if (t.empty())
        return SQLITE_DONE;
    auto write = [&](Db* d)
    { return !d ? SQLITE_ERROR : d->readonly ? SQLITE_READONLY : fail() ? SQLITE_FULL : SQLITE_OK; };
    if (t[0] == "begin")
        return begin(c) == SQLITE_OK ? SQLITE_DONE : SQLITE_ERROR;
    if (t[0] == "commit" || t[0] == "end")
        return finish(c, true) == SQLITE_OK ? SQLITE_DONE : SQLITE_ERROR;
    if (t[0] == "rollback")
        return finish(c, false) == SQLITE_OK ? SQLITE_DONE : SQLITE_ERROR;
    if (has(t, 0, {"create", "table", "if", "not", "exists"}))
    {
        size_t at = 5;
        Db* d = target(c, t, at);
        if (d && d->rows->table)
            return SQLITE_DONE;
        int rc = write(d);
        if (rc)
            return rc;
        d->rows->table = true;
        return SQLITE_DONE;
    }
    if (has(t, 0, {"attach", "database", "?", "as"}) && t.size() >= 5)
    {
        if (c->tx)
            return SQLITE_ERROR;
        return attach(c, param(s, 0), SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE, t[4]) == SQLITE_OK ? SQLITE_DONE : SQLITE_CANTOPEN;
    }
    bool ignore = has(t, 0, {"insert", "or", "ignore", "into"}), replace = has(t, 0, {"insert", "or", "replace", "into"});
    if (ignore || replace || has(t, 0, {"insert", "into"}))
    {
        size_t at = ignore || replace ? 4 : 2;
        Db* d = target(c, t, at);
        bool keyfirst = has(t, at, {"(", "keyed_hash", ",", "encrypted_name", ")"});
        if (!keyfirst && !has(t, at, {"(", "encrypted_name", ",", "keyed_hash", ")"}))
            unsupported_sql();
        if (!has(t, at + 5, {"values", "(", "?", ",", "?", ")"}))
            unsupported_sql();
        int rc = write(d);
        if (rc)
            return rc;
        if (!d->rows->table)
            return SQLITE_ERROR;
        std::string k = param(s, keyfirst ? 0 : 1), v = param(s, keyfirst ? 1 : 0);
        size_t i = find(*d->rows, k);
        if (i == d->rows->v.size())
            d->rows->v.push_back({k, v});
        else if (replace)
            d->rows->v[i].second = v;
        else if (!ignore)
            return SQLITE_CONSTRAINT;
        return SQLITE_DONE;
    }
    if (has(t, 0, {"delete", "from"}))
    {
        size_t at = 2;
        Db* d = target(c, t, at);
        if (!has(t, at, {"where", "keyed_hash", "=", "?"}))
            unsupported_sql();
        int rc = write(d);
        if (rc)
            return rc;
        if (!d->rows->table)
            return SQLITE_ERROR;
        size_t i = find(*d->rows, param(s, 0));
        if (i < d->rows->v.size())
            d->rows->v.erase(d->rows->v.begin() + i);
        return SQLITE_DONE;
    }
    if (t[0] == "select" && t.size() > 3 && t[2] == "from")
    {
        bool key = t[1] == "keyed_hash";
        if (!key && t[1] != "encrypted_name")
            unsupported_sql();
        size_t at = 3;
        Db* d = target(c, t, at);
        if (!d || !d->rows->table)
            return SQLITE_ERROR;
        bool where = has(t, at, {"where", "keyed_hash", "=", "?"});
        if (!where && at < t.size() && t[at] != ";")
            unsupported_sql();
        for (auto& r : d->rows->v)
            if (!where || r.first == param(s, 0))
                s->result.push_back(key ? r.first : r.second);
        return SQLITE_ROW;
    }
    unsupported_sql();
    return SQLITE_ERROR;
}
}    // namespace msql
extern "C"
{
    int sqlite3_open_v2(const char* name, sqlite3** out, int flags, const char*)
    {
        sched::Quiet q_;
        auto c = new msql::Conn;
        ++msql::ctl().open;
        *out = (sqlite3*)c;    // as in SQLite, also in case of failure
        return msql::attach(c, name, flags, "main");
    }
    int sqlite3_close(sqlite3* db)
    {
        sched::Quiet q_;
        if (!db)
            return SQLITE_OK;
        auto c = (msql::Conn*)db;
        if (c->tx)
            msql::finish(c, false);
        --msql::ctl().open;
        delete c;
        return SQLITE_OK;
    }
    int sqlite3_close_v2(sqlite3* db) { sched::Quiet q_; return sqlite3_close(db); }
    int sqlite3_busy_timeout(sqlite3*, int) { sched::Quiet q_; return SQLITE_OK; }
    const char* sqlite3_errmsg(sqlite3*) { sched::Quiet q_; return "sqlite"; }
    const char* sqlite3_errstr(int) { sched::Quiet q_; return "sqlite"; }
    int sqlite3_prepare_v2(sqlite3* db, const char* sql, int n, sqlite3_stmt** out, const char** tail)
    {
        sched::Quiet q_;
        auto s = new msql::Stmt;
        s->c = (msql::Conn*)db;
        s->tok = msql::tokens(sql, n < 0 ? strlen(sql) : (size_t)n);
        *out = (sqlite3_stmt*)s;
        if (tail)
            *tail = sql + (n < 0 ? strlen(sql) : (size_t)n);
        return SQLITE_OK;
    }
    int sqlite3_finalize(sqlite3_stmt* p)
    {
        sched::Quiet q_;
        delete (msql::Stmt*)p;
        return SQLITE_OK;
    }
    int sqlite3_reset(sqlite3_stmt* p)
    {
        sched::Quiet q_;
        auto s = (msql::Stmt*)p;
        s->ran = false;
        s->result.clear();
        s->at = 0;
        return SQLITE_OK;
    }
    int sqlite3_bind_text64(sqlite3_stmt* p, int i, const char* v, sqlite3_uint64 n, void (*)(void*), unsigned char)
    {
        sched::Quiet q_;
        auto s = (msql::Stmt*)p;
        if (i < 1)
            return SQLITE_RANGE;
        if ((int)s->bound.size() < i)
            s->bound.resize(i, {nullptr, 0});
        s->bound[i - 1] = {v, (size_t)n};
        return SQLITE_OK;
    }
    int sqlite3_step(sqlite3_stmt* p)
    {
        sched::Quiet q_;
        auto s = (msql::Stmt*)p;
        if (!s->ran)
        {
            s->ran = true;
            int rc = msql::run(s);
            if (rc != SQLITE_ROW)
                return rc;
        }
        if (s->at >= s->result.size())
            return SQLITE_DONE;
        s->row = s->result[s->at++];
        return SQLITE_ROW;
    }
    const unsigned char* sqlite3_column_text(sqlite3_stmt* p, int) { sched::Quiet q_; return (const unsigned char*)((msql::Stmt*)p)->row.c_str(); }
    int sqlite3_column_bytes(sqlite3_stmt* p, int) { sched::Quiet q_; return (int)((msql::Stmt*)p)->row.size(); }
    sqlite3_int64 sqlite3_changes64(sqlite3*) { sched::Quiet q_; return 0; }
    int sqlite3_exec(sqlite3* db, const char* sql, int (*)(void*, int, char**, char**), void*, char**)
    {
        sched::Quiet q_;
        auto t = msql::tokens(sql, strlen(sql));
        for (size_t i = 0; i < t.size();)
        {
            msql::Stmt s;
            s.c = (msql::Conn*)db;
            while (i < t.size() && t[i] != ";")
                s.tok.push_back(t[i++]);
            ++i;
            int rc = msql::run(&s);
            if (rc != SQLITE_DONE && rc != SQLITE_ROW)
                return rc;
        }
        return SQLITE_OK;
    }
}
