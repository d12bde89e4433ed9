#include "solver.h"
#include <chrono>
#include <deque>
#include <z3.h>

SolverStats g_sstats;
unsigned g_query_timeout_ms = 60000;

static Z3_context ctx;
static Z3_sort bvsort(unsigned w) { return Z3_mk_bv_sort(ctx, w); }

static void init()
{
    if (ctx)
        return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx,
                         [](Z3_context c, Z3_error_code e)
                         {
                             fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
                             abort();
                         });
}

static Z3_ast toBool(E e);
static Z3_ast keep(Z3_ast a) { return a; }    // Z3_mk_context (non-rc) keeps everything alive

static Z3_ast num(u128 v, unsigned w)
{
    char buf[48];
    int p = 47;
    buf[p] = 0;
    if (v == 0)
        buf[--p] = '0';
    while (v)
    {
        buf[--p] = '0' + (int)(v % 10);
        v /= 10;
    }
    return Z3_mk_numeral(ctx, buf + p, bvsort(w));
}

static Z3_ast toBV(E e)
{
    if (e->zbv)
        return (Z3_ast)e->zbv;
    Z3_ast r;
    bool boolish = e->w == 1
        && ((e->op >= EQ && e->op <= SLE) || e->op == AND || e->op == OR || e->op == XOR
            || e->op == ITE);
    if (boolish)
    {
        r = Z3_mk_ite(ctx, toBool(e), num(1, 1), num(0, 1));
    }
    else
        switch (e->op)
        {
        case CONST:
            r = num(e->cv, e->w);
            break;
        case VAR:
            r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->lo), bvsort(8));
            break;
        case ITE:
            r = Z3_mk_ite(ctx, toBool(e->a), toBV(e->b), toBV(e->c));
            break;
        case CONCAT:
            r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b));
            break;
        case EXTRACT:
            r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, toBV(e->a));
            break;
        case ZEXT:
            r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a));
            break;
        case SEXT:
            r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a));
            break;
        default:
        {
            Z3_ast a = toBV(e->a), b = toBV(e->b);
            switch (e->op)
            {
            case ADD:
                r = Z3_mk_bvadd(ctx, a, b);
                break;
            case SUB:
                r = Z3_mk_bvsub(ctx, a, b);
                break;
            case MUL:
                r = Z3_mk_bvmul(ctx, a, b);
                break;
            case UDIV:
                r = Z3_mk_bvudiv(ctx, a, b);
                break;
            case SDIV:
                r = Z3_mk_bvsdiv(ctx, a, b);
                break;
            case UREM:
                r = Z3_mk_bvurem(ctx, a, b);
                break;
            case SREM:
                r = Z3_mk_bvsrem(ctx, a, b);
                break;
            case AND:
                r = Z3_mk_bvand(ctx, a, b);
                break;
            case OR:
                r = Z3_mk_bvor(ctx, a, b);
                break;
            case XOR:
                r = Z3_mk_bvxor(ctx, a, b);
                break;
            case SHL:
                r = Z3_mk_bvshl(ctx, a, b);
                break;
            case LSHR:
                r = Z3_mk_bvlshr(ctx, a, b);
                break;
            case ASHR:
                r = Z3_mk_bvashr(ctx, a, b);
                break;
            default:
                abort();
            }
        }
        }
    e->zbv = r;
    return keep(r);
}

static Z3_ast toBool(E e)
{
    if (e->zbool)
        return (Z3_ast)e->zbool;
    Z3_ast r;
    switch (e->op)
    {
    case CONST:
        r = e->cv ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        break;
    case EQ:
        r = e->a->w == 1 ? Z3_mk_iff(ctx, toBool(e->a), toBool(e->b))
                         : Z3_mk_eq(ctx, toBV(e->a), toBV(e->b));
        break;
    case ULT:
        r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b));
        break;
    case ULE:
        r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b));
        break;
    case SLT:
        r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b));
        break;
    case SLE:
        r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b));
        break;
    case AND:
    {
        Z3_ast x[2] = {toBool(e->a), toBool(e->b)};
        r = Z3_mk_and(ctx, 2, x);
        break;
    }
    case OR:
    {
        Z3_ast x[2] = {toBool(e->a), toBool(e->b)};
        r = Z3_mk_or(ctx, 2, x);
        break;
    }
    case XOR:
        if (isC(e->a) && e->a->cv)
            r = Z3_mk_not(ctx, toBool(e->b));
        else
            r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b));
        break;
    case ITE:
        r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->c));
        break;
    default:
        r = Z3_mk_eq(ctx, toBV(e), num(1, 1));
    }
    e->zbool = r;
    return keep(r);
}

struct CacheVal
{
    SatResult r;
    std::vector<std::pair<u32, uint8_t>> vals;
};
struct VecHash
{
    size_t operator()(const std::vector<E>& v) const
    {
        u64 h = 1469598103934665603ull;
        for (E e : v)
        {
            h ^= e->id;
            h *= 1099511628211ull;
        }
        return h;
    }
};
static std::unordered_map<std::vector<E>, CacheVal, VecHash> g_cache;
static std::deque<ModelP> g_recent;
void addRecentModel(const ModelP& m)
{
    g_recent.push_front(m);
    if (g_recent.size() > 24)
        g_recent.pop_back();
}

static Z3_solver getSolver()
{
    static Z3_solver s;
    if (!s)
    {
        // one non-incremental SAT-based solver, reset for each query
        Z3_tactic t = Z3_mk_tactic(ctx, "qfbv");
        Z3_tactic_inc_ref(ctx, t);
        s = Z3_mk_solver_from_tactic(ctx, t);
        Z3_solver_inc_ref(ctx, s);
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_query_timeout_ms);
        Z3_solver_set_params(ctx, s, p);
    }
    return s;
}

SatResult solve(const std::vector<E>& cs, E q, const ModelP& base, ModelP& out)
{
    init();
    g_sstats.queries++;
    if (isC(q))
    {
        if (!q->cv)
            return UNSAT;
        out = base;
        return SAT;
    }
    // slice
    static std::vector<char> mark;
    mark.assign(g_vars.size(), 0);
    for (u32 v : q->vars->v)
        mark[v] = 1;
    std::vector<char> used(cs.size(), 0);
    std::vector<E> key;
    bool changed = true;
    while (changed)
    {
        changed = false;
        for (size_t i = 0; i < cs.size(); ++i)
        {
            if (used[i])
                continue;
            bool hit = false;
            for (u32 v : cs[i]->vars->v)
                if (mark[v])
                {
                    hit = true;
                    break;
                }
            if (hit)
            {
                used[i] = 1;
                key.push_back(cs[i]);
                for (u32 v : cs[i]->vars->v)
                    if (!mark[v])
                    {
                        mark[v] = 1;
                        changed = true;
                    }
            }
        }
    }
    std::sort(key.begin(), key.end(), [](E a, E b) { return a->id < b->id; });
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(q);
    auto apply = [&](const std::vector<std::pair<u32, uint8_t>>& vals)
    {
        out = newModel(base.get());
        for (auto& [id, v] : vals)
        {
            if (out->v.size() <= id)
                out->v.resize(id + 1, 0);
            out->v[id] = v;
        }
    };
    auto it = g_cache.find(key);
    if (it != g_cache.end())
    {
        g_sstats.cache_hits++;
        if (it->second.r == SAT)
            apply(it->second.vals);
        return it->second.r;
    }
    // try recent models restricted to slice
    for (auto& m : g_recent)
    {
        bool ok = true;
        if (!evalExpr(q, *m))
            continue;
        for (size_t i = 0; i + 1 < key.size() && ok; ++i)
            ok = evalExpr(key[i], *m) != 0;
        if (ok)
        {
            g_sstats.model_hits++;
            std::vector<std::pair<u32, uint8_t>> vals;
            for (size_t v = 0; v < mark.size(); ++v)
                if (mark[v])
                    vals.push_back({(u32)v, m->get(v)});
            apply(vals);
            g_cache[key] = {SAT, vals};
            return SAT;
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    g_sstats.z3_calls++;
    Z3_solver s = getSolver();
    Z3_solver_reset(ctx, s);
    for (E e : key)
        Z3_solver_assert(ctx, s, toBool(e));
    Z3_lbool r = Z3_solver_check(ctx, s);
    SatResult res = UNKNOWN;
    if (r == Z3_L_TRUE)
    {
        res = SAT;
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        std::vector<std::pair<u32, uint8_t>> vals;
        for (size_t v = 0; v < mark.size(); ++v)
        {
            if (!mark[v])
                continue;
            Z3_ast val = nullptr;
            Z3_ast var = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)v), bvsort(8));
            unsigned x = 0;
            if (Z3_model_eval(ctx, m, var, true, &val))
                Z3_get_numeral_uint(ctx, val, &x);
            vals.push_back({(u32)v, (uint8_t)x});
        }
        Z3_model_dec_ref(ctx, m);
        apply(vals);
        // sanity: the model must satisfy the query
        for (E e : key)
            if (!evalExpr(e, *out))
            {
                fprintf(stderr, "solver model does not satisfy %s\n", exprStr(e, 8).c_str());
                abort();
            }
        addRecentModel(out);
        g_cache[key] = {SAT, vals};
    }
    else if (r == Z3_L_FALSE)
    {
        res = UNSAT;
        g_cache[key] = {UNSAT, {}};
    }
    else
        g_sstats.unknown++;
    static double slow = getenv("SYMEX_SLOW") ? atof(getenv("SYMEX_SLOW")) : 1e9;
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (dt > slow)
    {
        fprintf(stderr, "SLOW %.3f res=%d constraints=%zu\n", dt, (int)res, key.size());
        for (E e : key)
            fprintf(stderr, "   %.300s\n", exprStr(e, 12).c_str());
    }
    g_sstats.time
        += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return res;
}
