#include "expr.h"

std::vector<VarInfo> g_vars;
static std::unordered_map<ExprKey, Expr*, ExprKeyHash> g_tab;
static std::vector<E> g_varExprs;
static VarSetP g_empty = std::make_shared<VarSet>();
static u64 g_stamp = 1;

size_t exprCount() { return g_tab.size(); }

static VarSetP uni(const VarSetP& a, const VarSetP& b)
{
    if (a == b || b->v.empty())
        return a;
    if (a->v.empty())
        return b;
    if (std::includes(a->v.begin(), a->v.end(), b->v.begin(), b->v.end()))
        return a;
    if (std::includes(b->v.begin(), b->v.end(), a->v.begin(), a->v.end()))
        return b;
    auto r = std::make_shared<VarSet>();
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r->v));
    return r;
}

static void ranges(Expr* e)
{
    u128 full = maskw(e->w);
    e->umin = 0;
    e->umax = full;
    E a = e->a, b = e->b, c = e->c;
    if (e->w > 64 && e->op != CONST && e->op != ZEXT)
        return;
    switch (e->op)
    {
    case CONST:
        e->umin = e->umax = e->cv;
        break;
    case ZEXT:
        e->umin = a->umin;
        e->umax = a->umax;
        break;
    case ADD:
        if (a->umax + b->umax <= full)
        {
            e->umin = a->umin + b->umin;
            e->umax = a->umax + b->umax;
        }
        else if (isC(a) && a->umin + b->umin > full)    // always wraps
        {
            e->umin = (a->umin + b->umin) & full;
            e->umax = (a->umax + b->umax) & full;
            if (e->umin > e->umax)
            {
                e->umin = 0;
                e->umax = full;
            }
        }
        break;
    case SUB:
        if (a->umin >= b->umax)
        {
            e->umin = a->umin - b->umax;
            e->umax = a->umax - b->umin;
        }
        break;
    case MUL:
        if (e->w <= 64 && a->umax * b->umax <= full)
        {
            e->umin = a->umin * b->umin;
            e->umax = a->umax * b->umax;
        }
        break;
    case UDIV:
        if (b->umin > 0)
        {
            e->umin = a->umin / b->umax;
            e->umax = a->umax / b->umin;
        }
        break;
    case UREM:
        if (b->umin > 0)
            e->umax = std::min(a->umax, b->umax - 1);
        break;
    case AND:
        e->umax = std::min(a->umax, b->umax);
        break;
    case OR:
    case XOR:
    {
        u128 m = a->umax | b->umax;
        u128 p = 1;
        while (p <= m)
            p <<= 1;
        e->umax = std::min(full, p - 1);
        if (e->op == OR)
            e->umin = std::max(a->umin, b->umin);
        break;
    }
    case LSHR:
        e->umax = a->umax;
        break;
    case ITE:
        e->umin = std::min(b->umin, c->umin);
        e->umax = std::max(b->umax, c->umax);
        break;
    case CONCAT:
        e->umin = (a->umin << b->w) | b->umin;
        e->umax = (a->umax << b->w) | b->umax;
        break;
    case EXTRACT:
        if (e->lo == 0 && a->umax <= full)
        {
            e->umin = a->umin;
            e->umax = a->umax;
        }
        else if (e->lo + e->w == a->w)
        {
            e->umin = a->umin >> e->lo;
            e->umax = a->umax >> e->lo;
        }
        break;
    default:
        break;
    }
}

static E intern(Op op, unsigned w, u32 lo, E a, E b, E c, u128 cv)
{
    if (w == 0 || w > 128)
    {
        fprintf(stderr, "bad expr width %u op %d\n", w, op);
        abort();
    }
    ExprKey k{op, (uint16_t)w, lo, a, b, c, cv};
    auto it = g_tab.find(k);
    if (it != g_tab.end())
        return it->second;
    Expr* e = new Expr();
    e->op = op;
    e->w = w;
    e->lo = lo;
    e->a = a;
    e->b = b;
    e->c = c;
    e->cv = cv;
    e->id = g_tab.size();
    e->size = 1 + (a ? a->size : 0) + (b ? b->size : 0) + (c ? c->size : 0);
    if (e->size > 1000000000u)
        e->size = 1000000000u;
    if (op == VAR)
    {
        auto s = std::make_shared<VarSet>();
        s->v.push_back(lo);
        e->vars = s;
    }
    else
    {
        e->vars = g_empty;
        if (a)
            e->vars = a->vars;
        if (b)
            e->vars = uni(e->vars, b->vars);
        if (c)
            e->vars = uni(e->vars, c->vars);
    }
    ranges(e);
    g_tab.emplace(k, e);
    return e;
}

E mkConst(u128 v, unsigned w)
{
    static E cache8[256];
    static E cache1[2];
    v &= maskw(w);
    if (w == 8)
    {
        E& e = cache8[(unsigned)v];
        if (!e)
            e = intern(CONST, 8, 0, nullptr, nullptr, nullptr, v);
        return e;
    }
    if (w == 1)
    {
        E& e = cache1[(unsigned)v];
        if (!e)
            e = intern(CONST, 1, 0, nullptr, nullptr, nullptr, v);
        return e;
    }
    return intern(CONST, w, 0, nullptr, nullptr, nullptr, v);
}

// The n-th input (or uninitialised) byte of a path.  Different paths share the variables: only those
// of one state need to be distinct, and so equal expressions and queries of different paths coincide.
E mkVarAt(u64 n, bool uninit)
{
    static std::vector<E> pool[2];
    std::vector<E>& p = pool[uninit];
    while (p.size() <= n)
        p.push_back(mkVar((uninit ? "uninit" : "in") + std::to_string(p.size()), uninit));
    return p[n];
}

E mkVar(const std::string& name, bool uninit)
{
    u32 id = g_vars.size();
    g_vars.push_back({name, uninit});
    E e = intern(VAR, 8, id, nullptr, nullptr, nullptr, 0);
    g_varExprs.push_back(e);
    return e;
}

u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok)
{
    ok = true;
    u128 m = maskw(w);
    switch (op)
    {
    case ADD:
        return (a + b) & m;
    case SUB:
        return (a - b) & m;
    case MUL:
        return (a * b) & m;
    case UDIV:
        if (!b)
            return m;
        return a / b;
    case UREM:
        if (!b)
            return a;
        return a % b;
    case SDIV:
        if (!b)
            return sx(a, w) < 0 ? 1 : m;
        if (sx(b, w) == -1)
            return (0 - a) & m;
        return (u128)(sx(a, w) / sx(b, w)) & m;
    case SREM:
        if (!b)
            return a;
        if (sx(b, w) == -1)
            return 0;
        return (u128)(sx(a, w) % sx(b, w)) & m;
    case AND:
        return a & b;
    case OR:
        return a | b;
    case XOR:
        return a ^ b;
    case SHL:
        return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR:
        return b >= w ? 0 : a >> (unsigned)b;
    case ASHR:
        return (u128)(sx(a, w) >> (b >= w ? (w - 1) : (unsigned)b)) & m;
    case EQ:
        return a == b;
    case ULT:
        return a < b;
    case ULE:
        return a <= b;
    case SLT:
        return sx(a, w) < sx(b, w);
    case SLE:
        return sx(a, w) <= sx(b, w);
    default:
        ok = false;
        return 0;
    }
}

static unsigned bitlen(u128 v)
{
    unsigned n = 0;
    while (v)
    {
        n++;
        v >>= 1;
    }
    return n;
}

E mkZExt(E x, unsigned w)
{
    if (x->w == w)
        return x;
    if (isC(x) && w <= 128)
        return mkConst(x->cv, w);
    if (x->op == ZEXT)
        return mkZExt(x->a, w);
    return intern(ZEXT, w, 0, x, nullptr, nullptr, 0);
}

E mkSExt(E x, unsigned w)
{
    if (x->w == w)
        return x;
    if (isC(x) && w <= 128)
        return mkConst((u128)sx(x->cv, x->w), w);
    if (x->op == ZEXT)
        return mkZExt(x->a, w);
    if (x->op == SEXT)
        return mkSExt(x->a, w);
    if (x->umax < ((u128)1 << (x->w - 1)))
        return mkZExt(x, w);
    if (x->op == ITE && isC(x->b) && isC(x->c))
        return mkIte(x->a, mkSExt(x->b, w), mkSExt(x->c, w));
    return intern(SEXT, w, 0, x, nullptr, nullptr, 0);
}

E mkExtract(E x, unsigned lo, unsigned w)
{
    if (lo == 0 && w == x->w)
        return x;
    switch (x->op)
    {
    case CONST:
        return mkConst(x->cv >> lo, w);
    case EXTRACT:
        return mkExtract(x->a, x->lo + lo, w);
    case CONCAT:
    {
        unsigned bw = x->b->w;
        if (lo + w <= bw)
            return mkExtract(x->b, lo, w);
        if (lo >= bw)
            return mkExtract(x->a, lo - bw, w);
        return mkConcat(mkExtract(x->a, 0, lo + w - bw), mkExtract(x->b, lo, bw - lo));
    }
    case ZEXT:
    {
        unsigned aw = x->a->w;
        if (lo >= aw)
            return w <= 128 ? mkConst(0, w) : mkZExt(mkConst(0, 128), w);
        if (lo + w <= aw)
            return mkExtract(x->a, lo, w);
        return mkZExt(mkExtract(x->a, lo, aw - lo), w);
    }
    case SEXT:
    {
        unsigned aw = x->a->w;
        if (lo + w <= aw)
            return mkExtract(x->a, lo, w);
        if (lo < aw)
            return mkSExt(mkExtract(x->a, lo, aw - lo), w);
        break;
    }
    case AND:
    case OR:
    case XOR:
        if (isC(x->a) || isC(x->b) || w == 8)
            return mkBin(x->op, mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
        break;
    case ITE:
        if ((isC(x->b) || isC(x->c)) || w <= 8)
            return mkIte(x->a, mkExtract(x->b, lo, w), mkExtract(x->c, lo, w));
        break;
    case ADD:
    case SUB:
    case MUL:
        if (lo == 0 && w <= 64)
            return mkBin(x->op, mkExtract(x->a, 0, w), mkExtract(x->b, 0, w));
        break;
    default:
        break;
    }
    if (lo + w <= 128 && x->umax < ((u128)1 << lo))
        return mkConst(0, w);
    return intern(EXTRACT, w, lo, x, nullptr, nullptr, 0);
}

E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo) && w <= 128)
        return mkConst((hi->cv << lo->w) | lo->cv, w);
    if (isC(hi) && hi->cv == 0)
        return mkZExt(lo, w);
    if (hi->op == ZEXT)
        return mkZExt(mkConcat(hi->a, lo), w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w)
        return mkExtract(hi->a, lo->lo, w);
    if (hi->op == EXTRACT && lo == hi->a && 0)
        return nullptr;
    // x[hi] ++ x where lo is the whole low part
    if (hi->op == EXTRACT && lo->op == CONCAT && lo->a->op == EXTRACT && lo->a->a == hi->a
        && hi->lo == lo->a->lo + lo->a->w)
        return mkConcat(mkExtract(hi->a, lo->a->lo, hi->w + lo->a->w), lo->b);
    // (a ++ x[i..j]) ++ x[..i-1]
    if (hi->op == CONCAT && lo->op == EXTRACT && hi->b->op == EXTRACT && hi->b->a == lo->a
        && hi->b->lo == lo->lo + lo->w)
        return mkConcat(hi->a, mkExtract(lo->a, lo->lo, hi->b->w + lo->w));
    if (hi->op == CONCAT && isC(hi->b) && isC(lo) && hi->b->w + lo->w <= 128)
        return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (hi->op == ITE && lo->op == ITE && hi->a == lo->a && isC(hi->b) && isC(hi->c) && isC(lo->b)
        && isC(lo->c))
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (hi->op == ITE && isC(lo) && isC(hi->b) && isC(hi->c))
        return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
    if (lo->op == ITE && isC(hi) && isC(lo->b) && isC(lo->c))
        return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
    return intern(CONCAT, w, 0, hi, lo, nullptr, 0);
}

E mkNot(E x)
{
    if (x->w > 128)
        abort();
    return mkBin(XOR, mkConst(~(u128)0, x->w), x);
}

E mkIte(E c, E a, E b)
{
    if (isC(c))
        return c->cv ? a : b;
    if (a == b)
        return a;
    if (c->op == XOR && isC(c->a))    // not
        return mkIte(c->b, b, a);
    if (a->w == 1)
    {
        if (isC(a) && isC(b))
            return a->cv ? c : mkNot(c);
        if (isC(a))
            return a->cv ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
        if (isC(b))
            return b->cv ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
    }
    if (a->op == ITE && a->a == c)
        a = a->b;
    if (b->op == ITE && b->a == c)
        b = b->c;
    if (a == b)
        return a;
    return intern(ITE, a->w, 0, c, a, b, 0);
}

static bool comm(Op op)
{
    return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
}

E mkBin(Op op, E a, E b)
{
    unsigned w = a->w;
    if (a->w != b->w)
    {
        fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w);
        abort();
    }
    bool cmp = op >= EQ && op <= SLE;
    unsigned rw = cmp ? 1 : w;
    if (isC(a) && isC(b))
    {
        bool ok;
        u128 r = foldBin(op, a->cv, b->cv, w, ok);
        if (ok)
            return mkConst(r, rw);
    }
    if (comm(op))
    {
        // constants first, then by id
        if (isC(b) || (!isC(a) && a->id > b->id))
            std::swap(a, b);
    }
    u128 m = w <= 128 ? maskw(w) : 0;
    switch (op)
    {
    case ADD:
        if (isC(a) && a->cv == 0)
            return b;
        if (isC(a) && b->op == ADD && isC(b->a))
            return mkBin(ADD, mkConst(a->cv + b->a->cv, w), b->b);
        if (isC(a) && b->op == SUB && isC(b->a))
            return mkBin(SUB, mkConst(a->cv + b->a->cv, w), b->b);
        if (a->op == ADD && isC(a->a) && b->op == ADD && isC(b->a))
            return mkBin(ADD, mkConst(a->a->cv + b->a->cv, w), mkBin(ADD, a->b, b->b));
        if (a->op == ADD && isC(a->a))
            return mkBin(ADD, a->a, mkBin(ADD, a->b, b));
        if (b->op == ADD && isC(b->a))
            return mkBin(ADD, b->a, mkBin(ADD, a, b->b));
        if (b->op == SUB && b->b == a)
            return b->a;
        if (a->op == SUB && a->b == b)
            return a->a;
        if (w == 1)
            return mkBin(XOR, a, b);
        break;
    case SUB:
        if (a == b)
            return mkConst(0, w);
        if (isC(b))
            return mkBin(ADD, mkConst(0 - b->cv, w), a);
        if (a->op == ADD && a->a == b)
            return a->b;
        if (a->op == ADD && a->b == b)
            return a->a;
        if (a->op == ADD && isC(a->a) && b->op == ADD && isC(b->a))
            return mkBin(ADD, mkConst(a->a->cv - b->a->cv, w), mkBin(SUB, a->b, b->b));
        if (a->op == ADD && isC(a->a))
            return mkBin(ADD, a->a, mkBin(SUB, a->b, b));
        if (isC(a) && b->op == ADD && isC(b->a))
            return mkBin(SUB, mkConst(a->cv - b->a->cv, w), b->b);
        if (b->op == ADD && b->a == a)
            return mkBin(SUB, mkConst(0, w), b->b);
        if (b->op == ADD && b->b == a)
            return mkBin(SUB, mkConst(0, w), b->a);
        if (w == 1)
            return mkBin(XOR, a, b);
        break;
    case MUL:
        if (isC(a))
        {
            if (a->cv == 0)
                return a;
            if (a->cv == 1)
                return b;
            if ((a->cv & (a->cv - 1)) == 0)
                return mkBin(SHL, b, mkConst(bitlen(a->cv) - 1, w));
        }
        if (w <= 64 && w > 1)
        {
            unsigned n = bitlen(a->umax * b->umax);
            if (a->umax * b->umax <= m && n < w)
            {
                n = std::max(n, 1u);
                if (n < w && (a->op != CONST || b->op == ZEXT))
                {
                    E na = mkExtract(a, 0, n), nb = mkExtract(b, 0, n);
                    if (isC(na) || isC(nb) || na->op != EXTRACT || nb->op != EXTRACT)
                    {
                        if (comm(op) && (isC(nb) || (!isC(na) && na->id > nb->id)))
                            std::swap(na, nb);
                        return mkZExt(intern(MUL, n, 0, na, nb, nullptr, 0), w);
                    }
                }
            }
        }
        break;
    case UDIV:
    case UREM:
        if (isC(b) && b->cv != 0)
        {
            if (b->cv == 1)
                return op == UDIV ? a : mkConst(0, w);
            if ((b->cv & (b->cv - 1)) == 0)
            {
                unsigned k = bitlen(b->cv) - 1;
                if (op == UDIV)
                    return mkBin(LSHR, a, mkConst(k, w));
                return mkZExt(mkExtract(a, 0, k), w);
            }
            if (a->umax < b->cv)
                return op == UDIV ? mkConst(0, w) : a;
        }
        if (b->umin > 0 && w <= 64)
        {
            unsigned n = bitlen(std::max(a->umax, b->umax));
            if (n < w)
                return mkZExt(intern(op, n, 0, mkExtract(a, 0, n), mkExtract(b, 0, n), nullptr, 0),
                              w);
        }
        break;
    case SDIV:
    case SREM:
        if (a->umax < ((u128)1 << (w - 1)) && b->umax < ((u128)1 << (w - 1)))
            return mkBin(op == SDIV ? UDIV : UREM, a, b);
        break;
    case AND:
        if (a == b)
            return a;
        if (isC(a))
        {
            if (a->cv == 0)
                return a;
            if (a->cv == m)
                return b;
            if (b->op == AND && isC(b->a))
                return mkBin(AND, mkConst(a->cv & b->a->cv, w), b->b);
            if (((a->cv + 1) & a->cv) == 0)
                return mkZExt(mkExtract(b, 0, bitlen(a->cv)), w);
            if (b->op == ZEXT && (a->cv & maskw(b->a->w)) != a->cv)
                return mkZExt(mkBin(AND, mkConst(a->cv, b->a->w), b->a), w);
            if (b->op == ZEXT)
                return mkZExt(mkBin(AND, mkConst(a->cv, b->a->w), b->a), w);
            if (b->op == CONCAT)
                return mkConcat(mkBin(AND, mkConst(a->cv >> b->b->w, b->a->w), b->a),
                                mkBin(AND, mkConst(a->cv, b->b->w), b->b));
            if (b->op == ITE && isC(b->b) && isC(b->c))
                return mkIte(b->a, mkBin(AND, a, b->b), mkBin(AND, a, b->c));
            // contiguous shifted mask: ~low mask
            u128 inv = ~a->cv & m;
            if (((inv + 1) & inv) == 0)
            {
                unsigned k = bitlen(inv);
                return mkConcat(mkExtract(b, k, w - k), mkConst(0, k));
            }
        }
        if (w == 1)
        {
            if ((a->op == XOR && isC(a->a) && a->b == b) || (b->op == XOR && isC(b->a) && b->b == a))
                return mkConst(0, 1);
            if (b->op == AND && (b->a == a || b->b == a))
                return b;
            if (a->op == AND && (a->a == b || a->b == b))
                return a;
        }
        break;
    case OR:
        if (a == b)
            return a;
        if (isC(a))
        {
            if (a->cv == 0)
                return b;
            if (a->cv == m)
                return a;
            if (b->op == ITE && isC(b->b) && isC(b->c))
                return mkIte(b->a, mkBin(OR, a, b->b), mkBin(OR, a, b->c));
            if (b->op == CONCAT)
                return mkConcat(mkBin(OR, mkConst(a->cv >> b->b->w, b->a->w), b->a),
                                mkBin(OR, mkConst(a->cv, b->b->w), b->b));
        }
        if (w == 1)
        {
            if ((a->op == XOR && isC(a->a) && a->b == b) || (b->op == XOR && isC(b->a) && b->b == a))
                return mkConst(1, 1);
        }
        {
            E x = a, y = b;
            for (int t = 0; t < 2; ++t, std::swap(x, y))
            {
                if (x->op == ZEXT && y->op == CONCAT && isC(y->b) && y->b->cv == 0
                    && x->a->w <= y->b->w)
                    return mkConcat(y->a, mkZExt(x->a, y->b->w));
                if (x->op == ZEXT && y->op == ZEXT && w > 1)
                {
                    unsigned n = std::max(x->a->w, y->a->w);
                    return mkZExt(mkBin(OR, mkZExt(x->a, n), mkZExt(y->a, n)), w);
                }
                if (x->op == CONCAT && y->op == CONCAT && x->b->w == y->b->w)
                    return mkConcat(mkBin(OR, x->a, y->a), mkBin(OR, x->b, y->b));
                if (x->op == ZEXT && y->op == CONCAT && x->a->w <= y->b->w)
                    return mkConcat(y->a, mkBin(OR, mkZExt(x->a, y->b->w), y->b));
            }
        }
        break;
    case XOR:
        if (a == b)
            return mkConst(0, w);
        if (isC(a))
        {
            if (a->cv == 0)
                return b;
            if (b->op == XOR && isC(b->a))
                return mkBin(XOR, mkConst(a->cv ^ b->a->cv, w), b->b);
            if (b->op == ITE && isC(b->b) && isC(b->c))
                return mkIte(b->a, mkBin(XOR, a, b->b), mkBin(XOR, a, b->c));
            if (w == 1)
            {
                if (b->op == ULT)
                    return mkBin(ULE, b->b, b->a);
                if (b->op == ULE)
                    return mkBin(ULT, b->b, b->a);
                if (b->op == SLT)
                    return mkBin(SLE, b->b, b->a);
                if (b->op == SLE)
                    return mkBin(SLT, b->b, b->a);
            }
        }
        if (b->op == XOR && b->a == a)
            return b->b;
        if (b->op == XOR && b->b == a)
            return b->a;
        if (a->op == XOR && a->a == b)
            return a->b;
        if (a->op == XOR && a->b == b)
            return a->a;
        if (a->op == XOR && isC(a->a))
            return mkBin(XOR, a->a, mkBin(XOR, a->b, b));
        if (b->op == XOR && isC(b->a))
            return mkBin(XOR, b->a, mkBin(XOR, a, b->b));
        break;
    case SHL:
        if (isC(b))
        {
            if (b->cv == 0)
                return a;
            if (b->cv >= w)
                return mkConst(0, w);
            unsigned k = (unsigned)b->cv;
            return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
        }
        if (isC(a) && a->cv == 0)
            return a;
        break;
    case LSHR:
        if (isC(b))
        {
            if (b->cv == 0)
                return a;
            if (b->cv >= w)
                return mkConst(0, w);
            unsigned k = (unsigned)b->cv;
            return mkZExt(mkExtract(a, k, w - k), w);
        }
        if (isC(a) && a->cv == 0)
            return a;
        break;
    case ASHR:
        if (isC(b))
        {
            if (b->cv == 0)
                return a;
            unsigned k = b->cv >= w ? w - 1 : (unsigned)b->cv;
            return mkSExt(mkExtract(a, k, w - k), w);
        }
        if (a->umax < ((u128)1 << (w - 1)))
            return mkBin(LSHR, a, b);
        break;
    case EQ:
        if (a == b)
            return mkConst(1, 1);
        if (w <= 64 && (a->umax < b->umin || b->umax < a->umin))
            return mkConst(0, 1);
        if (w == 1)
        {
            if (isC(a))
                return a->cv ? b : mkNot(b);
        }
        if (isC(a))
        {
            u128 k = a->cv;
            switch (b->op)
            {
            case ADD:
                if (isC(b->a))
                    return mkBin(EQ, mkConst(k - b->a->cv, w), b->b);
                break;
            case SUB:
                if (isC(b->a))
                    return mkBin(EQ, mkConst(b->a->cv - k, w), b->b);
                if (k == 0)
                    return mkBin(EQ, b->a, b->b);
                break;
            case XOR:
                if (isC(b->a))
                    return mkBin(EQ, mkConst(k ^ b->a->cv, w), b->b);
                if (k == 0)
                    return mkBin(EQ, b->a, b->b);
                break;
            case ZEXT:
                if (k > maskw(b->a->w))
                    return mkConst(0, 1);
                return mkBin(EQ, mkConst(k, b->a->w), b->a);
            case SEXT:
            {
                E t = mkConst(k, b->a->w);
                if (((u128)sx(t->cv, t->w) & m) != k)
                    return mkConst(0, 1);
                return mkBin(EQ, t, b->a);
            }
            case CONCAT:
                return mkBin(AND,
                             mkBin(EQ, mkConst(k >> b->b->w, b->a->w), b->a),
                             mkBin(EQ, mkConst(k, b->b->w), b->b));
            case ITE:
                if (isC(b->b) && isC(b->c))
                {
                    bool x = b->b->cv == k, y = b->c->cv == k;
                    if (x && y)
                        return mkConst(1, 1);
                    if (!x && !y)
                        return mkConst(0, 1);
                    return x ? b->a : mkNot(b->a);
                }
                if (isC(b->b) && b->b->cv != k)
                    return mkBin(AND, mkNot(b->a), mkBin(EQ, a, b->c));
                if (isC(b->c) && b->c->cv != k)
                    return mkBin(AND, b->a, mkBin(EQ, a, b->b));
                if (isC(b->b))
                    return mkBin(OR, b->a, mkBin(EQ, a, b->c));
                if (isC(b->c))
                    return mkBin(OR, mkNot(b->a), mkBin(EQ, a, b->b));
                break;
            case OR:
                if (k == 0)
                    return mkBin(AND, mkBin(EQ, a, b->a), mkBin(EQ, a, b->b));
                break;
            default:
                break;
            }
        }
        else
        {
            if (a->op == ZEXT && b->op == ZEXT)
            {
                unsigned n = std::max(a->a->w, b->a->w);
                return mkBin(EQ, mkZExt(a->a, n), mkZExt(b->a, n));
            }
            if (a->op == ADD && b->op == ADD && a->a == b->a)
                return mkBin(EQ, a->b, b->b);
            if (a->op == ADD && b->op == ADD && a->b == b->b)
                return mkBin(EQ, a->a, b->a);
            if (a->op == ADD && isC(a->a) && a->b == b)
                return mkConst(a->a->cv == 0, 1);
            if (b->op == ADD && isC(b->a) && b->b == a)
                return mkConst(b->a->cv == 0, 1);
            if (a->op == XOR && b->op == XOR && isC(a->a) && isC(b->a) && a->a != b->a)
                return mkBin(EQ, mkConst(a->a->cv ^ b->a->cv, w), mkBin(XOR, a->b, b->b));
            if (a->op == XOR && b->op == XOR && a->a == b->a)
                return mkBin(EQ, a->b, b->b);
            if (a->op == XOR && isC(a->a) && a->b == b)
                return mkConst(0, 1);
            if (b->op == XOR && isC(b->a) && b->b == a)
                return mkConst(0, 1);
            if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w)
                return mkBin(AND, mkBin(EQ, a->a, b->a), mkBin(EQ, a->b, b->b));
        }
        break;
    case ULT:
    case ULE:
        if (a == b)
            return mkConst(op == ULE, 1);
        if (w <= 64)
        {
            if (op == ULT)
            {
                if (a->umax < b->umin)
                    return mkConst(1, 1);
                if (a->umin >= b->umax)
                    return mkConst(0, 1);
            }
            else
            {
                if (a->umax <= b->umin)
                    return mkConst(1, 1);
                if (a->umin > b->umax)
                    return mkConst(0, 1);
            }
            unsigned n = std::max(bitlen(a->umax), bitlen(b->umax));
            if (n < w && n > 0)
            {
                E na = mkExtract(a, 0, n), nb = mkExtract(b, 0, n);
                if ((na->op != EXTRACT || na->a->op == VAR)
                    && (nb->op != EXTRACT || nb->a->op == VAR))
                    return mkBin(op, na, nb);
            }
            if (op == ULT && isC(b) && b->cv == 1)
                return mkBin(EQ, mkConst(0, w), a);
            if (op == ULE && isC(b) && b->cv == 0)
                return mkBin(EQ, mkConst(0, w), a);
            if (op == ULT && isC(a) && a->cv == 0)
                return mkNot(mkBin(EQ, a, b));
        }
        break;
    case SLT:
    case SLE:
        if (a == b)
            return mkConst(op == SLE, 1);
        if (w <= 64 && a->umax < ((u128)1 << (w - 1)) && b->umax < ((u128)1 << (w - 1)))
            return mkBin(op == SLT ? ULT : ULE, a, b);
        if (op == SLT && isC(b) && b->cv == 0)
            return mkExtract(a, w - 1, 1);
        if (op == SLT && isC(a) && a->cv == m)
            return mkNot(mkExtract(b, w - 1, 1));
        break;
    default:
        break;
    }
    return intern(op, rw, 0, a, b, nullptr, 0);
}

ModelP newModel(const Model* base)
{
    auto m = std::make_shared<Model>();
    if (base)
        m->v = base->v;
    m->stamp = ++g_stamp;
    return m;
}

static u128 evalRec(E e, const Model& m)
{
    if (e->op == CONST)
        return e->cv;
    if (e->stamp == m.stamp)
        return e->val;
    u128 r = 0;
    switch (e->op)
    {
    case VAR:
        r = m.get(e->lo);
        break;
    case ITE:
        r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m);
        break;
    case CONCAT:
        r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m);
        break;
    case EXTRACT:
        r = (evalRec(e->a, m) >> e->lo) & maskw(e->w);
        break;
    case ZEXT:
        r = evalRec(e->a, m);
        break;
    case SEXT:
        r = (u128)sx(evalRec(e->a, m), e->a->w) & maskw(e->w);
        break;
    default:
    {
        bool ok;
        r = foldBin(e->op, evalRec(e->a, m), evalRec(e->b, m), e->a->w, ok);
    }
    }
    e->stamp = m.stamp;
    e->val = r;
    return r;
}

u128 evalExpr(E e, const Model& m) { return evalRec(e, m); }

E substExpr(E e, const std::unordered_map<E, u128>& known, std::unordered_map<E, E>& memo)
{
    if (e->op == CONST)
        return e;
    auto k = known.find(e);
    if (k != known.end())
        return mkConst(k->second, e->w);
    if (e->op == VAR)
        return e;
    auto it = memo.find(e);
    if (it != memo.end())
        return it->second;
    E r = e;
    switch (e->op)
    {
    case ITE:
    {
        E c = substExpr(e->a, known, memo);
        if (isC(c))
            r = substExpr(c->cv ? e->b : e->c, known, memo);
        else
            r = mkIte(c, substExpr(e->b, known, memo), substExpr(e->c, known, memo));
        break;
    }
    case EXTRACT:
    {
        E a = substExpr(e->a, known, memo);
        if (a != e->a)
            r = mkExtract(a, e->lo, e->w);
        break;
    }
    case ZEXT:
    {
        E a = substExpr(e->a, known, memo);
        if (a != e->a)
            r = mkZExt(a, e->w);
        break;
    }
    case SEXT:
    {
        E a = substExpr(e->a, known, memo);
        if (a != e->a)
            r = mkSExt(a, e->w);
        break;
    }
    case CONCAT:
    {
        E a = substExpr(e->a, known, memo), b = substExpr(e->b, known, memo);
        if (a != e->a || b != e->b)
            r = mkConcat(a, b);
        break;
    }
    default:
    {
        E a = substExpr(e->a, known, memo), b = substExpr(e->b, known, memo);
        if (a != e->a || b != e->b)
            r = mkBin(e->op, a, b);
    }
    }
    memo[e] = r;
    return r;
}

std::string exprStr(E e, int d)
{
    static const char* names[]
        = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem",
           "and",   "or",  "xor", "shl", "lshr", "ashr", "eq",  "ult",  "ule",
           "slt",   "sle", "ite", "concat", "extract", "zext", "sext"};
    char buf[128];
    if (e->op == CONST)
    {
        snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)(u64)e->cv, e->w);
        return buf;
    }
    if (e->op == VAR)
        return g_vars[e->lo].name;
    if (d <= 0)
        return "...";
    std::string s = "(";
    s += names[e->op];
    if (e->op == EXTRACT)
    {
        snprintf(buf, sizeof buf, "[%u+%u]", e->lo, e->w);
        s += buf;
    }
    if (e->op == ZEXT || e->op == SEXT)
    {
        snprintf(buf, sizeof buf, "%u", e->w);
        s += buf;
    }
    for (E x : {e->a, e->b, e->c})
        if (x)
            s += " " + exprStr(x, d - 1);
    return s + ")";
}
