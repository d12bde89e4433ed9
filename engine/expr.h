// Hash-consed bit-vector expressions with simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <map>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

enum Op : uint8_t
{
    CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT
};

struct Expr;
typedef const Expr* E;

struct VarSet
{
    std::vector<u32> v;    // sorted
};
typedef std::shared_ptr<const VarSet> VarSetP;

struct Expr
{
    Op op;
    uint16_t w;
    u32 lo;    // EXTRACT: low bit; VAR: id
    E a, b, c;
    u128 cv;
    u128 umin, umax;
    VarSetP vars;
    u32 id;
    u32 size;
    mutable u64 stamp = 0;
    mutable u128 val = 0;
    mutable void* zbv = nullptr;
    mutable void* zbool = nullptr;
};

struct VarInfo
{
    std::string name;
    bool uninit;
};

extern std::vector<VarInfo> g_vars;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w)
{
    if (w >= 128)
        return (i128)v;
    u128 m = (u128)1 << (w - 1);
    return (i128)((v ^ m) - m);
}

struct ExprKey
{
    Op op;
    uint16_t w;
    u32 lo;
    E a, b, c;
    u128 cv;
    bool operator==(const ExprKey& o) const
    {
        return op == o.op && w == o.w && lo == o.lo && a == o.a && b == o.b && c == o.c
            && cv == o.cv;
    }
};
struct ExprKeyHash
{
    size_t operator()(const ExprKey& k) const
    {
        u64 h = k.op * 0x9E3779B97F4A7C15ull + k.w;
        auto mix = [&](u64 x)
        {
            h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
            h *= 0xff51afd7ed558ccdull;
            h ^= h >> 29;
        };
        mix(k.lo);
        mix((u64)k.a);
        mix((u64)k.b);
        mix((u64)k.c);
        mix((u64)k.cv);
        mix((u64)(k.cv >> 64));
        return h;
    }
};

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, bool uninit);    // always 8 bits
E mkVarAt(u64 n, bool uninit);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E x, unsigned lo, unsigned w);
E mkZExt(E x, unsigned w);
E mkSExt(E x, unsigned w);
E mkNot(E x);    // bitwise not
static inline E mkEq(E a, E b) { return mkBin(EQ, a, b); }
static inline bool isC(E e) { return e->op == CONST; }
static inline E mkTrue() { return mkConst(1, 1); }
static inline E mkFalse() { return mkConst(0, 1); }
u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok);
std::string exprStr(E e, int depth = 6);

// models
struct Model
{
    u64 stamp;
    std::vector<uint8_t> v;    // by var id; missing = 0
    uint8_t get(u32 id) const { return id < v.size() ? v[id] : 0; }
};
typedef std::shared_ptr<Model> ModelP;
ModelP newModel(const Model* base);
u128 evalExpr(E e, const Model& m);
E substExpr(E e, const std::unordered_map<E, u128>& known, std::unordered_map<E, E>& memo);
size_t exprCount();
