// Built-in functions of the executor: memory, intrinsics, C++ ABI and the sym_* harness API.
enum BI
{
    B_MALLOC,
    B_CALLOC,
    B_REALLOC,
    B_FREE,
    B_NEW,
    B_NEWARR,
    B_NEW_NOTHROW,
    B_NEWARR_NOTHROW,
    B_DEL,
    B_DELARR,
    B_MEMALIGN,
    B_ALIGNED_ALLOC,
    B_MEMCPY,
    B_MEMMOVE,
    B_MEMSET,
    B_MEMCMP,
    B_BCMP,
    B_ABORT,
    B_EXIT,
    B_ASSERT_FAIL,
    B_TERMINATE,
    B_PURE_VIRTUAL,
    B_GUARD_ACQUIRE,
    B_GUARD_RELEASE,
    B_NOP0,
    B_EXC_ALLOC,
    B_EXC_FREE,
    B_THROW,
    B_RETHROW,
    B_BEGIN_CATCH,
    B_END_CATCH,
    B_GET_EXC_PTR,
    B_CUR_EXC_TYPE,
    B_UNCAUGHT_N,
    B_CALL_TERMINATE,
    B_DYNCAST,
    B_SYM_MAKE,
    B_SYM_ASSUME,
    B_SYM_ASSERT,
    B_SYM_FAIL,
    B_SYM_REACH,
    B_SYM_CONC,
    B_SYM_EQ,
    B_SYM_ITE,
    B_SYM_PARAM,
    B_SYM_PRINT,
    B_SYM_NATIVE,
    B_SYM_ISSYM,
    B_SYM_LIVE,
    B_SYM_ALLOCSZ,
    B_SYM_DEFINED,
    B_SYM_TID,
    B_SYM_TNEW,
    B_SYM_TSWITCH,
    B_SYM_RACE,
    B_SYM_TLSRESET,
    B_BUILTIN_INTRINSIC = 1000
};

static const std::unordered_map<std::string, int> g_bnames = {
    {"malloc", B_MALLOC},
    {"calloc", B_CALLOC},
    {"realloc", B_REALLOC},
    {"free", B_FREE},
    {"_Znwm", B_NEW},
    {"_Znam", B_NEWARR},
    {"_ZnwmSt11align_val_t", B_NEW},
    {"_ZnamSt11align_val_t", B_NEWARR},
    {"_ZnwmRKSt9nothrow_t", B_NEW_NOTHROW},
    {"_ZnamRKSt9nothrow_t", B_NEWARR_NOTHROW},
    {"_ZdlPv", B_DEL},
    {"_ZdlPvm", B_DEL},
    {"_ZdlPvSt11align_val_t", B_DEL},
    {"_ZdlPvmSt11align_val_t", B_DEL},
    {"_ZdlPvRKSt9nothrow_t", B_DEL},
    {"_ZdaPv", B_DELARR},
    {"_ZdaPvm", B_DELARR},
    {"_ZdaPvSt11align_val_t", B_DELARR},
    {"_ZdaPvmSt11align_val_t", B_DELARR},
    {"posix_memalign", B_MEMALIGN},
    {"aligned_alloc", B_ALIGNED_ALLOC},
    {"memcpy", B_MEMCPY},
    {"memmove", B_MEMMOVE},
    {"memset", B_MEMSET},
    {"memcmp", B_MEMCMP},
    {"bcmp", B_BCMP},
    {"abort", B_ABORT},
    {"exit", B_EXIT},
    {"_exit", B_EXIT},
    {"__assert_fail", B_ASSERT_FAIL},
    {"_ZSt9terminatev", B_TERMINATE},
    {"__cxa_pure_virtual", B_PURE_VIRTUAL},
    {"__cxa_guard_acquire", B_GUARD_ACQUIRE},
    {"__cxa_guard_release", B_GUARD_RELEASE},
    {"__cxa_guard_abort", B_NOP0},
    {"__cxa_atexit", B_NOP0},
    {"atexit", B_NOP0},
    {"__cxa_allocate_exception", B_EXC_ALLOC},
    {"__cxa_free_exception", B_EXC_FREE},
    {"__cxa_throw", B_THROW},
    {"__cxa_rethrow", B_RETHROW},
    {"__cxa_begin_catch", B_BEGIN_CATCH},
    {"__cxa_end_catch", B_END_CATCH},
    {"__cxa_get_exception_ptr", B_GET_EXC_PTR},
    {"__cxa_current_exception_type", B_CUR_EXC_TYPE},
    {"_ZSt19uncaught_exceptionsv", B_UNCAUGHT_N},
    {"_ZSt18uncaught_exceptionv", B_UNCAUGHT_N},
    {"__clang_call_terminate", B_CALL_TERMINATE},
    {"__dynamic_cast", B_DYNCAST},
    {"sym_make", B_SYM_MAKE},
    {"sym_assume", B_SYM_ASSUME},
    {"sym_assert", B_SYM_ASSERT},
    {"sym_fail", B_SYM_FAIL},
    {"sym_reach", B_SYM_REACH},
    {"sym_conc", B_SYM_CONC},
    {"sym_eq", B_SYM_EQ},
    {"sym_ite", B_SYM_ITE},
    {"sym_param", B_SYM_PARAM},
    {"sym_print", B_SYM_PRINT},
    {"sym_native", B_SYM_NATIVE},
    {"sym_is_symbolic", B_SYM_ISSYM},
    {"sym_live", B_SYM_LIVE},
    {"sym_alloc_size", B_SYM_ALLOCSZ},
    {"sym_defined", B_SYM_DEFINED},
    {"sym_set_tid", B_SYM_TID},
    {"sym_thread_new", B_SYM_TNEW},
    {"sym_thread_switch", B_SYM_TSWITCH},
    {"sym_race", B_SYM_RACE},
    {"sym_tls_reset", B_SYM_TLSRESET},
};

static int findBuiltin(Function* F)
{
    static std::unordered_map<Function*, int> cache;
    auto it = cache.find(F);
    if (it != cache.end())
        return it->second;
    int r = -1;
    if (F->isIntrinsic())
        r = B_BUILTIN_INTRINSIC + (int)F->getIntrinsicID();
    else
    {
        auto b = g_bnames.find(F->getName().str());
        if (b != g_bnames.end())
            r = b->second;
    }
    cache[F] = r;
    return r;
}
static void finishCall(State& st, const CInst& ci, const V& r);

static void unwind(State& st, u64 exc, bool fromCall);
static std::string tiName(State& st, u64 ti);
static bool findBase(State& st, u64 ti, u64 target, i64 off, i64& out, int depth);
static void pushFrame(State& st, Function* F, const std::vector<V>& args, const CInst* callInst,
                      const CallBase* cb);
static V binop(State& st, unsigned opc, const V& a, const V& b, unsigned w, Type* ty);

static const V& argv_(const std::vector<V>& a, size_t i) { return a.at(i); }

// concretise an allocation size; returns false if too large
static bool allocSize(State& st, const V& v, u64& n)
{
    if (v.e)
    {
        E big = mkBin(ULT, mkConst(MAX_OBJ, 64), toE(v, 64));
        State* other;
        bool b = branchOn(st, big, &other);
        if (other)
            queue(other);
        if (b)
            return false;
    }
    n = conc(st, v);
    return n <= MAX_OBJ;
}

static void copyBytes(State& st, u64 did, u64 doff, u64 sid, u64 soff, u64 n)
{
    MemObj* s = st.mem.get(sid);
    ObjP hold(s);    // keep source alive and unchanged
    MemObj* d = st.mem.getMut(did);
    if (d == s)
    {
        // same object (only when exclusively owned): copy through temporaries
        std::vector<u8> td(s->d.begin() + soff, s->d.begin() + soff + n);
        std::vector<E> ts;
        std::vector<u8> tu;
        if (!s->s.empty())
            ts.assign(s->s.begin() + soff, s->s.begin() + soff + n);
        if (!s->un.empty())
            tu.assign(s->un.begin() + soff, s->un.begin() + soff + n);
        std::copy(td.begin(), td.end(), d->d.begin() + doff);
        if (!ts.empty())
            std::copy(ts.begin(), ts.end(), d->s.begin() + doff);
        if (!tu.empty())
            std::copy(tu.begin(), tu.end(), d->un.begin() + doff);
        return;
    }
    memmove(d->d.data() + doff, s->d.data() + soff, n);
    bool ss = false;
    if (!s->s.empty())
        for (u64 i = 0; i < n && !ss; ++i)
            ss = s->s[soff + i] != nullptr;
    if (ss)
    {
        if (d->s.empty())
            d->s.assign(d->size, nullptr);
        std::copy(s->s.begin() + soff, s->s.begin() + soff + n, d->s.begin() + doff);
    }
    else if (!d->s.empty())
        std::fill(d->s.begin() + doff, d->s.begin() + doff + n, nullptr);
    bool su = false;
    if (!s->un.empty())
        for (u64 i = 0; i < n && !su; ++i)
            su = s->un[soff + i];
    if (su)
    {
        if (d->un.empty())
            d->un.assign(d->size, 0);
        std::copy(s->un.begin() + soff, s->un.begin() + soff + n, d->un.begin() + doff);
    }
    else if (!d->un.empty())
        std::fill(d->un.begin() + doff, d->un.begin() + doff + n, 0);
}

static void doMemcpy(State& st, const V& dst, const V& src, const V& len, bool overlapOk)
{
    u64 n = conc(st, len);
    if (n == 0)
        return;
    u64 da = conc(st, dst), sa = conc(st, src);
    u64 did, doff, sid, soff;
    E oe;
    resolve(st, V(sa), n, sid, soff, oe, false);
    MemObj* d = resolve(st, V(da), n, did, doff, oe, true);
    if (d->ro)
        fail(st, "memory", "memcpy into read-only object");
    if (!overlapOk && did == sid && da != sa && da < sa + n && sa < da + n)
        fail(st, "memory", "memcpy with overlapping ranges");
    copyBytes(st, did, doff, sid, soff, n);
}

static void doMemset(State& st, const V& dst, const V& val, const V& len)
{
    u64 n = conc(st, len);
    if (n == 0)
        return;
    u64 da = conc(st, dst);
    u64 id, off;
    E oe;
    MemObj* d = resolve(st, V(da), n, id, off, oe, true);
    if (d->ro)
        fail(st, "memory", "memset of read-only object");
    d = st.mem.getMut(id);
    if (!val.e)
    {
        memset(d->d.data() + off, (int)(val.c & 0xff), n);
        if (!d->s.empty())
            std::fill(d->s.begin() + off, d->s.begin() + off + n, nullptr);
        if (!d->un.empty())
            std::fill(d->un.begin() + off, d->un.begin() + off + n, 0);
        return;
    }
    E b = mkExtract(val.e, 0, 8);
    for (u64 i = 0; i < n; ++i)
        storeByte(d, off + i, b);
}

static V doMemcmp(State& st, const V& a, const V& b, const V& len, bool eqOnly, unsigned rw)
{
    u64 n = conc(st, len);
    if (n == 0)
        return V(0);
    u64 aa = conc(st, a), ba = conc(st, b);
    u64 aid, aoff, bid, boff;
    E oe;
    resolve(st, V(aa), n, aid, aoff, oe, false);
    resolve(st, V(ba), n, bid, boff, oe, false);
    std::vector<E> x(n), y(n);
    for (u64 i = 0; i < n; ++i)
    {
        MemObj* o = st.mem.get(aid);
        x[i] = byteAt(st, aid, o, aoff + i);
        o = st.mem.get(bid);
        y[i] = byteAt(st, bid, o, boff + i);
    }
    if (eqOnly)
    {
        E r = mkTrue();
        for (u64 i = 0; i < n; ++i)
        {
            E q = mkEq(x[i], y[i]);
            if (isC(q) && !q->cv)
                return V(1);
            r = mkBin(AND, r, q);
        }
        return vE(mkIte(r, mkConst(0, rw), mkConst(1, rw)));
    }
    E r = mkConst(0, rw);
    for (i64 i = (i64)n - 1; i >= 0; --i)
    {
        E q = mkEq(x[i], y[i]);
        if (isC(q) && q->cv)
            continue;
        E lt = mkIte(mkBin(ULT, x[i], y[i]), mkConst(~(u128)0, rw), mkConst(1, rw));
        r = mkIte(q, r, lt);
    }
    return vE(r);
}

static V elementwise(const V& a, std::function<V(const V&)> f)
{
    if (!a.agg)
        return f(a);
    std::vector<V> el;
    for (auto& x : a.agg->el)
        el.push_back(f(x));
    return mkAgg(el);
}

static bool doThrowBadAlloc(State& st, const CInst& ci)
{
    Function* F = g_mod->getFunction("sym_rt_bad_alloc");
    if (!F)
        throw EngineError{"no sym_rt_bad_alloc"};
    pushFrame(st, F, {}, &ci, nullptr);
    return false;
}

static bool freeObj(State& st, const V& p, Kind expect)
{
    u64 a = conc(st, p);
    if (!a)
        return true;
    u64 id = a >> ID_SHIFT;
    MemObj* o = st.mem.get(id);
    if (!o)
        fail(st, "memory", st.mem.wasFreed(id) ? "double free" : "free of invalid pointer");
    if (a & ((1ull << ID_SHIFT) - 1))
        fail(st, "memory", "free of interior pointer");
    if (o->kind != expect)
        fail(st, "memory",
             std::string("mismatched deallocation: ") + kindName[o->kind] + " freed as " + kindName[expect]);
    st.mem.free(id);
    return true;
}

static bool runIntrinsic(State& st, int iid, const CInst& ci, Function* callee, std::vector<V>& a, V& ret)
{
    unsigned w = ci.bits;
    Type* ty = ci.ty;
    auto bin = [&](const V& x, const V& y, std::function<E(E, E)> f)
    {
        if (x.agg)
        {
            unsigned ew = width(aggT(ty, 0));
            std::vector<V> el;
            for (size_t i = 0; i < x.agg->el.size(); ++i)
                el.push_back(vE(f(toE(x.agg->el[i], ew), toE(y.agg->el[i], ew))));
            return mkAgg(el);
        }
        E r = f(toE(x, w), toE(y, w));
        V v = vE(r);
        if (w > 64)
            v.e = r;
        return v;
    };
    switch (iid)
    {
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
        doMemcpy(st, a[0], a[1], a[2], false);
        return true;
    case Intrinsic::memmove:
        doMemcpy(st, a[0], a[1], a[2], true);
        return true;
    case Intrinsic::memset:
    case Intrinsic::memset_inline:
        doMemset(st, a[0], a[1], a[2]);
        return true;
    case Intrinsic::umin:
        ret = bin(a[0], a[1], [](E x, E y) { return mkIte(mkBin(ULT, x, y), x, y); });
        return true;
    case Intrinsic::umax:
        ret = bin(a[0], a[1], [](E x, E y) { return mkIte(mkBin(ULT, x, y), y, x); });
        return true;
    case Intrinsic::smin:
        ret = bin(a[0], a[1], [](E x, E y) { return mkIte(mkBin(SLT, x, y), x, y); });
        return true;
    case Intrinsic::smax:
        ret = bin(a[0], a[1], [](E x, E y) { return mkIte(mkBin(SLT, x, y), y, x); });
        return true;
    case Intrinsic::abs:
        ret = elementwise(a[0],
                          [&](const V& x)
                          {
                              unsigned ww = ty->isVectorTy() ? width(aggT(ty, 0)) : w;
                              E e = toE(x, ww);
                              return vE(mkIte(mkBin(SLT, e, mkConst(0, ww)),
                                              mkBin(SUB, mkConst(0, ww), e), e));
                          });
        return true;
    case Intrinsic::usub_sat:
        ret = bin(a[0], a[1],
                  [](E x, E y) { return mkIte(mkBin(ULT, x, y), mkConst(0, x->w), mkBin(SUB, x, y)); });
        return true;
    case Intrinsic::uadd_sat:
        ret = bin(a[0], a[1],
                  [](E x, E y)
                  {
                      E s = mkBin(ADD, x, y);
                      return mkIte(mkBin(ULT, s, x), mkConst(~(u128)0, x->w), s);
                  });
        return true;
    case Intrinsic::ctpop:
    {
        E e = toE(a[0], w), r = mkConst(0, w);
        if (isC(e))
        {
            ret = V((u64)__builtin_popcountll((u64)e->cv));
            return true;
        }
        for (unsigned i = 0; i < w; ++i)
            r = mkBin(ADD, r, mkZExt(mkExtract(e, i, 1), w));
        ret = vE(r);
        return true;
    }
    case Intrinsic::ctlz:
    {
        E e = toE(a[0], w), r = mkConst(w, w);
        for (unsigned i = 0; i < w; ++i)
            r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r);
        ret = vE(r);
        return true;
    }
    case Intrinsic::cttz:
    {
        E e = toE(a[0], w), r = mkConst(w, w);
        for (int i = (int)w - 1; i >= 0; --i)
            r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r);
        ret = vE(r);
        return true;
    }
    case Intrinsic::bswap:
        ret = elementwise(a[0],
                          [&](const V& x)
                          {
                              unsigned ww = ty->isVectorTy() ? width(aggT(ty, 0)) : w;
                              E e = toE(x, ww), r = nullptr;
                              for (unsigned i = 0; i < ww / 8; ++i)
                              {
                                  E by = mkExtract(e, i * 8, 8);
                                  r = r ? mkConcat(r, by) : by;
                              }
                              return vE(r);
                          });
        return true;
    case Intrinsic::fshl:
    case Intrinsic::fshr:
    {
        u64 k = conc(st, a[2]) % w;
        if (k == 0)
        {
            ret = iid == Intrinsic::fshl ? a[0] : a[1];
            return true;
        }
        E x = toE(a[0], w), y = toE(a[1], w);
        unsigned l = iid == Intrinsic::fshl ? k : w - k;
        // (x << l) | (y >> (w-l))
        ret = vE(mkConcat(mkExtract(x, 0, w - l), mkExtract(y, w - l, l)));
        return true;
    }
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow:
    case Intrinsic::smul_with_overflow:
    {
        unsigned ow = width(aggT(ty, 0));
        E x = toE(a[0], ow), y = toE(a[1], ow), r, o;
        if (iid == Intrinsic::uadd_with_overflow)
        {
            r = mkBin(ADD, x, y);
            o = mkBin(ULT, r, x);
        }
        else if (iid == Intrinsic::usub_with_overflow)
        {
            r = mkBin(SUB, x, y);
            o = mkBin(ULT, x, y);
        }
        else if (iid == Intrinsic::umul_with_overflow || iid == Intrinsic::smul_with_overflow)
        {
            if (ow > 64)
                throw EngineError{"wide mul overflow"};
            bool s = iid == Intrinsic::smul_with_overflow;
            E wx = s ? mkSExt(x, 2 * ow) : mkZExt(x, 2 * ow), wy = s ? mkSExt(y, 2 * ow) : mkZExt(y, 2 * ow);
            E p = mkBin(MUL, wx, wy);
            r = mkExtract(p, 0, ow);
            if (x->umax < ((u128)1 << 32) && y->umax < ((u128)1 << 32) && ow == 64 && !s)
                o = mkFalse();
            else
                o = mkNot(mkEq(p, s ? mkSExt(r, 2 * ow) : mkZExt(r, 2 * ow)));
        }
        else
        {
            bool add = iid == Intrinsic::sadd_with_overflow;
            r = mkBin(add ? ADD : SUB, x, y);
            E wx = mkSExt(x, ow + 1), wy = mkSExt(y, ow + 1);
            E p = mkBin(add ? ADD : SUB, wx, wy);
            o = mkNot(mkEq(p, mkSExt(r, ow + 1)));
        }
        ret = mkAgg({vE(r), vE(o)});
        return true;
    }
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::ptr_annotation:
    case Intrinsic::annotation:
    case Intrinsic::ssa_copy:
        ret = a[0];
        return true;
    case Intrinsic::threadlocal_address:
    {
        ret = a[0];
        if (st.tid)
        {
            auto it = g_tls.find(a[0].c);
            if (it == g_tls.end() || a[0].e)
                throw EngineError{"address of a thread-local variable"};
            ret = V(it->second[st.tid - 1]);
        }
        return true;
    }
    case Intrinsic::objectsize:
        ret = V(~0ull);
        return true;
    case Intrinsic::is_constant:
        ret = V(0);
        return true;
    case Intrinsic::eh_typeid_for:
    {
        ret = V((conc(st, a[0]) >> ID_SHIFT) & 0x7fffffff);
        return true;
    }
    case Intrinsic::stacksave:
        ret = V(0);
        return true;
    case Intrinsic::stackrestore:
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::assume:
    case Intrinsic::invariant_end:
    case Intrinsic::donothing:
    case Intrinsic::prefetch:
    case Intrinsic::var_annotation:
    case Intrinsic::vaend:
        return true;
    case Intrinsic::invariant_start:
        ret = V(0);
        return true;
    case Intrinsic::trap:
    case Intrinsic::debugtrap:
    case Intrinsic::ubsantrap:
        fail(st, "abort", "trap");
    case Intrinsic::vastart:
    {
        Frame& f = st.stack.back();
        u64 n = f.varargs.size();
        u64 area = st.mem.alloc(8 * std::max<u64>(n, 1), K_STACK, false, ci.I);
        f.allocas.push_back(area);
        MemObj* o = st.mem.getMut(area >> ID_SHIFT);
        for (u64 i = 0; i < n; ++i)
        {
            V v = f.varargs[i].first;
            unsigned ww = f.varargs[i].second;
            if (v.e && v.e->w < 64)
                v.e = mkZExt(v.e, 64);
            (void)ww;
            storeInt(o, 8 * i, v, 64);
        }
        u64 ap = conc(st, a[0]);
        storeT(st, V(ap), V(48), Type::getInt32Ty(g_ctx));
        storeT(st, V(ap + 4), V(176), Type::getInt32Ty(g_ctx));
        storeT(st, V(ap + 8), V(area), Type::getInt64Ty(g_ctx));
        storeT(st, V(ap + 16), V(0), Type::getInt64Ty(g_ctx));
        return true;
    }
    case Intrinsic::vacopy:
        doMemcpy(st, a[0], a[1], V(24), true);
        return true;
    case Intrinsic::vector_reduce_or:
    case Intrinsic::vector_reduce_and:
    case Intrinsic::vector_reduce_add:
    case Intrinsic::vector_reduce_xor:
    {
        unsigned ew = ci.bits;
        E r = nullptr;
        Op op = iid == Intrinsic::vector_reduce_or ? OR
            : iid == Intrinsic::vector_reduce_and  ? AND
            : iid == Intrinsic::vector_reduce_add  ? ADD
                                                   : XOR;
        for (auto& x : a[0].agg->el)
        {
            E e = toE(x, ew);
            r = r ? mkBin(op, r, e) : e;
        }
        ret = vE(r);
        return true;
    }
    default:
        throw EngineError{"unsupported intrinsic " + callee->getName().str()};
    }
}

static bool runBuiltin(State& st, int b, const CInst& ci, Function* callee, std::vector<V>& a, V& ret)
{
    if (b >= B_BUILTIN_INTRINSIC)
        return runIntrinsic(st, b - B_BUILTIN_INTRINSIC, ci, callee, a, ret);
    switch (b)
    {
    case B_MALLOC:
    case B_NEW:
    case B_NEWARR:
    case B_NEW_NOTHROW:
    case B_NEWARR_NOTHROW:
    {
        u64 n;
        if (!allocSize(st, a[0], n))
        {
            if (b == B_NEW || b == B_NEWARR)
                return doThrowBadAlloc(st, ci);
            ret = V(0);
            return true;
        }
        Kind k = b == B_MALLOC ? K_HEAP : (b == B_NEW || b == B_NEW_NOTHROW) ? K_NEW : K_NEWARR;
        ret = V(st.mem.alloc(n, k, true, ci.I));
        return true;
    }
    case B_MEMALIGN:
    {
        u64 n;
        if (!allocSize(st, a[2], n))
        {
            ret = V(12);
            return true;
        }
        u64 p = st.mem.alloc(n, K_HEAP, true, ci.I);
        storeT(st, a[0], V(p), Type::getInt64Ty(g_ctx));
        ret = V(0);
        return true;
    }
    case B_ALIGNED_ALLOC:
    {
        u64 n;
        if (!allocSize(st, a[1], n))
        {
            ret = V(0);
            return true;
        }
        ret = V(st.mem.alloc(n, K_HEAP, true, ci.I));
        return true;
    }
    case B_CALLOC:
    {
        u64 x = conc(st, a[0]), y = conc(st, a[1]);
        if (x * y > MAX_OBJ)
        {
            ret = V(0);
            return true;
        }
        ret = V(st.mem.alloc(x * y, K_HEAP, false, ci.I));
        return true;
    }
    case B_REALLOC:
    {
        u64 n = conc(st, a[1]), p = conc(st, a[0]);
        u64 q = st.mem.alloc(n, K_HEAP, true, ci.I);
        if (p)
        {
            MemObj* o = st.mem.get(p >> ID_SHIFT);
            if (!o || o->kind != K_HEAP)
                fail(st, "memory", "bad realloc");
            copyBytes(st, q >> ID_SHIFT, 0, p >> ID_SHIFT, 0, std::min(n, o->size));
            st.mem.free(p >> ID_SHIFT);
        }
        ret = V(q);
        return true;
    }
    case B_FREE:
        return freeObj(st, a[0], K_HEAP);
    case B_DEL:
        return freeObj(st, a[0], K_NEW);
    case B_DELARR:
        return freeObj(st, a[0], K_NEWARR);
    case B_MEMCPY:
        doMemcpy(st, a[0], a[1], a[2], false);
        ret = a[0];
        return true;
    case B_MEMMOVE:
        doMemcpy(st, a[0], a[1], a[2], true);
        ret = a[0];
        return true;
    case B_MEMSET:
        doMemset(st, a[0], a[1], a[2]);
        ret = a[0];
        return true;
    case B_MEMCMP:
        ret = doMemcmp(st, a[0], a[1], a[2], false, 32);
        return true;
    case B_BCMP:
        ret = doMemcmp(st, a[0], a[1], a[2], true, 32);
        return true;
    case B_ABORT:
        fail(st, "abort", "abort() called");
    case B_EXIT:
        throw PathEnd();
    case B_ASSERT_FAIL:
        fail(st, "assert", "assert(" + readCStr(st, conc(st, a[0])) + ")");
    case B_TERMINATE:
    case B_CALL_TERMINATE:
        fail(st, "terminate", "std::terminate() called");
    case B_PURE_VIRTUAL:
        fail(st, "abort", "pure virtual call");
    case B_GUARD_ACQUIRE:
    {
        u64 g = conc(st, a[0]);
        V v = loadT(st, V(g), Type::getInt8Ty(g_ctx));
        if (conc(st, v))
            ret = V(0);
        else
        {
            // mark as done right away: initialisers do not recurse
            storeT(st, V(g), V(1), Type::getInt8Ty(g_ctx));
            ret = V(1);
        }
        return true;
    }
    case B_GUARD_RELEASE:
        return true;
    case B_NOP0:
        ret = V(0);
        return true;
    case B_EXC_ALLOC:
        ret = V(st.mem.alloc(conc(st, a[0]), K_EXC, true, ci.I));
        return true;
    case B_EXC_FREE:
        return true;
    case B_THROW:
    {
        u64 exc = conc(st, a[0]);
        ExcRec r;
        r.ti = conc(st, a[1]);
        r.adjusted = exc;
        st.exc[exc] = r;
        ++st.uncaught;
        unwind(st, exc, false);
        return false;
    }
    case B_RETHROW:
    {
        if (st.caught.empty())
            fail(st, "terminate", "rethrow without active exception");
        u64 exc = st.caught.back();
        ++st.uncaught;
        unwind(st, exc, false);
        return false;
    }
    case B_BEGIN_CATCH:
    {
        u64 exc = conc(st, a[0]);
        st.caught.push_back(exc);
        --st.uncaught;
        ret = V(st.exc[exc].adjusted);
        return true;
    }
    case B_END_CATCH:
        if (!st.caught.empty())
            st.caught.pop_back();
        return true;
    case B_GET_EXC_PTR:
        ret = V(st.exc[conc(st, a[0])].adjusted);
        return true;
    case B_CUR_EXC_TYPE:
        ret = V(st.caught.empty() ? 0 : st.exc[st.caught.back()].ti);
        return true;
    case B_UNCAUGHT_N:
        ret = V((u64)st.uncaught);
        return true;
    case B_DYNCAST:
    {
        u64 src = conc(st, a[0]), dstTi = conc(st, a[2]);
        if (!src)
        {
            ret = V(0);
            return true;
        }
        u64 vp = loadU64(st, src);
        i64 top = (i64)loadU64(st, vp - 16);
        u64 ti = loadU64(st, vp - 8);
        i64 off;
        if (findBase(st, ti, dstTi, 0, off, 0))
            ret = V(src + top + off);
        else
            ret = V(0);
        return true;
    }
    case B_SYM_MAKE:
    {
        u64 n = conc(st, a[1]);
        std::string name = readCStr(st, conc(st, a[2]));
        u64 id, off;
        E oe;
        u64 p = conc(st, a[0]);
        SymRec rec;
        rec.name = name;
        if (n)
        {
            resolve(st, V(p), n, id, off, oe, true);
            MemObj* o = st.mem.getMut(id);
            for (u64 i = 0; i < n; ++i)
            {
                E v = mkVarAt(st.nInput++, false);
                storeByte(o, off + i, v);
                rec.vars.push_back(v->lo);
            }
        }
        st.syms.push(rec);
        return true;
    }
    case B_SYM_ASSUME:
    {
        V c = a[0];
        E e = c.e ? simp(st, mkNot(mkEq(mkConst(0, c.e->w), c.e))) : mkConst(c.c != 0, 1);
        if (isC(e))
        {
            if (!e->cv)
                throw PathEnd();
            return true;
        }
        if (!evalExpr(e, *st.model))
        {
            ModelP m;
            SatResult r = solve(st.cs, e, st.model, m);
            if (r != SAT)
            {
                if (r == UNKNOWN)
                    g_incomplete++;
                throw PathEnd();
            }
            st.model = m;
        }
        addConstraint(st, e);
        return true;
    }
    case B_SYM_ASSERT:
    {
        V c = a[0];
        std::string msg = readCStr(st, conc(st, a[1]));
        g_asserts++;
        g_assertMsgs[msg]++;
        E e = c.e ? simp(st, mkNot(mkEq(mkConst(0, c.e->w), c.e))) : mkConst(c.c != 0, 1);
        if (isC(e))
        {
            if (!e->cv)
                fail(st, "property", msg);
            return true;
        }
        ModelP m;
        if (!evalExpr(e, *st.model))
            m = st.model;
        else
        {
            SatResult r = solve(st.cs, mkNot(e), st.model, m);
            if (r == UNKNOWN)
                g_incomplete++;
            if (r != SAT)
                return true;
        }
        recordViolation(st, "property", msg, *m);
        // continue on the side where it holds, if any
        if (!evalExpr(e, *st.model))
        {
            ModelP m2;
            if (solve(st.cs, e, st.model, m2) != SAT)
                throw PathEnd();
            st.model = m2;
        }
        addConstraint(st, e);
        return true;
    }
    case B_SYM_FAIL:
        g_asserts++;
        fail(st, "property", readCStr(st, conc(st, a[0])));
    case B_SYM_REACH:
        g_reach[readCStr(st, conc(st, a[0]))]++;
        return true;
    case B_SYM_CONC:
        ret = V(conc(st, a[0]));
        return true;
    case B_SYM_EQ:
    {
        V r = doMemcmp(st, a[0], a[1], a[2], true, 32);
        if (!r.e)
            ret = V(r.c == 0);
        else
            ret = vE(mkZExt(mkEq(mkConst(0, 32), r.e), 32));
        return true;
    }
    case B_SYM_ITE:
    {
        if (!a[0].e)
            ret = a[0].c ? a[1] : a[2];
        else
            ret = vE(mkIte(mkNot(mkEq(mkConst(0, a[0].e->w), a[0].e)), toE(a[1], 64), toE(a[2], 64)));
        return true;
    }
    case B_SYM_PARAM:
    {
        auto it = g_params.find(readCStr(st, conc(st, a[0])));
        ret = it == g_params.end() ? a[1] : V((u64)it->second);
        return true;
    }
    case B_SYM_PRINT:
    {
        if (g_verbose)
        {
            std::string s = readCStr(st, conc(st, a[0]));
            if (a[1].e)
                fprintf(stderr, "[%llu] %s = %s (now %llu)\n", (unsigned long long)st.id, s.c_str(),
                        exprStr(simp(st, a[1].e)).c_str(), (unsigned long long)evalExpr(a[1].e, *st.model));
            else
                fprintf(stderr, "[%llu] %s = %llu\n", (unsigned long long)st.id, s.c_str(),
                        (unsigned long long)a[1].c);
        }
        return true;
    }
    case B_SYM_NATIVE:
        ret = V(0);
        return true;
    case B_SYM_ISSYM:
        ret = V(a[0].e && !isC(simp(st, a[0].e)));
        return true;
    case B_SYM_LIVE:
    {
        u64 p = conc(st, a[0]);
        ret = V(st.mem.get(p >> ID_SHIFT) != nullptr);
        return true;
    }
    case B_SYM_ALLOCSZ:
    {
        u64 p = conc(st, a[0]);
        MemObj* o = st.mem.get(p >> ID_SHIFT);
        ret = V(o ? o->size : 0);
        return true;
    }
    case B_SYM_TID:
        st.tid = conc(st, a[0]);
        if (st.tid > TLS_THREADS)
            throw EngineError{"thread number"};
        return true;
    case B_SYM_TNEW:
    {
        // a thread with its own stack, which starts running at the first switch to it
        u64 t = conc(st, a[0]);
        auto it = g_faddr.find(conc(st, a[1]));
        if (!t || t > TLS_THREADS || it == g_faddr.end())
            throw EngineError{"sym_thread_new"};
        std::vector<Frame> saved;
        saved.swap(st.stack);
        pushFrame(st, it->second, {a[2]}, nullptr, nullptr);
        st.others[t] = ThreadCtx{};
        st.others[t].stack.swap(st.stack);
        st.stack.swap(saved);
        if (t < RACE_T && st.tid < RACE_T)
        {
            st.vc[t] = st.vc[st.tid];
            ++st.vc[t][t];
            ++st.vc[st.tid][st.tid];
        }
        return true;
    }
    case B_SYM_TSWITCH:
    {
        u64 t = conc(st, a[0]);
        auto it = st.others.find(t);
        if (it == st.others.end())
            throw EngineError{"switch to a thread which does not exist"};
        finishCall(st, ci, V(0));
        ThreadCtx n = std::move(it->second);
        st.others.erase(it);
        auto& o = st.others[st.tid];
        o.stack.swap(st.stack);
        o.caught.swap(st.caught);
        o.uncaught = st.uncaught;
        o.quiet = st.quiet;
        st.stack.swap(n.stack);
        st.caught.swap(n.caught);
        st.uncaught = n.uncaught;
        st.quiet = n.quiet;
        st.tid = t;
        return false;
    }
    case B_SYM_RACE:
    {
        // 0/1: stop and start watching; 2/3: begin and end a region of this thread which is not watched;
        // 4/5: synchronise with what was released at the address, release at the address
        u64 what = conc(st, a[0]), p = conc(st, a[1]);
        if (what <= 1)
        {
            st.race = what;
            if (!st.vc[0][0])
                for (u64 t = 0; t < RACE_T; ++t)
                    st.vc[t][t] = 1;
        }
        else if (what <= 3)
            st.quiet += what == 2 ? 1 : -1;
        else if (what == 4)
            raceAcquire(st, p);
        else
            raceRelease(st, p);
        return true;
    }
    case B_SYM_TLSRESET:
    {
        u64 t = conc(st, a[0]);
        if (!t || t > TLS_THREADS)
            throw EngineError{"thread number"};
        for (auto& [base, copies] : g_tls)
            if (auto* G = dyn_cast_or_null<GlobalVariable>(g_byaddr[base]))
                if (G->hasInitializer())
                {
                    MemObj* o = st.mem.getMut(copies[t - 1] >> ID_SHIFT);
                    MemObj* init = g_baseMem.get(copies[t - 1] >> ID_SHIFT);
                    o->d = init->d;
                    o->s = init->s;
                    o->un = init->un;
                }
        return true;
    }
    case B_SYM_DEFINED:
    {
        // 1 when none of the n bytes at p is uninitialised or derived from uninitialised memory
        u64 n = conc(st, a[1]), p = conc(st, a[0]);
        u64 id, off;
        E oe;
        MemObj* o = resolve(st, V(p), n, id, off, oe, false);
        bool ok = true;
        for (u64 i = 0; i < n && ok; ++i)
        {
            if (!o->un.empty() && o->un[off + i])
                ok = false;
            else if (!o->s.empty() && o->s[off + i])
                for (u32 v : o->s[off + i]->vars->v)
                    if (g_vars[v].uninit)
                        ok = false;
        }
        ret = V(ok);
        return true;
    }
    }
    throw EngineError{"builtin"};
}
