// Models of the environment: the sym_* interface, allocation, memory primitives, C++ runtime, LLVM intrinsics.
// Included by ksym.cc.

static std::string readCStr(Exec& X, State& s, u64 a, size_t lim = 4096) {
    std::string r;
    for (size_t i = 0; i < lim; i++) {
        int o = s.mem.find(a + i);
        if (o < 0) break;
        u8 d; E e;
        s.mem.v[o].o->get(a + i - s.mem.v[o].o->base, d, e);
        if (e) { r += '?'; continue; }
        if (!d) break;
        r += (char)d;
    }
    return r;
}
#define H(nm) static bool nm(Exec& X, State& s, PInst& p, std::vector<Val>& a)

// ---- inputs ----
static E freshInput(Exec& X, State& s, const std::string& name, unsigned w) {
    std::string vn = name + "#" + std::to_string(s.seq++);
    E e = X.C.var(vn, w);
    return e;
}
static void recordInput(State& s, const std::string& name, E e, unsigned w) { s.inputs.push_back({name, e, (u16)w}); }
static bool symScalar(Exec& X, State& s, PInst& p, std::vector<Val>& a, unsigned w) {
    std::string n = readCStr(X, s, a[0].c);
    E e = freshInput(X, s, n, w);
    recordInput(s, n, e, w);
    X.setRes(s, p, X.mk(p.w == w ? e : X.C.zext(e, p.w)));
    return true;
}
H(h_u64) { return symScalar(X, s, p, a, 64); }
H(h_u32) { return symScalar(X, s, p, a, 32); }
H(h_u16) { return symScalar(X, s, p, a, 16); }
H(h_u8) { return symScalar(X, s, p, a, 8); }
H(h_bool) { return symScalar(X, s, p, a, 1); }
H(h_bytes) {
    std::string n = readCStr(X, s, a[2].c);
    u64 cnt, dst;
    if (!X.conc(s, a[1], cnt)) return false;
    if (!X.conc(s, a[0], dst)) return false;
    if (!cnt) return true;
    Val d = X.k(dst);
    int oi = X.resolve(s, d, cnt, true);
    if (oi < 0) return false;
    Obj* o = s.mem.wr(oi);
    for (u64 i = 0; i < cnt; i++) {
        E e = freshInput(X, s, n, 8);
        recordInput(s, n, e, 8);
        o->put(dst - o->base + i, 0, e);
    }
    return true;
}
static bool mkRange(Exec& X, State& s, std::vector<Val>& a, E& out) {
    std::string n = readCStr(X, s, a[0].c);
    u64 lo, hi;
    if (!X.conc(s, a[1], lo)) return false;
    if (!X.conc(s, a[2], hi)) return false;
    if (hi < lo) { X.killed++; X.kill(s); return false; }
    u64 d = hi - lo;
    if (d == 0) { out = X.C.cst(lo, 64); recordInput(s, n, out, 64); return true; }
    unsigned k = 64 - __builtin_clzll(d);
    E v = freshInput(X, s, n + "[" + std::to_string(k) + "]", k);
    if ((d & (d + 1)) != 0) {
        if (!X.restrictTo(s, X.C.cmpE(ULE, v, X.C.cst(d, k)))) { if (!s.st.empty()) { X.killed++; X.kill(s); } return false; }
    }
    out = X.C.bin(ADD, X.C.zext(v, 64), X.C.cst(lo, 64));
    recordInput(s, n, out, 64);
    return true;
}
H(h_range) {
    E e;
    if (!mkRange(X, s, a, e)) return false;
    X.setRes(s, p, X.mk(e));
    return true;
}
// Concretise over all values, from one instruction: forks advance past the call themselves.
static bool pickAll(Exec& X, State& s, PInst& p, E e) {
    for (;;) {
        e = X.simp(s, e);
        if (e->isConst()) { X.setRes(s, p, X.k(e->v)); return true; }
        X.C.newEval();
        u64 x = X.C.eval(e, s.model);
        State* o = nullptr;
        int r = X.fork(s, X.C.cmpE(EQ, e, X.C.cst(x, e->w)), &o);
        if (r == 3) return false;
        if (r == 1) { X.setRes(s, p, X.k(x)); return true; }
        if (r == 2) {
            // o: the remaining values. s: value x, to be finished by the caller; swap roles so we loop on the rest.
            std::vector<State*> done;
            X.setRes(s, p, X.k(x));
            State* cur = o;
            for (;;) {
                E e2 = X.simp(*cur, e);
                u64 y;
                State* o2 = nullptr;
                int r2;
                if (e2->isConst()) { y = e2->v; r2 = 1; }
                else {
                    X.C.newEval();
                    y = X.C.eval(e2, cur->model);
                    r2 = X.fork(*cur, X.C.cmpE(EQ, e2, X.C.cst(y, e2->w)), &o2);
                }
                if (r2 == 3) { delete cur; break; }
                X.setRes(*cur, p, X.k(y));
                X.finishCall(*cur);
                X.work.push_back(cur);
                if (r2 != 2) break;
                cur = o2;
            }
            return true;
        }
    }
}
H(h_pick) {
    E e;
    if (!mkRange(X, s, a, e)) return false;
    return pickAll(X, s, p, e);
}
H(h_concretize) {
    if (!a[0].e) { X.setRes(s, p, a[0]); return true; }
    return pickAll(X, s, p, a[0].e);
}
H(h_assume) {
    Val c = X.simp(s, a[0]);
    if (!c.e) { if (!(c.c & 1)) { X.killed++; X.kill(s); return false; } return true; }
    E e = c.e->w == 1 ? c.e : X.C.notb(X.C.cmpE(EQ, c.e, X.C.cst(0, c.e->w)));
    if (!X.restrictTo(s, e)) { if (!s.st.empty()) { X.killed++; X.kill(s); } return false; }
    return true;
}
H(h_assert) {
    X.asserts++;
    Val c = X.simp(s, a[0]);
    if (!c.e) {
        if (c.c & 1) return true;
        X.violation(s, "assert", readCStr(X, s, a[1].c));
        return false;
    }
    X.assertsSym++;
    E e = c.e->w == 1 ? c.e : X.C.notb(X.C.cmpE(EQ, c.e, X.C.cst(0, c.e->w)));
    State* o = nullptr;
    int r = X.fork(s, e, &o);
    if (r == 3) return false;
    if (r == 1) return true;
    if (r == 0) { X.violation(s, "assert", readCStr(X, s, a[1].c)); return false; }
    X.violation(*o, "assert", readCStr(X, s, a[1].c));
    delete o;
    return true;
}
H(h_cover) {
    std::string n = readCStr(X, s, a[0].c);
    auto it = X.coverIds.find(n);
    u32 id;
    if (it == X.coverIds.end()) { id = X.coverNames.size(); X.coverIds[n] = id; X.coverNames.push_back(n); X.allCovers.insert(n); }
    else id = it->second;
    s.covers.insert(id);
    return true;
}
H(h_observe) {
    Val v = X.simp(s, a[0]);
    s.obs.push_back({v.e, v.c});
    return true;
}
H(h_heap_objects) { X.setRes(s, p, X.k(s.heapLive)); return true; }
H(h_heap_bytes) { X.setRes(s, p, X.k(s.heapBytes)); return true; }
H(h_mem_ok) {
    u64 q, n;
    if (!X.conc(s, a[0], q) || !X.conc(s, a[1], n)) return false;
    int i = n == 0 ? s.mem.findIncl(q) : s.mem.find(q);
    bool ok = i >= 0 && q - s.mem.v[i].o->base + n <= s.mem.v[i].o->size;
    X.setRes(s, p, X.k(ok));
    return true;
}
H(h_alloc_fail) { u64 n; if (!X.conc(s, a[0], n)) return false; s.allocFailBudget = n; return true; }
H(h_max_alloc) { u64 n; if (!X.conc(s, a[0], n)) return false; s.maxAlloc = n; return true; }
H(h_is_engine) { X.setRes(s, p, X.k(1)); return true; }
H(h_trace) {
    if (X.traceLevel) {
        Val v = X.simp(s, a[1]);
        fprintf(stderr, "trace %s = %s\n", readCStr(X, s, a[0].c).c_str(), v.e ? show(X.C, v.e).c_str() : std::to_string(v.c).c_str());
    }
    return true;
}

// ---- allocation ----
// 1 = allocate 'size' bytes, 0 = fail, -1 = state gone
static int allocDecide(Exec& X, State& s, PInst& p, Val sz, u64& size) {
    sz = X.simp(s, sz);
    if (sz.e) {
        E big = X.C.cmpE(ULT, X.C.cst(s.maxAlloc, 64), sz.e);
        State* o = nullptr;
        int r = X.fork(s, big, &o);
        if (r == 3) return -1;
        if (r == 2) X.work.push_back(o);   // re-executes with the size bounded
        if (r == 2 || r == 1) return 0;
        if (!X.conc(s, sz, size)) return -1;
    } else size = sz.c;
    if (size > s.maxAlloc) return 0;
    if (s.allocFailBudget > 0) {
        // the variable is created in both siblings before forking
        E v = freshInput(X, s, "allocfail", 1);
        recordInput(s, "allocfail", v, 1);
        State* o = nullptr;
        int r = X.fork(s, v, &o);
        if (r == 3) return -1;
        if (r == 1) { s.allocFailBudget--; return 0; }
        if (r == 0) return 1;
        // s fails, o succeeds: complete o through a pending flag
        o->pendingAllocOk = true;
        // o re-executes the call: undo the input bookkeeping it will not repeat
        X.work.push_back(o);
        s.allocFailBudget--;
        return 0;
    }
    return 1;
}
static bool doAlloc(Exec& X, State& s, PInst& p, Val sz, u64 align, Kind kd, bool throws, bool zero = false) {
    u64 size;
    int r;
    if (s.pendingAllocOk) {
        s.pendingAllocOk = false;
        if (!X.conc(s, sz, size)) return false;   // the sibling made it concrete
        r = 1;
    } else r = allocDecide(X, s, p, sz, size);
    if (r < 0) return false;
    if (r == 0) {
        if (throws) return X.raise(s, "_ZTISt9bad_alloc");
        X.setRes(s, p, X.k(0));
        return true;
    }
    u64 q = X.allocObj(s, kd, size, align);
    if (zero) s.mem.v[s.mem.findBase(q)].o->zero = true;
    X.setRes(s, p, X.k(q));
    return true;
}
H(h_malloc) { return doAlloc(X, s, p, a[0], 16, K_MALLOC, false); }
H(h_calloc) {
    Val n = X.simp(s, a[0]), m = X.simp(s, a[1]);
    if (n.e || m.e) { u64 x, y; if (!X.conc(s, n, x) || !X.conc(s, m, y)) return false; n = X.k(x); m = X.k(y); }
    u64 t;
    if (__builtin_mul_overflow(n.c, m.c, &t)) { X.setRes(s, p, X.k(0)); return true; }
    return doAlloc(X, s, p, X.k(t), 16, K_MALLOC, false, true);
}
H(h_realloc) {
    u64 q;
    if (!X.conc(s, a[0], q)) return false;
    if (q == 0) return doAlloc(X, s, p, a[1], 16, K_MALLOC, false);
    int i = s.mem.findBase(q);
    if (i < 0 || s.mem.v[i].o->kind != K_MALLOC) { X.violation(s, "memory", "realloc of a pointer that malloc did not return, or already freed"); return false; }
    u64 size;
    int r;
    if (s.pendingAllocOk) { s.pendingAllocOk = false; if (!X.conc(s, a[1], size)) return false; r = 1; }
    else r = allocDecide(X, s, p, a[1], size);
    if (r < 0) return false;
    if (r == 0) { X.setRes(s, p, X.k(0)); return true; }
    u64 old = s.mem.v[s.mem.findBase(q)].o->size;
    u64 n = X.allocObj(s, K_MALLOC, size, 16);
    if (!X.copyBytes(s, n, q, std::min(old, size))) return false;
    if (!X.freeObj(s, q, K_MALLOC, "realloc")) return false;
    X.setRes(s, p, X.k(n));
    return true;
}
static bool doFree(Exec& X, State& s, Val q, Kind kd, const char* what) {
    u64 c;
    if (!X.conc(s, q, c)) return false;
    if (!c) return true;
    return X.freeObj(s, c, kd, what);
}
H(h_free) { return doFree(X, s, a[0], K_MALLOC, "free"); }
H(h_new) { return doAlloc(X, s, p, a[0], 16, K_NEW, true); }
H(h_newarr) { return doAlloc(X, s, p, a[0], 16, K_NEWARR, true); }
H(h_new_nt) { return doAlloc(X, s, p, a[0], 16, K_NEW, false); }
H(h_newarr_nt) { return doAlloc(X, s, p, a[0], 16, K_NEWARR, false); }
H(h_new_al) { return doAlloc(X, s, p, a[0], std::max<u64>(16, a[1].c), K_NEW, true); }
H(h_newarr_al) { return doAlloc(X, s, p, a[0], std::max<u64>(16, a[1].c), K_NEWARR, true); }
H(h_delete) { return doFree(X, s, a[0], K_NEW, "operator delete"); }
H(h_delete_sz) {
    u64 c, n;
    if (!X.conc(s, a[0], c)) return false;
    if (!c) return true;
    if (!X.conc(s, a[1], n)) return false;
    int i = s.mem.findBase(c);
    if (i >= 0 && s.mem.v[i].o->kind == K_NEW && s.mem.v[i].o->size != n) { X.violation(s, "memory", "sized operator delete with a size different from the allocation"); return false; }
    return X.freeObj(s, c, K_NEW, "operator delete");
}
H(h_deletearr) { return doFree(X, s, a[0], K_NEWARR, "operator delete[]"); }
H(h_aligned_alloc) { u64 al; if (!X.conc(s, a[0], al)) return false; return doAlloc(X, s, p, a[1], std::max<u64>(16, al), K_MALLOC, false); }
H(h_posix_memalign) {
    u64 al, dst, size;
    if (!X.conc(s, a[0], dst) || !X.conc(s, a[1], al)) return false;
    int r;
    if (s.pendingAllocOk) { s.pendingAllocOk = false; size = X.simp(s, a[2]).c; r = 1; }
    else r = allocDecide(X, s, p, a[2], size);
    if (r < 0) return false;
    if (r == 0) { X.setRes(s, p, X.k(12)); return true; }
    u64 q = X.allocObj(s, K_MALLOC, size, std::max<u64>(16, al));
    X.writeMem(s, dst, 64, X.k(q));
    X.setRes(s, p, X.k(0));
    return true;
}
H(h_usable_size) {
    u64 c;
    if (!X.conc(s, a[0], c)) return false;
    int i = c ? s.mem.findBase(c) : -1;
    X.setRes(s, p, X.k(i >= 0 ? s.mem.v[i].o->size : 0));
    return true;
}

// ---- memory primitives ----
static bool memcpyCommon(Exec& X, State& s, PInst& p, Val d, Val r, Val n, bool move, bool ret) {
    u64 cn, cd, cr;
    if (!X.conc(s, n, cn)) return false;
    if (!X.conc(s, d, cd) || !X.conc(s, r, cr)) return false;
    if (!move && X.overlap(s, cd, cr, cn)) { X.violation(s, "memory", "memcpy of overlapping ranges"); return false; }
    if (cn && !X.copyBytes(s, cd, cr, cn)) return false;
    if (ret) X.setRes(s, p, X.k(cd));
    return true;
}
H(h_memcpy) { return memcpyCommon(X, s, p, a[0], a[1], a[2], false, true); }
H(h_memmove) { return memcpyCommon(X, s, p, a[0], a[1], a[2], true, true); }
H(h_mempcpy) {
    u64 cn, cd;
    if (!X.conc(s, a[2], cn) || !X.conc(s, a[0], cd)) return false;
    if (!memcpyCommon(X, s, p, a[0], a[1], a[2], false, true)) return false;
    X.setRes(s, p, X.k(cd + cn));
    return true;
}
H(h_memset) {
    u64 n, d;
    if (!X.conc(s, a[2], n) || !X.conc(s, a[0], d)) return false;
    if (n && !X.fillBytes(s, d, X.simp(s, a[1]), n)) return false;
    X.setRes(s, p, X.k(d));
    return true;
}
H(h_memcmp) {
    u64 n, q, r;
    if (!X.conc(s, a[2], n) || !X.conc(s, a[0], q) || !X.conc(s, a[1], r)) return false;
    if (n == 0) { X.setRes(s, p, X.k(0)); return true; }
    Val vq = X.k(q), vr = X.k(r);
    int i = X.resolve(s, vq, n, false);
    if (i < 0) return false;
    int j = X.resolve(s, vr, n, false);
    if (j < 0) return false;
    E res = X.C.cst(0, 32);
    for (u64 k = n; k-- > 0;) {
        Val x = X.loadBytes(s, i, q - s.mem.v[i].o->base + k, 8), y = X.loadBytes(s, j, r - s.mem.v[j].o->base + k, 8);
        E ex = X.ex(x, 8), ey = X.ex(y, 8);
        E eq = X.C.cmpE(EQ, ex, ey);
        if (eq->isConst() && eq->v) continue;
        E ne = X.C.ite(X.C.cmpE(ULT, ex, ey), X.C.cst(~0ULL, 32), X.C.cst(1, 32));
        res = X.C.ite(eq, res, ne);
    }
    X.setRes(s, p, X.mk(res));
    return true;
}

// ---- failure ----
static bool expected(State& s) { if (!s.expectAbort) return false; s.st.clear(); return true; }
H(h_expect_abort) { s.expectAbort = a[0].c & 1; return true; }
H(h_thread) { s.tid = (u8)a[0].c; return true; }
H(h_give) {
    int i = s.mem.find(a[0].c);
    if (i >= 0 && s.mem.v[i].o->kind <= K_NEWARR && s.mem.v[i].o->kind != K_STACK) s.mem.wr(i)->owner = (u8)a[1].c;
    return true;
}
H(h_thread_self) { X.setRes(s, p, X.k(0x1000 + (s.tid ? s.tid : 1) * 16)); return true; }
H(h_abort) { if (expected(s)) return false; X.violation(s, "abort", "abort()"); return false; }
H(h_terminate) { if (expected(s)) return false; X.violation(s, "terminate", "std::terminate()"); return false; }
H(h_assert_fail) {
    if (expected(s)) return false;
    X.violation(s, "assertion", "assert failed: " + readCStr(X, s, a[0].c) + " (" + readCStr(X, s, a[1].c) + ":" + std::to_string(a[2].c) + ")");
    return false;
}
H(h_glibcxx_assert) { X.violation(s, "assertion", "libstdc++ assertion"); return false; }
H(h_pure) { X.violation(s, "terminate", "pure virtual call"); return false; }
H(h_exit) { X.violation(s, "abort", "exit()"); return false; }

// ---- exceptions ----
H(h_cxa_alloc) {
    u64 n;
    if (!X.conc(s, a[0], n)) return false;
    u64 o = X.allocObj(s, K_EXC, n, 16);
    X.setRes(s, p, X.k(o));
    return true;
}
H(h_cxa_free) { int i = s.mem.findBase(a[0].c); if (i >= 0) s.mem.erase(i); return true; }
H(h_cxa_throw) {
    u64 o, ti, d;
    if (!X.conc(s, a[0], o) || !X.conc(s, a[1], ti) || !X.conc(s, a[2], d)) return false;
    s.exc.push_back({o, ti, d, 0});
    X.unwind(s, o);
    return false;
}
H(h_begin_catch) {
    u64 o;
    if (!X.conc(s, a[0], o)) return false;
    auto* x = X.findExc(s, o);
    if (x) { if (x->handlers < 0) x->handlers = -x->handlers + 1; else x->handlers++; }
    if (s.caught.empty() || s.caught.back() != o) s.caught.push_back(o);
    X.setRes(s, p, X.k(o));
    return true;
}
H(h_end_catch) {
    if (s.caught.empty()) return true;
    u64 o = s.caught.back();
    auto* x = X.findExc(s, o);
    if (!x) { s.caught.pop_back(); return true; }
    if (x->handlers < 0) {
        if (++x->handlers == 0) s.caught.pop_back();
        return true;
    }
    if (--x->handlers > 0) return true;
    s.caught.pop_back();
    u64 d = x->dtor;
    for (size_t i = 0; i < s.exc.size(); i++) if (s.exc[i].obj == o) { s.exc.erase(s.exc.begin() + i); break; }
    if (d) {
        auto it = X.fnAt.find(d);
        if (it != X.fnAt.end() && !it->second->decl) {
            std::vector<Val> v{X.k(o)};
            X.pushCall(s, it->second, v, 1);
            return false;   // the Ret of the destructor finishes this call
        }
    }
    return true;
}
H(h_rethrow) {
    if (s.caught.empty()) { X.violation(s, "terminate", "rethrow without exception"); return false; }
    u64 o = s.caught.back();
    auto* x = X.findExc(s, o);
    if (x) x->handlers = -x->handlers;
    X.unwind(s, o);
    return false;
}
H(h_guard_acquire) {
    bool ok;
    Val v = X.readMem(s, a[0].c, 8, ok);
    if (!ok) return false;
    X.setRes(s, p, X.k(v.c == 0));
    return true;
}
H(h_guard_release) { X.writeMem(s, a[0].c, 8, X.k(1)); return true; }
H(h_nop) { return true; }
H(h_zero) { X.setRes(s, p, X.k(0)); return true; }
H(h_ret0) { X.setRes(s, p, a.empty() ? X.k(0) : a[0]); return true; }
H(h_bad_array) { return X.raise(s, "_ZTISt20bad_array_new_length"); }
H(h_dynamic_cast) {  // single inheritance
    u64 o, dst;
    if (!X.conc(s, a[0], o) || !X.conc(s, a[2], dst)) return false;
    bool ok;
    u64 vt;
    Val v = X.readMem(s, o, 64, ok);
    if (!ok || !X.conc(s, v, vt)) return false;
    Val ti = X.readMem(s, vt - 8, 64, ok);
    if (!ok) return false;
    Val off = X.readMem(s, vt - 16, 64, ok);
    if (!ok) return false;
    X.setRes(s, p, X.k(X.tiDerives(ti.c, dst) ? o + off.c : 0));
    return true;
}
H(h_bad_cast) { return X.raise(s, "_ZTISt8bad_cast"); }
H(h_param) {
    std::string n = readCStr(X, s, a[0].c);
    auto it = X.params.find(n);
    E e = X.C.cst(it == X.params.end() ? a[1].c : it->second, 64);
    recordInput(s, n, e, 64);
    X.setRes(s, p, X.k(e->v));
    return true;
}
H(h_vformat) {  // text not modelled: returns an empty std::string
    u64 q;
    if (!X.conc(s, a[0], q)) return false;
    X.writeMem(s, q, 64, X.k(q + 16));
    X.writeMem(s, q + 8, 64, X.k(0));
    X.writeMem(s, q + 16, 8, X.k(0));
    return true;
}
H(h_clock) {
    // an arbitrary monotone clock: never behind the previous reading, and it advances by at most 2^20 ns per reading
    std::string n = "clock";
    E v = freshInput(X, s, n, 20);
    recordInput(s, n, v, 20);
    E prev = s.clock ? s.clock : X.C.cst(1000000000ULL, 64);
    E t = X.C.bin(ADD, prev, X.C.zext(v, 64));
    s.clock = t;
    X.setRes(s, p, X.mk(t));
    return true;
}
H(h_memory_resource_dtor) { return true; }

void Exec::installHandlers() {
    auto& h = handlers;
    h["sym_u64"] = h_u64; h["sym_u32"] = h_u32; h["sym_u16"] = h_u16; h["sym_u8"] = h_u8; h["sym_bool"] = h_bool;
    h["sym_bytes"] = h_bytes; h["sym_range"] = h_range; h["sym_pick"] = h_pick; h["sym_concretize"] = h_concretize;
    h["sym_assume"] = h_assume; h["sym_assert"] = h_assert; h["sym_cover"] = h_cover; h["sym_observe"] = h_observe;
    h["sym_thread"] = h_thread; h["sym_give"] = h_give; h["sym_expect_abort"] = h_expect_abort; h["pthread_self"] = h_thread_self;
    h["sym_heap_objects"] = h_heap_objects; h["sym_heap_bytes"] = h_heap_bytes; h["sym_mem_ok"] = h_mem_ok;
    h["sym_alloc_fail"] = h_alloc_fail; h["sym_max_alloc"] = h_max_alloc; h["sym_is_engine"] = h_is_engine; h["sym_trace"] = h_trace;
    h["malloc"] = h_malloc; h["calloc"] = h_calloc; h["realloc"] = h_realloc; h["free"] = h_free;
    h["aligned_alloc"] = h_aligned_alloc; h["posix_memalign"] = h_posix_memalign; h["malloc_usable_size"] = h_usable_size;
    h["_Znwm"] = h_new; h["_Znam"] = h_newarr; h["_ZnwmRKSt9nothrow_t"] = h_new_nt; h["_ZnamRKSt9nothrow_t"] = h_newarr_nt;
    h["_ZnwmSt11align_val_t"] = h_new_al; h["_ZnamSt11align_val_t"] = h_newarr_al;
    h["_ZdlPv"] = h_delete; h["_ZdlPvm"] = h_delete_sz; h["_ZdaPv"] = h_deletearr; h["_ZdaPvm"] = h_deletearr;
    h["_ZdlPvSt11align_val_t"] = h_delete; h["_ZdlPvmSt11align_val_t"] = h_delete_sz; h["_ZdaPvSt11align_val_t"] = h_deletearr;
    h["_ZdaPvmSt11align_val_t"] = h_deletearr; h["_ZdlPvRKSt9nothrow_t"] = h_delete; h["_ZdaPvRKSt9nothrow_t"] = h_deletearr;
    h["memcpy"] = h_memcpy; h["memmove"] = h_memmove; h["mempcpy"] = h_mempcpy; h["memset"] = h_memset; h["memcmp"] = h_memcmp; h["bcmp"] = h_memcmp;
    h["abort"] = h_abort; h["_ZSt9terminatev"] = h_terminate; h["__assert_fail"] = h_assert_fail; h["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = h_glibcxx_assert;
    h["__cxa_pure_virtual"] = h_pure; h["exit"] = h_exit; h["_exit"] = h_exit; h["quick_exit"] = h_exit;
    h["__cxa_allocate_exception"] = h_cxa_alloc; h["__cxa_free_exception"] = h_cxa_free; h["__cxa_throw"] = h_cxa_throw;
    h["__cxa_begin_catch"] = h_begin_catch; h["__cxa_end_catch"] = h_end_catch; h["__cxa_rethrow"] = h_rethrow;
    h["__cxa_guard_acquire"] = h_guard_acquire; h["__cxa_guard_release"] = h_guard_release; h["__cxa_guard_abort"] = h_nop;
    h["__cxa_atexit"] = h_zero; h["__cxa_thread_atexit"] = h_zero; h["atexit"] = h_zero;
    h["__cxa_throw_bad_array_new_length"] = h_bad_array; h["__dynamic_cast"] = h_dynamic_cast; h["__cxa_bad_cast"] = h_bad_cast; h["__cxa_demangle"] = h_zero; h["sym_param"] = h_param;
    h["_ZN3fmt2v97vformatB5cxx11ENS0_17basic_string_viewIcEENS0_17basic_format_argsINS0_20basic_format_contextINS0_8appenderEcEEEE"] = h_vformat;
    h["_ZNSt6chrono3_V212steady_clock3nowEv"] = h_clock; h["_ZNSt6chrono3_V212system_clock3nowEv"] = h_clock;
    h["_ZNSt3pmr15memory_resourceD2Ev"] = h_nop; h["_ZNSt3pmr15memory_resourceD1Ev"] = h_nop;
    h["_ZNSt8ios_base4InitC1Ev"] = h_nop; h["_ZNSt8ios_base4InitD1Ev"] = h_nop; h["fflush"] = h_zero;
    h["printf"] = h_zero; h["fprintf"] = h_zero; h["puts"] = h_zero; h["putchar"] = h_zero; h["fwrite"] = h_zero; h["fputs"] = h_zero; h["fputc"] = h_zero;
    h["sched_yield"] = h_zero;
}

static bool startsWith(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }

void Exec::external(State& s, PInst& p, Fn* f, std::vector<Val>& a) {
    const std::string& n = f->name;
    usedExternals.insert(demangle(n));
    // library throw helpers
    struct T { const char* frag; const char* ti; };
    static const T th[] = {{"__throw_length_error", "_ZTISt12length_error"}, {"__throw_out_of_range", "_ZTISt12out_of_range"},
        {"__throw_logic_error", "_ZTISt11logic_error"}, {"__throw_invalid_argument", "_ZTISt16invalid_argument"},
        {"__throw_bad_alloc", "_ZTISt9bad_alloc"}, {"__throw_bad_array_new_length", "_ZTISt20bad_array_new_length"},
        {"__throw_bad_function_call", "_ZTISt17bad_function_call"}, {"__throw_runtime_error", "_ZTISt13runtime_error"},
        {"__throw_bad_cast", "_ZTISt8bad_cast"}, {"__throw_range_error", "_ZTISt11range_error"}, {"__throw_overflow_error", "_ZTISt14overflow_error"},
        {"__throw_bad_variant_access", "_ZTISt18bad_variant_access"}, {"__throw_system_error", "_ZTISt12system_error"}};
    if (startsWith(n, "_ZSt")) for (auto& t : th) if (n.find(t.frag) != std::string::npos) { raise(s, t.ti); return; }
    // constructors and destructors of the standard exception classes keep no state we observe
    static const char* exc[] = {"12out_of_range", "12length_error", "11logic_error", "16invalid_argument", "13runtime_error", "11range_error", "12domain_error",
        "14overflow_error", "9bad_alloc", "8bad_cast", "9exception", "17bad_function_call", "18bad_variant_access", "12system_error"};
    if (startsWith(n, "_ZNSt")) for (auto e : exc) {
        std::string q = n.substr(5);
        if (startsWith(q, e)) {
            std::string r = q.substr(strlen(e));
            if (startsWith(r, "C1") || startsWith(r, "C2") || startsWith(r, "D0") || startsWith(r, "D1") || startsWith(r, "D2") || startsWith(r, "aS")) { if (p.n) setRes(s, p, a.empty() ? k(0) : a[0]); finishCall(s); return; }
        }
    }
    // stream output: value not observed
    if (startsWith(n, "_ZNSo") || startsWith(n, "_ZStls") || startsWith(n, "_ZSt16__ostream_insert") || startsWith(n, "_ZSt4endl") || startsWith(n, "_ZSt5flush") || startsWith(n, "_ZNSolsE")) {
        if (p.n) setRes(s, p, a.empty() ? k(0) : a[0]);
        finishCall(s);
        return;
    }
    inc(s, "unsupported external " + demangle(n));
}

void Exec::intrinsic(State& s, PInst& p, Fn* f, std::vector<Val>& a) {
    Frame& fr = top(s);
    unsigned w = p.w;
    auto lanes = [&](auto fn) {
        for (u32 i = 0; i < p.n; i++) fr.r[p.dst + i] = fn(i);
        finishCall(s);
    };
    unsigned id = f->F->getIntrinsicID();
    switch (id) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::var_annotation:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::sideeffect:
            if (id == Intrinsic::assume) {
                // an assumption the code promises to the compiler: check it
                Val c = simp(s, a[0]);
                if (!c.e && !(c.c & 1)) { violation(s, "unreachable", "llvm.assume of a false condition"); return; }
            }
            finishCall(s);
            return;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address:
            lanes([&](u32 i) { return a[i]; });
            return;
        case Intrinsic::is_constant: setRes(s, p, k(0)); finishCall(s); return;
        case Intrinsic::objectsize: setRes(s, p, k(a[1].c & 1 ? 0 : maskw(w))); finishCall(s); return;
        case Intrinsic::stacksave: setRes(s, p, k(0)); finishCall(s); return;
        case Intrinsic::stackrestore: finishCall(s); return;
        case Intrinsic::eh_typeid_for: setRes(s, p, k(idOf(a[0].c))); finishCall(s); return;
        case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violation(s, "abort", "trap"); return;
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: if (memcpyCommon(*this, s, p, a[0], a[1], a[2], false, false)) finishCall(s); return;
        case Intrinsic::memmove: if (memcpyCommon(*this, s, p, a[0], a[1], a[2], true, false)) finishCall(s); return;
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            u64 n, d;
            if (!conc(s, a[2], n) || !conc(s, a[0], d)) return;
            if (n && !fillBytes(s, d, simp(s, a[1]), n)) return;
            finishCall(s);
            return; }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned bw = p.argw[0];
            E x = ex(a[0], bw), y = ex(a[1], bw);
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            ks::Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? ADD
                      : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? SUB : MUL;
            E r = C.bin(op, x, y), ov;
            if (!sg && op == ADD) ov = C.cmpE(ULT, r, x);
            else if (!sg && op == SUB) ov = C.cmpE(ULT, x, y);
            else if (!sg && op == MUL && y->isConst() && y->w <= 64) ov = y->v == 0 ? C.fls() : C.cmpE(ULT, C.cst(maskw(bw) / y->v, bw), x);
            else if (!sg && op == MUL && x->isConst() && x->w <= 64) ov = x->v == 0 ? C.fls() : C.cmpE(ULT, C.cst(maskw(bw) / x->v, bw), y);
            else {
                unsigned ww = op == MUL ? bw * 2 : bw + 1;
                E wx = sg ? C.sext(x, ww) : C.zext(x, ww), wy = sg ? C.sext(y, ww) : C.zext(y, ww);
                E wr = C.bin(op, wx, wy);
                ov = C.notb(C.cmpE(EQ, wr, sg ? C.sext(C.extract(wr, 0, bw), ww) : C.zext(C.extract(wr, 0, bw), ww)));
            }
            setRes(s, p, mk(r), 0);
            setRes(s, p, mk(ov), 1);
            finishCall(s);
            return; }
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
            u32 n = p.n;
            lanes([&](u32 i) {
                E x = ex(a[i], w), y = ex(a[n + i], w);
                E lt = C.cmpE(id == Intrinsic::umax || id == Intrinsic::umin ? ULT : SLT, x, y);
                bool mx = id == Intrinsic::umax || id == Intrinsic::smax;
                return mk(C.ite(lt, mx ? y : x, mx ? x : y));
            });
            return; }
        case Intrinsic::abs: lanes([&](u32 i) { E x = ex(a[i], w); return mk(C.ite(C.cmpE(SLT, x, C.cst(0, w)), C.bin(SUB, C.cst(0, w), x), x)); }); return;
        case Intrinsic::usub_sat: { u32 n = p.n; lanes([&](u32 i) { E x = ex(a[i], w), y = ex(a[n + i], w); return mk(C.ite(C.cmpE(ULT, x, y), C.cst(0, w), C.bin(SUB, x, y))); }); return; }
        case Intrinsic::uadd_sat: { u32 n = p.n; lanes([&](u32 i) { E x = ex(a[i], w), y = ex(a[n + i], w); E r = C.bin(ADD, x, y); return mk(C.ite(C.cmpE(ULT, r, x), C.cst(maskw(w), w), r)); }); return; }
        case Intrinsic::ctpop:
            lanes([&](u32 i) {
                if (!a[i].e) return k(__builtin_popcountll(a[i].c));
                E r = C.cst(0, w);
                for (unsigned b = 0; b < w; b++) r = C.bin(ADD, r, C.zext(C.extract(a[i].e, b, 1), w));
                return mk(r);
            });
            return;
        case Intrinsic::ctlz:
            lanes([&](u32 i) {
                if (!a[i].e) return k(a[i].c ? __builtin_clzll(a[i].c) - (64 - w) : w);
                u64 lo = a[i].e->umin, hi = a[i].e->umax;
                unsigned from = lo ? 63 - __builtin_clzll(lo) : 0, to = hi ? 63 - __builtin_clzll(hi) : 0;
                if (lo && from == to) return k(w - 1 - from);
                E r = lo ? C.cst(w - 1 - from, w) : C.cst(w, w);
                for (unsigned b = lo ? from + 1 : 0; b <= to && b < w; b++) r = C.ite(C.extract(a[i].e, b, 1), C.cst(w - 1 - b, w), r);
                return mk(r);
            });
            return;
        case Intrinsic::cttz:
            lanes([&](u32 i) {
                if (!a[i].e) return k(a[i].c ? __builtin_ctzll(a[i].c) : w);
                E r = C.cst(w, w);
                for (unsigned b = w; b-- > 0;) r = C.ite(C.extract(a[i].e, b, 1), C.cst(b, w), r);
                return mk(r);
            });
            return;
        case Intrinsic::bswap:
            lanes([&](u32 i) {
                E x = ex(a[i], w), r = nullptr;
                for (unsigned b = 0; b < w; b += 8) { E y = C.extract(x, b, 8); r = r ? C.concat(r, y) : y; }
                return mk(r);
            });
            return;
        case Intrinsic::fshl: case Intrinsic::fshr: {
            u32 n = p.n;
            lanes([&](u32 i) {
                E hi = ex(a[i], w), lo = ex(a[n + i], w), sh = C.bin(UREM, ex(a[2 * n + i], w), C.cst(w, w));
                if (sh->isConst()) {
                    unsigned c = sh->v;
                    if (c == 0) return mk(id == Intrinsic::fshl ? hi : lo);
                    if (id == Intrinsic::fshr) c = w - c;
                    return mk(C.concat(C.extract(hi, 0, w - c), C.extract(lo, w - c, c)));
                }
                E cat = C.concat(hi, lo), s2 = C.zext(sh, 2 * w);
                return mk(id == Intrinsic::fshl ? C.extract(C.bin(SHL, cat, s2), w, w) : C.extract(C.bin(LSHR, cat, s2), 0, w));
            });
            return; }
        case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
            ks::Op o = id == Intrinsic::vector_reduce_or ? OR : id == Intrinsic::vector_reduce_and ? AND : id == Intrinsic::vector_reduce_add ? ADD : XOR;
            Val r = a[0];
            for (size_t i = 1; i < a.size(); i++) r = binV(o, r, a[i], w);
            setRes(s, p, r);
            finishCall(s);
            return; }
        case Intrinsic::fabs: { u64 c; if (!conc(s, a[0], c)) return; setRes(s, p, k(c & (maskw(w) >> 1))); finishCall(s); return; }
        case Intrinsic::fmuladd: {
            u64 x, y, z;
            if (!conc(s, a[0], x) || !conc(s, a[1], y) || !conc(s, a[2], z)) return;
            setRes(s, p, k(w == 32 ? fromD((float)toD(x, w) * (float)toD(y, w) + (float)toD(z, w), w) : fromD(toD(x, w) * toD(y, w) + toD(z, w), w)));
            finishCall(s);
            return; }
        case Intrinsic::vastart: case Intrinsic::vaend: inc(s, "varargs"); return;
        default: inc(s, "unsupported intrinsic " + f->name); return;
    }
}
