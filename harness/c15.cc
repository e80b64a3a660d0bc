// C15: stdb_vector stays in its buffer, keeps its capacity promises and survives exhausted memory.
#define VT_MAX 160
#define VT_ARG 8
#include "vec_env.h"
#include <new>
using namespace vt;
// operations of a history do not reallocate while the size stays within the capacity
template <class T> static void promises() {
    unsigned N = (unsigned)sym_param("N", 3), C = (unsigned)sym_param("C", 3), K = (unsigned)sym_param("K", 1);
    stdb_vector<T> a;
    Seq m;
    build(a, m, (unsigned)sym_choose("n", 0, N), (unsigned)sym_pick("spare", 0, 3));
    for (unsigned i = 0; i < K; i++) {
        unsigned op = (unsigned)(i == 0 ? sym_choose("op0", 0, 22) : sym_pick("op", 0, 22));
        T* d = a.data();
        size_t cap = a.capacity(), objs = sym_heap_objects(), n = a.size();
        if (!apply(a, m, op, C)) return;
        sym_assert(a.size() <= a.capacity() && a.size() <= a.max_size(), "size within capacity and max_size");
        sym_assert(!a.capacity() || sym_mem_ok(a.data(), a.capacity() * sizeof(T)), "the whole capacity is allocated");
        if (op == 22) continue;   // reserve
        if (a.size() <= cap) {
            sym_assert(a.data() == d && a.capacity() == cap, "no reallocation while the size stays within the capacity");
            if (!tracked<T>) sym_assert(sym_heap_objects() == objs, "no allocation while the size stays within the capacity");
            sym_cover("in place");
        } else {
            if (op <= 4 || op == 8 || op == 9) sym_assert(a.capacity() > cap && (cap * sizeof(T) < 64 || a.capacity() * 4 >= cap * 5), "growth is geometric");
            sym_cover("grown");
        }
        (void)n;
    }
}
ENTRY(c15_promises_int) { promises<int>(); }
ENTRY(c15_promises_class) { promises<Full>(); }
ENTRY(c15_promises_huge) { promises<Huge>(); }
ENTRY(c15_promises_byte) { promises<unsigned char>(); }

// any 64-bit request, with memory for a few elements only
template <class T> static void any_request() {
    sym_max_alloc(sym_param("M", 16) * sizeof(T));
    stdb_vector<T> a;
    Seq m;
    build(a, m, (unsigned)sym_choose("n", 0, 3), (unsigned)sym_pick("spare", 0, 2));
    unsigned op = (unsigned)sym_choose("op0", 0, 7);
    size_t k = sym_u64("request"), cap = a.capacity(), n = a.size();
    T* d = a.data();
    bool thrown = false;
    try {
        int x = fresh<T>();
        const T t(Mk<T>::of(x));
        if (op == 0) {
            a.reserve(k);
            sym_assert(a.capacity() >= k, "reserve gives the capacity");
        } else if (op == 1) {
            a.resize(k);
            sym_assert(a.size() == k, "the size is the requested one");
            for (unsigned i = (unsigned)n; i < k; i++) m.v[i] = 0;
            m.n = (unsigned)a.size();
        } else if (op == 2) {
            a.resize(k, t);
            sym_assert(a.size() == k, "the size is the requested one");
            for (unsigned i = (unsigned)n; i < k; i++) m.v[i] = x;
            m.n = (unsigned)a.size();
        } else if (op == 3) {
            a.assign(k, t);
            sym_assert(a.size() == k, "the size is the requested one");
            for (unsigned i = 0; i < k; i++) m.v[i] = x;
            m.n = (unsigned)a.size();
        } else if (op == 4) {
            unsigned p = (unsigned)sym_pick("pos", 0, n);
            a.insert(a.cbegin() + p, k, t);
            sym_assert(a.size() == n + k, "the size grows by the requested count");
            m.ins(p, (unsigned)sym_concretize(k), &x, true);
        } else if (op == 5) {
            auto b = a.get_writebuffer(k);
            sym_assert(b.size() == k && a.size() == n + k && (!k || b.data() == a.data() + n), "the write buffer lies behind the elements");
            sym_assert(a.size() <= a.capacity() && (!k || sym_mem_ok(b.data(), k * sizeof(T))), "the write buffer is part of the vector's memory");
            for (size_t i = 0; i < k; i++) {
                int y = fresh<T>();
                new (&b[i]) T(Mk<T>::of(y));
                m.v[m.n++] = y;
            }
        } else if (op == 6) {
            stdb_vector<T> b(k);
            sym_assert(b.size() == k, "the size is the requested one");
            bool ok = true;
            for (size_t i = 0; i < k; i++) ok &= val(b[i]) == 0;
            sym_assert(ok, "constructed elements are value-initialised");
        } else {
            stdb_vector<T> b(k, t);
            sym_assert(b.size() == k, "the size is the requested one");
            bool ok = true;
            for (size_t i = 0; i < k; i++) ok &= val(b[i]) == x;
            sym_assert(ok, "constructed from a value");
        }
        sym_cover("served");
    } catch (const std::bad_alloc&) {
        thrown = true;
        sym_assert(k > sym_param("M", 16) - n || (op == 4 || op == 5), "requests that fit are served");
        sym_assert(a.data() == d && a.capacity() == cap, "a refused request leaves the buffer");
        sym_cover("refused");
    }
    same(a, m);
    sym_assert(!a.capacity() || sym_mem_ok(a.data(), a.capacity() * sizeof(T)), "the whole capacity is allocated");
    sym_assert(a.capacity() <= a.max_size() && a.size() <= a.capacity(), "within max_size");
    if (!thrown && op != 6 && op != 7 && a.size() <= cap && op) sym_assert(a.data() == d && a.capacity() == cap, "no reallocation while the size stays within the capacity");
}
ENTRY(c15_any_int) { any_request<int>(); }
ENTRY(c15_any_byte) { any_request<unsigned char>(); }
ENTRY(c15_any_pod) { any_request<Pod>(); }
ENTRY(c15_any_track) { any_request<Track>(); }

// memory is exhausted at any point of a history
template <class T> static void oom() {
    unsigned N = (unsigned)sym_param("N", 2), C = (unsigned)sym_param("C", 2), K = (unsigned)sym_param("K", 1);
    {
        stdb_vector<T> a;
        Seq m;
        build(a, m, (unsigned)sym_choose("n", 0, N), (unsigned)sym_pick("spare", 0, 1));
        for (unsigned i = 0; i < K; i++) {
            unsigned op = (unsigned)(i == 0 ? sym_choose("op0", 0, OPS - 1) : sym_pick("op", 0, OPS - 1));
            Seq before = m;
            sym_alloc_fail(1);
            try {
                bool done = apply(a, m, op, C);
                sym_alloc_fail(0);
                if (!done) return;
            } catch (const std::bad_alloc&) {
                sym_alloc_fail(0);
                sym_cover("exhausted");
                m = before;
                if (op <= 2 || op == 17 || op == 18 || op == 22 || op == 23) same(a, m, "the elements survive exhausted memory");
                else {
                    sym_assert(a.size() <= a.capacity(), "size within capacity");
                    m.n = (unsigned)sym_concretize(a.size());
                    for (unsigned q = 0; q < m.n; q++) m.v[q] = val(a.data()[q]);
                }
            }
            same(a, m);
            sym_assert(!a.capacity() || sym_mem_ok(a.data(), a.capacity() * sizeof(T)), "the whole capacity is allocated");
            balance<T>(m.n);
        }
        int x = fresh<T>();
        a.emplace_back(Mk<T>::of(x));
        m.v[m.n++] = x;
        same(a, m);
    }
    balance<T>(0);
    sym_assert(sym_heap_objects() == 0, "no memory is left");
}
ENTRY(c15_oom_int) { oom<int>(); }
ENTRY(c15_oom_track) { oom<Track>(); }
ENTRY(c15_oom_rel) { oom<RelPlain>(); }

// growth by pushing, from any fill level and around the page limit
template <class T> static void growth() {
    static const unsigned F[] = {1, 2, 3, 15, 16, 17, 63, 64, 65, 100, 1000, 131072 / sizeof(T) - 1, 131072 / sizeof(T), 131072 / sizeof(T) + 1, 262144 / sizeof(T)};
    unsigned k = (unsigned)sym_pick("fi", 0, sizeof(F) / sizeof(*F) - 1);
    size_t n = F[k] ? F[k] : 1;
    stdb_vector<T> a;
    a.reserve(n);
    sym_assert(a.capacity() >= n, "reserve gives the capacity");
    a.template resize<Safety::Unsafe>(a.capacity());
    n = a.size();
    T first = Mk<T>::of(fresh<T>()), last = Mk<T>::of(fresh<T>()), x = Mk<T>::of(fresh<T>());
    a[0] = first;
    a[n - 1] = last;
    size_t cap = a.capacity();
    unsigned how = (unsigned)sym_pick("how", 0, 3);
    if (how == 0) a.push_back(x);
    else if (how == 1) a.emplace_back(x);
    else if (how == 2) a.insert(a.cend(), x);
    else a.emplace(a.end(), x);
    sym_assert(a.capacity() > cap && (cap * sizeof(T) < 64 || a.capacity() * 4 >= cap * 5), "growth is geometric");
    sym_assert(a.size() == n + 1 && val(a[n]) == val(x) && (n == 1 || val(a[0]) == val(first)) && val(a[n - 1]) == val(last), "growing keeps the elements");
    sym_assert(sym_mem_ok(a.data(), a.capacity() * sizeof(T)), "the whole capacity is allocated");
    a.shrink_to_fit();
    sym_assert(a.capacity() == a.size() && a.size() == n + 1 && val(a[n]) == val(x) && val(a[n - 1]) == val(last), "shrink_to_fit keeps the elements and releases the spare capacity");
    sym_cover("done");
}
ENTRY(c15_growth_int) { growth<int>(); }
ENTRY(c15_growth_byte) { growth<unsigned char>(); }
ENTRY(c15_growth_huge) { growth<Huge>(); }

// fill() and the write buffer, one after the other
static unsigned fill_n;
static int fill_v[64];
template <class T> static size_t filler(T* p) {
    if (p) for (unsigned i = 0; i < fill_n; i++) new (p + i) T(Mk<T>::of(fill_v[i]));
    return fill_n;
}
template <class T> static void fills() {
    static const unsigned L[] = {0, 1, 2, 3, 15, 16, 30}, F[] = {0, 1, 2, 3, 4, 14, 18, 40};
    unsigned C = (unsigned)sym_param("C", 4), B = (unsigned)sym_param("B", 1);   // B: which lengths
    stdb_vector<T> a;
    Seq m;
    build(a, m, B ? L[sym_choose("length", 0, 6)] : (unsigned)sym_choose("n", 0, 3), (unsigned)sym_pick("spare", 0, 3));
    for (unsigned r = 0; r < 2; r++) {
        fill_n = B ? F[sym_pick("counts", 0, 7)] : (unsigned)sym_pick("count", 0, C);
        bool in_place = fill_n <= a.capacity() - a.size();
        T* d = a.data();
        if (sym_pick("how", 0, 1)) {
            for (unsigned i = 0; i < fill_n; i++) fill_v[i] = m.v[m.n++] = fresh<T>();
            if (in_place && sym_pick("unsafe", 0, 1)) a.template fill<Safety::Unsafe>(filler<T>); else a.fill(filler<T>);
            sym_cover("filled");
        } else {
            auto b = in_place && sym_pick("unsafe", 0, 1) ? a.template get_writebuffer<Safety::Unsafe>(fill_n) : a.get_writebuffer(fill_n);
            sym_assert(b.size() == fill_n, "the write buffer has the requested size");
            for (unsigned i = 0; i < fill_n; i++) new (&b[i]) T(Mk<T>::of(m.v[m.n++] = fresh<T>()));
            sym_cover("buffer");
        }
        if (in_place) sym_assert(a.data() == d, "no reallocation while the size stays within the capacity");
        same(a, m);
    }
}
ENTRY(c15_fill) { fills<int>(); }
ENTRY(c15_fill_huge) { fills<Huge>(); }
ENTRY(c15_fill_class) { fills<Track>(); }
ENTRY(c15_fill_few) { fills<int>(); }
