// C32: an element whose construction throws.
#include "vec_env.h"
#include <stdexcept>
namespace vt { template <bool R> struct Throws; }
namespace stdb { template <> struct Relocatable<vt::Throws<true>> : std::true_type {}; }
namespace vt {
static bool armed, thrown;
// a class with its own memory whose construction from a value or another element may throw; moves do not
// R: its objects may be moved by memcpy (and do not know where they live)
template <bool R> struct Throws {
    const void* self;
    int* p;
    bool here() const { return R ? self == (const void*)1 : self == this; }
    static void may() { if (armed && sym_pick("throw", 0, 1)) { armed = false; thrown = true; throw std::runtime_error("element"); } }
    explicit Throws(int v) : self(R ? (const void*)1 : this), p(nullptr) { may(); p = new int(v); live++; }
    Throws() : Throws(0) {}
    Throws(const Throws& o) : self(R ? (const void*)1 : this), p(nullptr) { sym_assert(o.here() && o.p, "only living elements are copied"); may(); p = new int(*o.p); live++; }
    Throws(Throws&& o) noexcept : self(R ? (const void*)1 : this), p(o.p) { sym_assert(o.here(), "only living elements are moved"); o.p = nullptr; live++; }
    Throws& operator=(const Throws& o) { sym_assert(here() && o.here() && o.p, "only living elements are assigned"); if (this != &o) { may(); int* q = new int(*o.p); delete p; p = q; } return *this; }
    Throws& operator=(Throws&& o) noexcept { sym_assert(here() && o.here(), "only living elements are assigned"); if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
    ~Throws() { sym_assert(here(), "only living elements are destroyed"); self = nullptr; delete p; live--; }
    int get() const { sym_assert(here() && p, "no moved-from element is left in the sequence"); return *p; }
};
template <bool R> struct Mk<Throws<R>> { static Throws<R> of(int v) { bool a = armed; armed = false; Throws<R> t(v); armed = a; return t; } };
template <bool R> static inline bool operator==(const Throws<R>& a, const Throws<R>& b) { return a.get() == b.get(); }
template <class T> static void run() {
    unsigned N = (unsigned)sym_param("N", 3), C = (unsigned)sym_param("C", 3);
    {
        stdb_vector<T> a;
        Seq m;
        unsigned n = (unsigned)sym_choose("n", 0, N), spare = (unsigned)sym_pick("spare", 0, 2);
        build(a, m, n, spare);
        Seq old = m;
        unsigned op = (unsigned)sym_choose("op0", 0, OPS - 1);
        armed = true;
        bool ok = true;
        try { ok = apply(a, m, op, C); } catch (const std::runtime_error&) { sym_cover("caught"); }
        armed = false;
        if (!ok) return;
        if (!thrown) same(a, m);
        else {
            sym_assert(a.size() <= a.capacity(), "size within capacity");
            for (unsigned i = 0; i < a.size(); i++) sym_assert(a.data()[i].here(), "exactly the elements of the vector are alive");
            sym_assert(live == (int64_t)a.size(), "exactly the elements of the vector are alive");
            if (op <= 2) same(a, old, "a failed push_back changes nothing");
            a.clear();
            a.emplace_back(5);
            sym_assert(a.size() == 1 && a[0].get() == 5, "the vector can be used again");
        }
        sym_cover("done");
    }
    sym_assert(live == 0, "every element is destroyed once");
    sym_assert(sym_heap_objects() == 0, "no memory is left");
}
}  // namespace vt
ENTRY(c32_throw) { vt::run<vt::Throws<false>>(); }
ENTRY(c32_throw_rel) { vt::run<vt::Throws<true>>(); }
