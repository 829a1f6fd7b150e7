// C11: the simulator's event queue against a reference multimap.
#include "common.h"
#include "adevs/adevs.h"
#include <algorithm>
double adevs::double_fcmp::epsilon = 1e-9;

// how the grid is laid out on a floating point type: far apart, neighbouring numbers, neighbouring numbers near zero
static int g_grid = 0;
template <class R> static R lay(i64 g) {
    switch (g_grid) {
        case 1: return (R)1 + (R)g * std::numeric_limits<R>::epsilon();
        case 2: return (R)g * std::numeric_limits<R>::denorm_min();
        case 3: return (R)g * std::ldexp((R)1, 70);
        default: return (R)g * (R)0.375;
    }
}
template <class T> struct QT { static T mk(i64 g, Rng &) { return lay<T>(g); } static i64 maxg() { return 1 << 22; } };
template <> struct QT<double> { static double mk(i64 g, Rng &) { return lay<double>(g); } static i64 maxg() { return 1ll << 50; } };
template <> struct QT<int> { static int mk(i64 g, Rng &) { return (int)g; } static i64 maxg() { return INT32_MAX - 1; } };
template <> struct QT<long> { static long mk(i64 g, Rng &) { return g; } static i64 maxg() { return INT64_MAX - 1; } };
template <> struct QT<adevs::double_fcmp> {
    // the same grid point is put in with rounding differences far below the tolerance
    static adevs::double_fcmp mk(i64 g, Rng &r) { return adevs::double_fcmp(g * 0.375 * (1 + 1e-13 * (double)r.in(-9, 9))); }
    static i64 maxg() { return 1 << 22; }
};
template <class R> struct QT<adevs::sd_time<R>> {
    // neighbouring grid points share the real part
    static adevs::sd_time<R> mk(i64 g, Rng &) { if constexpr (std::is_integral<R>::value) return adevs::sd_time<R>((R)(g / 3), (int)(g % 3)); else return adevs::sd_time<R>(lay<R>(g / 3), (int)(g % 3)); }
    static i64 maxg() { return 1 << 22; }
};

template <class T> struct M : adevs::Atomic<int, T> {
    typedef std::list<adevs::PinValue<int>> L;
    void delta_int() {}
    void delta_ext(T, L const &) {}
    void delta_conf(L const &) {}
    void output_func(L &) {}
    T ta() { return adevs_inf<T>(); }
};

template <class T> static void queue_case(Ctx &cx, char const* tn) {
    Rng r(cx.rngseed());
    typedef adevs::Schedule<int, T> S;
    g_grid = r.pct(50) ? 0 : 1 + (int)r.below(3);
    static char const* const grids[] = {"times_apart", "times_one_ulp_apart", "times_near_zero", "times_large"};
    cx.cnt(grids[g_grid]);
    size_t nm = r.below(250) == 0 ? r.in(4000, 20000) : r.pct(15) ? r.in(200, 1500) : r.pct(30) ? r.in(40, 200) : r.in(1, 40);
    std::vector<std::unique_ptr<M<T>>> m;
    for (size_t i = 0; i < nm; i++) m.emplace_back(new M<T>());
    std::map<void*, size_t> idx;
    for (size_t i = 0; i < nm; i++) idx[static_cast<adevs::Atomic<int, T>*>(m[i].get())] = i;
    u64 trace = 0;
    int rounds = 1 + r.below(3);
    for (int round = 0; round < rounds; round++) {       // models reused in a new queue once they are out of the old one
        unsigned cap = r.pct(50) ? r.below(6) : r.pct(50) ? 100 : r.in(2, 300);
        std::unique_ptr<S> q(r.pct(20) ? new S() : new S(cap));
        std::map<i64, std::set<size_t>> by;
        std::map<size_t, i64> at;
        int style = r.below(6);
        i64 now = 0;
        auto draw = [&]() -> i64 {
            i64 g;
            switch (style) {
                case 0: g = r.below(4); break;
                case 1: g = r.below(nm * 3 + 1); break;
                case 2: g = now + r.below(5); break;          // like a simulation: never before now
                case 3: g = r.pct(80) ? 7 : r.below(20); break;
                case 4: g = (i64)(r.next() % (u64)QT<T>::maxg()); break;
                default: g = r.pct(10) ? QT<T>::maxg() - (i64)r.below(3) : (i64)r.below(1000); break;
            }
            return std::min(g, QT<T>::maxg());
        };
        auto put = [&](size_t i, i64 g) {
            auto it = at.find(i);
            if (it != at.end()) { auto &s = by[it->second]; s.erase(i); if (s.empty()) by.erase(it->second); at.erase(it); }
            if (g >= 0) { at[i] = g; by[g].insert(i); }
            q->schedule(m[i].get(), g >= 0 ? QT<T>::mk(g, r) : adevs_inf<T>());
            cx.cnt(g < 0 ? (it == at.end() ? "op_inf" : "op_inf") : "op_schedule");
        };
        auto check = [&](bool full) {
            CHECK(q->getSize() == at.size(), "size", tn << ": size " << q->getSize() << ", expected " << at.size());
            CHECK(q->empty() == at.empty(), "empty", tn << ": emptiness wrong with " << at.size() << " models");
            if (at.empty()) {
                CHECK(!(q->minPriority() < adevs_inf<T>()), "min", tn << ": an empty queue reports a finite minimum");
                CHECK(q->getMinimum() == nullptr, "front", tn << ": an empty queue reports a first model");
                return;
            }
            i64 g = by.begin()->first;
            CHECK(q->minPriority() == QT<T>::mk(g, r), "min", tn << ": minimum is not the earliest time, " << at.size() << " models");
            auto f = idx.find(q->getMinimum());
            CHECK(f != idx.end() && by.begin()->second.count(f->second), "front", tn << ": first model is not one of the earliest");
            if (full) {
                auto v = q->visitImminent();
                std::vector<size_t> got;
                for (auto p : v) { auto x = idx.find(p); CHECK(x != idx.end(), "imminent", tn << ": unknown model in the imminent set"); got.push_back(x->second); }
                std::sort(got.begin(), got.end());
                std::vector<size_t> want(by.begin()->second.begin(), by.begin()->second.end());
                CHECK(got == want, "imminent", tn << ": imminent set has " << got.size() << " entries, expected " << want.size() << " of " << at.size());
                cx.max("max_imminent", want.size());
                cx.cnt("imminent_sets_compared");
                if (want.size() > 1) cx.cnt("imminent_sets_with_ties");
            }
            cx.cnt("queue_states_compared");
        };
        check(true);
        int nops = nm > 2000 ? r.in(10, 80) : r.in(10, nm > 200 ? 2500 : 600);
        bool big = nm > 200;
        if (r.pct(50)) for (size_t i = 0; i < nm; i++) put(i, draw());
        check(true);
        for (int k = 0; k < nops; k++) {
            int a = r.below(100);
            if (a < 50) put(r.below(nm), draw());
            else if (a < 62) put(r.below(nm), -1);
            else if (a < 75) {
                if (at.empty()) q->removeMinimum();
                else {
                    auto f = idx.find(q->getMinimum());
                    CHECK(f != idx.end() && at.count(f->second), "front", tn << ": first model is not in the queue");
                    i64 g = at[f->second];
                    q->removeMinimum();
                    now = g;
                    by[g].erase(f->second);
                    if (by[g].empty()) by.erase(g);
                    at.erase(f->second);
                }
                cx.cnt("op_remove_minimum");
            } else if (a < 90 && !at.empty()) {                // as the simulator does: move the imminent models
                now = by.begin()->first;
                auto v = q->visitImminent();
                for (auto p : v) if (idx.count(p)) put(idx[p], r.pct(85) ? draw() : -1);
                cx.cnt("op_cycle");
            } else if (!at.empty()) {                          // same time again
                auto it = at.begin();
                std::advance(it, r.below(std::min<size_t>(at.size(), 20)));
                put(it->first, it->second);
            }
            check(!big || r.pct(10));
            trace = hcomb(trace, a, at.size());
        }
        cx.max("max_size", at.size());
        // drain
        i64 last = -1;
        while (!at.empty()) {
            auto f = idx.find(q->getMinimum());
            CHECK(f != idx.end() && at.count(f->second), "front", tn << ": first model is not in the queue while draining");
            i64 g = at[f->second];
            CHECK(g >= last && g == by.begin()->first, "order", tn << ": models left the queue out of order");
            last = g;
            by[g].erase(f->second);
            if (by[g].empty()) by.erase(g);
            at.erase(f->second);
            q->removeMinimum();
            if (!big || r.pct(nm > 2000 ? 1 : 10)) check(true);
            else check(false);
            cx.cnt("drained");
        }
        check(true);
    }
    cx.distinct.insert(trace);
    cx.cnt("histories");
    if (cx.samples.size() < 3) cx.sample(std::string(tn) + ": " + std::to_string(nm) + " models, " + std::to_string(rounds) + " queues");
}
static void c11(Ctx &cx) {
    switch (cx.caseno % 9) {
        case 0: case 1: queue_case<double>(cx, "double"); break;
        case 2: queue_case<float>(cx, "float"); break;
        case 3: queue_case<int>(cx, "int"); break;
        case 4: queue_case<long>(cx, "long"); break;
        case 5: queue_case<adevs::double_fcmp>(cx, "double_fcmp"); break;
        case 6: queue_case<adevs::sd_time<double>>(cx, "sd_time<double>"); break;
        case 7: queue_case<adevs::sd_time<long>>(cx, "sd_time<long>"); break;
        case 8: queue_case<long double>(cx, "long double"); break;
    }
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](std::string const &p) -> CaseFn { return p == "C11" ? c11 : nullptr; });
}
