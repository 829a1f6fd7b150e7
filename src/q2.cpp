// C12: the alternate event queue (schedule2.h) against a reference map.
#include "common.h"
#include <cassert>
#include <memory>
#include <any>
#include "adevs/exception.h"
#include "adevs/time.h"
#include "adevs/models.h"
#include "adevs/schedule2.h"

template <class T> struct M : adevs::Atomic<int, T> {
    typedef std::list<adevs::PinValue<int>> L;
    T t;
    static inline i64 live = 0;
    M() { live++; }
    ~M() { live--; }
    void delta_int() {}
    void delta_ext(T, L const &) {}
    void delta_conf(L const &) {}
    void output_func(L &) {}
    T ta() { return t; }
};
// how the grid of times is laid out: whole numbers, neighbouring numbers, neighbouring numbers near zero, large numbers
static int g_grid = 0;
template <class T> T mk(i64 g) {
    if constexpr (std::is_integral<T>::value) return g_grid ? (T)(std::numeric_limits<T>::max() - (1 << 20) + g) : (T)g;
    else switch (g_grid) {
        case 1: return (T)1 + (T)g * std::numeric_limits<T>::epsilon();
        case 2: return (T)g * std::numeric_limits<T>::denorm_min();
        case 3: return (T)g * std::ldexp((T)1, 70);
        default: return (T)g;
    }
}
template <> adevs::sd_time<double> mk(i64 g) { return adevs::sd_time<double>(mk<double>(g / 3), (int)(g % 3)); }

template <class T> static void queue_case(Ctx &cx, char const* tn) {
    Rng r(cx.rngseed());
    g_grid = r.pct(50) ? 0 : 1 + (int)r.below(3);
    static char const* const grids[] = {"times_apart", "times_one_ulp_apart", "times_near_zero", "times_large"};
    cx.cnt(grids[g_grid]);
    size_t nm = r.below(250) == 0 ? r.in(2000, 8000) : r.pct(10) ? r.in(200, 800) : r.in(1, 50);
    i64 base = M<T>::live;
    u64 trace = 0;
    {
        std::vector<std::shared_ptr<M<T>>> m;
        std::map<void*, size_t> idx;
        for (size_t i = 0; i < nm; i++) { m.push_back(std::make_shared<M<T>>()); idx[m[i].get()] = i; }
        adevs::Schedule<int, T> q;
        std::map<size_t, i64> at;                 // time advance when last added or updated
        std::map<size_t, i64> cur;                // time advance now
        std::map<i64, std::set<size_t>> by;
        int style = r.below(4);
        auto draw = [&](size_t i) {
            i64 g = style == 0 ? (i64)r.below(4) : style == 1 ? (i64)r.below(nm * 4) : style == 2 ? (i64)r.below(100) : (r.pct(70) ? 5 : (i64)r.below(10));
            bool inf = r.pct(10);
            cur[i] = inf ? INT64_MAX : g;
            m[i]->t = inf ? adevs_inf<T>() : mk<T>(g);
        };
        auto take = [&](size_t i) { auto it = at.find(i); by[it->second].erase(i); if (by[it->second].empty()) by.erase(it->second); at.erase(it); };
        auto putin = [&](size_t i) { at[i] = cur[i]; by[cur[i]].insert(i); };
        auto check = [&]() {
            CHECK(q.size() == at.size(), "size", tn << ": size " << q.size() << ", expected " << at.size());
            CHECK(q.empty() == at.empty(), "empty", tn << ": emptiness is wrong");
            cx.cnt("queue_states_compared");
            if (at.empty()) {
                CHECK(q.get_minimum() == adevs_inf<T>(), "min", tn << ": an empty queue has a finite minimum");
                CHECK(q.get_next() == nullptr, "front", tn << ": an empty queue has a first model");
                return;
            }
            i64 g = by.begin()->first;
            CHECK(q.get_minimum() == (g == INT64_MAX ? adevs_inf<T>() : mk<T>(g)), "min", tn << ": minimum is not the earliest time of " << at.size() << " models");
            auto p = q.get_next();
            CHECK(p && idx.count(p.get()), "front", tn << ": first model unknown");
            CHECK(by.begin()->second.count(idx[p.get()]), "front", tn << ": first model is not one of the earliest");
        };
        auto fails = [&](std::function<void()> f) {
            try { f(); } catch (adevs::exception &ex) { cx.cnt("refused"); return true; }
            return false;
        };
        for (size_t i = 0; i < nm; i++) draw(i);
        int nops = r.in(20, nm > 100 ? 1500 : 500);
        if (r.pct(60)) for (size_t i = 0; i < nm; i++) { q.add(m[i]); putin(i); check(); }
        for (int k = 0; k < nops; k++) {
            int a = r.below(100);
            size_t i = r.below(nm);
            bool in = at.count(i);
            if (a < 30) {
                if (r.pct(50)) draw(i);
                bool f = fails([&] { q.add(m[i]); });
                CHECK(f == in, "refusal", tn << ": add " << (f ? "refused" : "accepted") << " a model that is " << (in ? "present" : "absent"));
                if (!in) putin(i);
                cx.cnt("op_add");
            } else if (a < 50) {
                bool f = fails([&] { q.remove(m[i]); });
                CHECK(f != in, "refusal", tn << ": remove " << (f ? "refused" : "accepted") << " a model that is " << (in ? "present" : "absent"));
                if (in) take(i);
                cx.cnt("op_remove");
            } else if (a < 80) {
                draw(i);
                bool f = fails([&] { q.update(m[i]); });
                CHECK(f != in, "refusal", tn << ": update " << (f ? "refused" : "accepted") << " a model that is " << (in ? "present" : "absent"));
                if (in) { take(i); putin(i); }
                cx.cnt("op_update");
            } else if (a < 92 && !at.empty()) {
                size_t j = idx[q.get_next().get()];
                q.remove_next();
                CHECK(at.count(j), "front", tn << ": first model was not in the queue");
                take(j);
                CHECK(fails([&] { q.update(m[j]); }), "refusal", tn << ": a model taken from the front is still known");
                cx.cnt("op_remove_next");
            } else if (a < 95) {
                bool fresh = true;
                for (auto &x : at) fresh = fresh && cur[x.first] == x.second;
                if (!fresh) for (auto x : std::map<size_t, i64>(at)) { q.update(m[x.first]); take(x.first); putin(x.first); }
                q.update_all();
                cx.cnt("op_update_all");
            } else if (a == 95 && r.pct(30)) {
                q.clear();
                at.clear(); by.clear();
                cx.cnt("op_clear");
            } else if (a > 95 && !at.empty() && r.pct(50)) {
                for (int j = r.below(8); j > 0; j--) {          // a cascade in the middle of the queue
                    size_t x = r.below(nm);
                    if (at.count(x)) { q.remove(m[x]); take(x); } else { q.add(m[x]); putin(x); }
                }
            }
            check();
            trace = hcomb(trace, a, at.size());
        }
        cx.max("max_size", at.size());
        // ownership: the queue holds each present model exactly as long as it is present
        size_t keep = at.size();
        idx.clear();
        m.clear();
        CHECK(M<T>::live - base == (i64)keep, "lifetime", tn << ": " << M<T>::live - base << " models alive, " << keep << " in the queue");
        i64 last = INT64_MIN;
        while (!q.empty()) {
            CHECK(!by.empty() && (by.begin()->first == INT64_MAX ? q.get_minimum() == adevs_inf<T>() : q.get_minimum() == mk<T>(by.begin()->first)), "order", tn << ": drained out of order");
            last = by.begin()->first;
            auto &s = by.begin()->second;
            s.erase(s.begin());
            if (s.empty()) by.erase(by.begin());
            q.remove_next();
            CHECK(M<T>::live - base == (i64)q.size(), "lifetime", tn << ": a removed model is still held");
            cx.cnt("drained");
        }
        CHECK(by.empty(), "order", tn << ": queue drained early");
    }
    CHECK(M<T>::live == base, "lifetime", tn << ": models leaked");
    cx.distinct.insert(trace);
    cx.cnt("histories");
    if (cx.samples.size() < 3) cx.sample(std::string(tn) + ": " + std::to_string(nm) + " models");
}
static void c12(Ctx &cx) {
    switch (cx.caseno % 4) {
        case 0: queue_case<double>(cx, "double"); break;
        case 1: queue_case<int>(cx, "int"); break;
        case 2: queue_case<long>(cx, "long"); break;
        case 3: queue_case<adevs::sd_time<double>>(cx, "sd_time<double>"); break;
    }
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](std::string const &p) -> CaseFn { return p == "C12" ? c12 : nullptr; });
}
