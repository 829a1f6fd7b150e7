// C17: separate simulations in separate threads, and pins created concurrently. ThreadSanitizer watches every
// access; each thread's trace is compared with that of the same simulation run alone.
#include "common.h"
#include <any>
#include <atomic>
#include <cmath>
#include <memory>
#include <mutex>
#include <sched.h>
#include <thread>
#include "adevs/adevs.h"
#include "adevs/solvers/hybrid.h"
#include "adevs/solvers/trap.h"
#include "adevs/solvers/cvode.h"
#include "adevs/solvers/fmi.h"
#include <nvector/nvector_serial.h>
double adevs::double_fcmp::epsilon = 1e-9;
using adevs::pin_t;
namespace {
std::atomic<u64> g_turn{0};      // relaxed only: orders nothing, so it hides no race
struct Tl {                      // what one thread owns
    Rng jit;
    u64 turns = 0, order = 0;
    long events = 0;
    bool alone;
    Tl(u64 s, bool alone) : jit(s), alone(alone) {}
    void jitter() {
        events++;
        if (alone) return;
        u64 t = g_turn.fetch_add(1, std::memory_order_relaxed);
        order = hcomb(order, t - turns);
        turns = t;
        if (jit.pct(3)) sched_yield();
        else if (jit.pct(5)) for (volatile int i = 0; i < 300; i = i + 1) {}
    }
};
template <class T> T mk(long k) { return T((double)k); }
template <> long mk<long>(long k) { return k; }
template <> adevs::sd_time<double> mk<adevs::sd_time<double>>(long k) { return adevs::sd_time<double>((double)(k / 2), (int)(k % 2) + (k / 2 == 0)); }
template <class V> V val(u64 x) { return V(x); }
template <class V> u64 unval(V const &v) { return v; }
template <> u64 unval(std::any const &v) { return std::any_cast<u64>(v); }

template <class V, class T> struct W {
    typedef adevs::PinValue<V> PV;
    typedef adevs::Atomic<V, T> A;
    typedef adevs::MealyAtomic<V, T> MA;
    struct Core {
        W &w; u64 h; int id; pin_t in, out;
        std::shared_ptr<A> kid;
        Core(W &w, int id, u64 h) : w(w), h(h), id(id) {}
        u64 bag(std::list<PV> const &xb) { u64 s = 0; for (auto &x : xb) s += mix(unval<V>(x.value)); return s; }
        void step(int kind, u64 x) {
            w.tl.jitter();
            w.trace += hcomb(hcomb(id, kind, w.cycle), h, x);
            h = hcomb(h, x, kind);
        }
        void make(u64 x, std::list<PV> &yb) { u64 k = hcomb(h, x) % 3; for (u64 i = 0; i < k; i++) yb.push_back(PV(out, val<V>(hcomb(h, x, i)))); }
        T adv() {
            if (h % 5 == 0 && id) return adevs_inf<T>();
            return mk<T>(1 + h % 3);
        }
    };
    struct Moore : A, Core {
        using Core::Core;
        void grow() {
            if (this->id >= 100 || this->h % 4) return;
            auto g = this->w.graph;
            if (!this->kid) {
                auto m = std::make_shared<Moore>(this->w, 100 + this->id, mix(this->h));
                this->kid = m;
                if (g) { g->add_atomic(m); g->connect(this->out, m); }
                else { this->w.root->add_atomic(m); this->w.root->create_coupling(this->out, m); }
            } else {
                if (g) g->remove_atomic(this->kid); else this->w.root->remove_atomic(this->kid);
                this->kid.reset();
            }
        }
        void delta_int() override { this->step(0, 0); grow(); }
        void delta_ext(T, std::list<PV> const &xb) override { this->step(1, this->bag(xb)); grow(); }
        void delta_conf(std::list<PV> const &xb) override { this->step(2, this->bag(xb)); grow(); }
        void output_func(std::list<PV> &yb) override { this->make(0, yb); }
        T ta() override { return this->adv(); }
    };
    struct Mealy : MA, Core {
        using Core::Core;
        void delta_int() override { this->step(0, 0); }
        void delta_ext(T, std::list<PV> const &xb) override { this->step(1, this->bag(xb)); }
        void delta_conf(std::list<PV> const &xb) override { this->step(2, this->bag(xb)); }
        void output_func(std::list<PV> &yb) override { this->make(0, yb); }
        void external_output_func(T, std::list<PV> const &xb, std::list<PV> &yb) override { this->make(this->bag(xb), yb); }
        void confluent_output_func(std::list<PV> const &xb, std::list<PV> &yb) override { this->make(this->bag(xb) + 1, yb); }
        T ta() override { return this->adv(); }
    };
    struct L : adevs::EventListener<V, T> {
        W &w;
        L(W &w) : w(w) {}
        void outputEvent(A &, PV &x, T) override { w.trace += mix(unval<V>(x.value)); }
        void inputEvent(A &, PV &x, T) override { w.trace += mix(unval<V>(x.value) + 1); }
        void stateChange(A &, T) override { w.trace += 12345; }
    };
    Tl &tl;
    u64 trace = 0, cycle = 0;
    std::shared_ptr<adevs::Graph<V, T>> graph;
    std::shared_ptr<adevs::Coupled<V, T>> root;
    W(Tl &tl) : tl(tl) {}
    u64 run(u64 seed, pin_t const &shared) {
        Rng r(seed);
        bool coupled = r.pct(50);
        if (coupled) root = std::make_shared<adevs::Coupled<V, T>>(); else graph = std::make_shared<adevs::Graph<V, T>>();
        int n = (int)r.in(2, 7);
        std::vector<std::shared_ptr<A>> m;
        std::vector<Core*> c;
        std::vector<bool> me;
        for (int i = 0; i < n; i++) {
            u64 h = r.next();
            bool y = i && r.pct(30);
            me.push_back(y);
            if (y) { auto x = std::make_shared<Mealy>(*this, i, h); m.push_back(x); c.push_back(x.get()); }
            else { auto x = std::make_shared<Moore>(*this, i, h); m.push_back(x); c.push_back(x.get()); }
            if (graph) { graph->add_atomic(m[i]); graph->connect(c[i]->in, m[i]); }
            else { root->add_atomic(m[i]); root->create_coupling(c[i]->in, m[i]); }
            tl.jitter();
        }
        auto couple = [&](pin_t const &a, pin_t const &b) { if (graph) graph->connect(a, b); else root->create_coupling(a, b); };
        for (int e = 0; e < 2 * n; e++) {
            int a = (int)r.below(n), b = (int)r.below(n);
            if (a == b) continue;
            if (me[a] && me[b] && a > b) std::swap(a, b);
            couple(c[a]->out, c[b]->in);
        }
        couple(shared, c[0]->in);
        {
            std::unique_ptr<adevs::Simulator<V, T>> s(graph ? new adevs::Simulator<V, T>(graph) : new adevs::Simulator<V, T>(root));
            s->addEventListener(std::make_shared<L>(*this));
            for (int k = 0; k < 12; k++) {
                if (s->nextEventTime() == adevs_inf<T>()) break;
                cycle++;
                if (r.pct(25)) { PV x(shared, val<V>(r.next())); s->injectInput(x); }
                if (r.pct(10)) s->computeNextOutput();
                s->execNextEvent();
            }
        }
        for (auto x : c) x->kid.reset();
        return trace;
    }
};
struct Osc : adevs::ode_system<u64> {
    Tl &tl; double k; u64 &trace; pin_t out; double th = 0.3;
    Osc(Tl &tl, double k, u64 &trace) : adevs::ode_system<u64>(2, 1), tl(tl), k(k), trace(trace) {}
    void init(double* q) override { q[0] = 1; q[1] = 0; }
    void der_func(double const* q, double* dq) override { dq[0] = q[1]; dq[1] = -k * q[0]; }
    void state_event_func(double const* q, double* z) override { z[0] = q[0] - th; }
    double time_event_func(double const*) override { return adevs_inf<double>(); }
    void note(double const* q, int kind) { tl.jitter(); u64 b; memcpy(&b, q, 8); trace = hcomb(trace, b, kind); }
    void internal_event(double* q, bool const*) override { note(q, 0); th = -th; }
    void external_event(double* q, double, std::list<adevs::PinValue<u64>> const &) override { note(q, 1); }
    void confluent_event(double* q, bool const*, std::list<adevs::PinValue<u64>> const &) override { note(q, 2); th = -th; }
    void output_func(double const*, bool const*, std::list<adevs::PinValue<u64>> &yb) override { yb.push_back(adevs::PinValue<u64>(out, 1)); }
};
u64 hybrid_run(Tl &tl, u64 seed) {
    Rng r(seed);
    u64 trace = 0;
    auto s = new Osc(tl, r.real(0.5, 4), trace);
    adevs::ode_solver<u64>* v;
    switch (r.below(3)) {
        case 0: v = new adevs::rk_45<u64>(s, 1e-5, 0.2); break;
        case 1: v = new adevs::corrected_euler<u64>(s, 1e-4, 0.1); break;
        default: v = new adevs::trap<u64>(s, 1e-3, 0.05);
    }
    adevs::event_locator<u64>* l;
    switch (r.below(5)) {
        case 0: l = new adevs::bisection_event_locator<u64>(s, 1e-4); break;
        case 1: l = new adevs::linear_event_locator<u64>(s, 1e-4); break;
        case 2: l = new adevs::fast_event_locator<u64>(s, 1e-4, true); break;
        case 3: l = new adevs::discontinuous_event_locator<u64>(s, 1e-4); break;
        default: l = new adevs::fast_event_locator<u64>(s, 1e-4);
    }
    adevs::Simulator<u64> sim(std::make_shared<adevs::Hybrid<u64>>(s, v, l));
    for (int i = 0; i < 25; i++) sim.execNextEvent();
    return trace;
}
// the CVODE wrapper around an exact integration of y' = a y
struct Cv : adevs::CVODE<u64> {
    typedef std::list<adevs::PinValue<u64>> Bag;
    Tl &tl; u64 &trace; double a, tc = 0, due = 0.7, step; SUNContext ctx; N_Vector y; adevs::pin_t in, out;
    Cv(Tl &tl, u64 &trace, double a, double step) : tl(tl), trace(trace), a(a), step(step) { SUNContext_Create(nullptr, &ctx); y = N_VNew_Serial(2, ctx); N_VConst(1.0, y); }
    ~Cv() { N_VDestroy(y); SUNContext_Free(&ctx); }
    void flow(double t) { for (int i = 0; i < 2; i++) NV_Ith_S(y, i) *= std::exp(a * (i + 1) * (t - tc)); tc = t; }
    void note(int kind) { tl.jitter(); u64 b; double d = NV_Ith_S(y, 1); memcpy(&b, &d, 8); trace = hcomb(trace, b, kind); }
    void cvode_delta_int() override { note(0); due += 0.7; NV_Ith_S(y, 0) = 1; }
    void cvode_delta_ext(double, Bag const &xb) override { note(1); NV_Ith_S(y, 1) = (double)(xb.front().value % 5); }
    void cvode_delta_conf(Bag const &) override { note(2); due += 0.7; }
    void cvode_output_func(Bag &yb) override { yb.push_back(adevs::PinValue<u64>(out, 3)); }
    N_Vector cvode_get_state() override { return y; }
    void cvode_integrate(double &tf, bool &ev) override { tf = std::min(tc + step, due); ev = tf == due; flow(tf); }
    void cvode_integrate_until(double tf, bool &ev) override { flow(tf); ev = false; }
    void cvode_reinit(N_Vector v, double t) override { N_VScale(1.0, v, y); tc = t; tl.jitter(); }
};
u64 cvode_run(Tl &tl, u64 seed) {
    Rng r(seed);
    u64 trace = 0;
    auto g = std::make_shared<adevs::Graph<u64>>();
    auto c = std::make_shared<Cv>(tl, trace, r.real(-1, 0.3), r.real(0.1, 1));
    g->add_atomic(c);
    g->connect(c->in, c);
    adevs::Simulator<u64> sim(g);
    double last = 0;
    for (int i = 0; i < 25; i++) {
        double t = sim.nextEventTime();
        if (r.pct(30)) {
            adevs::PinValue<u64> x(c->in, r.next());
            sim.setNextTime(t = last + (t - last) * r.real(0.1, 0.9));
            sim.injectInput(x);
        }
        sim.execNextEvent();
        last = t;
    }
    return trace;
}
u64 fmi_run(Tl &tl, u64 seed) {
    Rng r(seed);
    u64 trace = 0;
    fmi2_import_t f;
    f.n = 2; f.m = 1; f.directional = true;
    double lim = r.real(0.2, 0.5), k = r.real(0.5, 2);
    f.der = [&](fmi2_import_t &c, double* d) { d[0] = k; d[1] = -c.x[1] + c.t; };
    f.jac = [&](fmi2_import_t &c, double* d) { d[0] = 0; d[1] = c.col == 1 ? -1 : 0; };
    f.ind = [&](fmi2_import_t &c, double* z) { z[0] = c.x[0] - lim; };
    f.discrete = [&](fmi2_import_t &c, fmi2_event_info_t &e) {
        u64 b;
        tl.jitter();
        memcpy(&b, &c.t, 8);
        trace = hcomb(trace, b, c.passes);
        lim = c.x[0] + 0.4;
        e.newDiscreteStatesNeeded = c.passes < 2;
        e.nextEventTimeDefined = true;
        e.nextEventTime = c.t + 0.55;
    };
    the_fmu = &f;
    auto m = new adevs::ModelExchange<u64>("none", 1e-6);
    adevs::ode_solver<u64>* v;
    if (r.pct(50)) v = new adevs::trap<u64>(m, 1e-3, 0.05, true);
    else v = new adevs::rk_45<u64>(m, 1e-5, 0.1);
    adevs::Simulator<u64> sim(std::make_shared<adevs::Hybrid<u64>>(m, v, new adevs::fast_event_locator<u64>(m, 1e-5)));
    for (int i = 0; i < 20; i++) {
        sim.execNextEvent();
        m->set_variable("u", m->get_time());
        trace = hcomb(trace, (u64)(std::any_cast<double>(m->get_variable("u")) * 1e6));
    }
    return trace;
}
// times are compared, printed and read; an illegal model is reported
struct Bad : adevs::Atomic<u64> {
    int left;
    explicit Bad(int n) : left(n) {}
    void delta_int() override { left--; }
    void delta_ext(double, std::list<adevs::PinValue<u64>> const &) override {}
    void delta_conf(std::list<adevs::PinValue<u64>> const &) override {}
    void output_func(std::list<adevs::PinValue<u64>> &) override {}
    double ta() override { return left; }
};
u64 misc_run(Tl &tl, u64 seed) {
    Rng r(seed);
    u64 trace = 0;
    for (int i = 0; i < 30; i++) {
        adevs::sd_time<double> a((double)r.in(-50, 50), (int)r.in(0, 9)), b((double)r.in(0, 3), (int)r.in(0, 9)), c, d;
        std::stringstream s;
        c = a + b;
        s << c;
        s >> d;
        tl.jitter();
        trace = hcomb(trace, hstr(s.str()), (d == c) + 2 * (a < c) + 4 * (c - a == b));
        adevs::double_fcmp x(r.real(0, 1)), y((double)x * (1 + r.real(-2e-9, 2e-9)));
        trace = hcomb(trace, (x < y) + 2 * (x == y) + 4 * (x > y) + 8 * (0.5 < y) + 16 * (x != 0.25));
    }
    auto m = std::make_shared<Bad>((int)r.in(1, 5));
    try {
        adevs::Simulator<u64> sim(m);
        while (true) { tl.jitter(); sim.execNextEvent(); }
    } catch (adevs::exception &e) {
        trace = hcomb(trace, hstr(e.what()), e.who() == m.get());
    }
    return trace;
}
u64 one(Tl &tl, int kind, u64 seed, pin_t const &shared) {
    switch (kind) {
        case 0: return W<std::any, double>(tl).run(seed, shared);
        case 1: return W<u64, long>(tl).run(seed, shared);
        case 2: return W<u64, adevs::double_fcmp>(tl).run(seed, shared);
        case 3: return W<u64, adevs::sd_time<double>>(tl).run(seed, shared);
        case 5: return cvode_run(tl, seed);
        case 6: return fmi_run(tl, seed);
        case 7: return misc_run(tl, seed);
        default: return hybrid_run(tl, seed);
    }
}
void together(std::vector<std::function<void()>> const &f) {
    std::vector<std::thread> th;
    std::atomic<int> go{0};
    for (size_t i = 0; i < f.size(); i++)
        th.emplace_back([&, i] {
            go.fetch_add(1);
            while (go.load() < (int)f.size()) sched_yield();
            f[i]();
        });
    for (auto &t : th) t.join();
}
}  // namespace
void c17(Ctx &cx) {
    Rng r(cx.rngseed());
    int nt = (int)r.in(2, 6), jobs = (int)r.in(1, 4);
    pin_t shared;
    struct Job { int kind; u64 seed, got = 0; };
    std::vector<std::vector<Job>> todo(nt);
    u64 common = r.next();
    for (auto &t : todo)
        for (int j = 0; j < jobs; j++) t.push_back({(int)r.below(8), r.pct(30) ? common : r.next()});
    std::vector<Tl> tls;
    for (int i = 0; i < nt; i++) tls.emplace_back(r.next(), false);
    std::vector<std::vector<pin_t>> pins(nt), copies(nt);
    std::vector<std::function<void()>> f;
    int np = (int)r.in(20, 300);
    u64 jseed = r.next();
    for (int i = 0; i < nt; i++)
        f.push_back([&, i] {
            Rng q(jseed + i);
            for (auto &j : todo[i]) {
                for (int k = 0; k < np; k++) { pins[i].emplace_back(); if (q.pct(3)) tls[i].jitter(); }
                j.got = one(tls[i], j.kind, j.seed, shared);
            }
            copies[i] = pins[i];
            pin_t z;
            for (auto &p : copies[i]) { z = p; p = z; }
        });
    together(f);
    // pins: all different, copies the same
    std::vector<pin_t> all;
    for (int i = 0; i < nt; i++)
        for (size_t k = 0; k < pins[i].size(); k++) {
            CHECK(copies[i][k] == pins[i][k] && !(copies[i][k] != pins[i][k]) && !(copies[i][k] < pins[i][k]) && !(pins[i][k] < copies[i][k]) &&
                  copies[i][k] <= pins[i][k] && copies[i][k] >= pins[i][k], "copy_differs", "a copy of a pin is not equal to it");
            all.push_back(pins[i][k]);
        }
    all.push_back(shared);
    std::vector<pin_t> sorted = all;
    std::sort(sorted.begin(), sorted.end());
    for (size_t k = 1; k < sorted.size(); k++)
        CHECK(sorted[k - 1] != sorted[k] && sorted[k - 1] < sorted[k] && sorted[k] > sorted[k - 1] && sorted[k - 1] <= sorted[k] && !(sorted[k - 1] >= sorted[k]),
              "pins_not_unique", "two of " << sorted.size() << " pins created by " << nt << " threads are the same");
    for (int k = 0; k < 200 && all.size() > 1; k++) {
        pin_t a = r.pick(all), b = r.pick(all), c(a);
        CHECK((a < b) == (c < b) && (b < a) == (b < c) && (a == b) == (c == b), "copy_order_differs", "a copy of a pin compares differently");
        CHECK((a < b) + (a == b) + (a > b) == 1 && (a <= b) == !(a > b) && (a >= b) == !(a < b) && (a != b) == !(a == b), "order_not_total", "comparisons of two pins disagree");
    }
    cx.cnt("pins_compared", (i64)all.size());
    // traces: as alone
    u64 inter = 0;
    for (int i = 0; i < nt; i++) {
        for (auto &j : todo[i]) {
            Tl alone(1, true);
            pin_t sh2;
            u64 want = one(alone, j.kind, j.seed, sh2);
            CHECK(want == j.got, "differs_from_alone", "simulation of kind " << j.kind << " behaves differently when " << nt << " threads run");
            cx.cnt(j.kind == 4 ? "hybrid_traces_equal" : j.kind == 5 ? "cvode_traces_equal" : j.kind == 6 ? "fmi_traces_equal" : j.kind == 7 ? "misc_traces_equal" : "traces_equal");
        }
        inter = hcomb(inter, tls[i].order);
        cx.cnt("events", tls[i].events);
    }
    cx.max("threads", nt);
    cx.distinct.insert(inter);
    if (cx.caseno < 3) cx.sample(std::to_string(nt) + " threads, " + std::to_string(jobs) + " simulations each, " + std::to_string(all.size()) + " pins");
}
// As fast as possible: many threads create pins and nothing else
void c17_pins(Ctx &cx) {
    Rng r(cx.rngseed("pins"));
    int nt = (int)r.in(2, 8), np = (int)r.in(500, 6000);
    std::vector<std::vector<pin_t>> pins(nt);
    for (auto &p : pins) p.reserve(np);
    std::vector<std::function<void()>> f;
    for (int i = 0; i < nt; i++) f.push_back([&, i] { for (int k = 0; k < np; k++) pins[i].emplace_back(); });
    together(f);
    std::vector<std::pair<pin_t, int>> all;
    long switches = 0;
    for (int i = 0; i < nt; i++)
        for (int k = 0; k < np; k++) {
            if (k) CHECK(pins[i][k - 1] != pins[i][k], "pins_not_unique", "two pins created by one thread are the same");
            all.push_back({pins[i][k], i});
        }
    std::sort(all.begin(), all.end(), [](auto &a, auto &b) { return a.first < b.first; });
    u64 h = 0;
    for (size_t k = 1; k < all.size(); k++) {
        CHECK(all[k - 1].first != all[k].first, "pins_not_unique", "two of " << all.size() << " pins created by " << nt << " threads are the same");
        if (all[k - 1].second != all[k].second) { switches++; h = hcomb(h, k); }
    }
    cx.cnt("pins_compared", (i64)all.size());
    cx.cnt("thread_switches_between_pins", switches);
    cx.distinct.insert(h);
}
int main(int argc, char** argv) {
    bool pins = getenv("PINS_ONLY") != nullptr;
    return run_cases(argc, argv, [&](std::string const &p) -> CaseFn { return p == "C17" ? (pins ? c17_pins : c17) : nullptr; });
}
