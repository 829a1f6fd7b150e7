// C16 (second part): ownership and memory of hybrid models, solvers, locators and the CVODE wrapper.
#include "common.h"
#include "adevs/adevs.h"
#include "adevs/solvers/hybrid.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/trap.h"
#include "adevs/solvers/event_locators.h"
#include "adevs/solvers/cvode.h"
#include <nvector/nvector_serial.h>
#include <memory>
#include <cmath>
#ifdef __SANITIZE_ADDRESS__
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t in_use() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t in_use() { return 0; }
#endif
namespace {
struct Boom {};
typedef adevs::PinValue<double> PV;
struct Cnt { int sys = 0, sol = 0, loc = 0, cv = 0; long fuse = -1; long calls = 0; } K;
void tick(bool may) { K.calls++; if (may && K.fuse >= 0 && K.fuse-- == 0) { K.fuse = -1; throw Boom(); } }
struct Sys : adevs::ode_system<double> {
    Rng r; int n, m; double a[4], b[4], th[4]; double period; double t_next; adevs::pin_t out; bool jac, thrower;
    double* scratch;      // memory of its own, released by the destructor
    Sys(u64 s, int n, int m, bool thrower) : adevs::ode_system<double>(n, m), r(s), n(n), m(m), thrower(thrower) {
        K.sys++;
        for (int i = 0; i < 4; i++) { a[i] = -r.real(0.05, 1); b[i] = r.real(-1, 1); th[i] = r.real(-0.4, 0.4); }
        period = r.pct(30) ? adevs_inf<double>() : r.real(0.2, 2);
        jac = r.pct(50);
        t_next = period;
        scratch = new double[n];
    }
    ~Sys() { K.sys--; delete[] scratch; }
    void init(double* q) override { for (int i = 0; i < n; i++) q[i] = 0.5; }
    void der_func(double const* q, double* dq) override { tick(thrower); for (int i = 0; i < n; i++) dq[i] = a[i % 4] * q[i] + b[i % 4]; }
    void state_event_func(double const* q, double* z) override { tick(thrower); for (int i = 0; i < m; i++) z[i] = q[i % n] - th[i % 4]; }
    double time_event_func(double const* q) override { tick(thrower); scratch[n - 1] = q[0]; return t_next; }
    void internal_event(double* q, bool const* ev) override { bump(q, ev); }
    void external_event(double* q, double, std::list<PV> const &xb) override { tick(thrower); q[0] += xb.front().value; }
    void confluent_event(double* q, bool const* ev, std::list<PV> const &xb) override { bump(q, ev); q[0] += xb.front().value; }
    void bump(double* q, bool const* ev) {
        tick(thrower);
        for (int i = 0; i < m; i++) if (ev[i]) { th[i % 4] = (q[i % n] > 0 ? -1 : 1) * r.real(0.1, 0.5); }
        if (ev[m]) { t_next = period; for (int i = 0; i < n; i++) b[i % 4] = -b[i % 4]; }
    }
    void output_func(double const* q, bool const* ev, std::list<PV> &yb) override {
        tick(thrower);
        int k = ev[m];
        for (int i = 0; i < m; i++) k += ev[i];
        if (k) yb.push_back(PV(out, q[0]));
    }
    void postStep(double* q) override { scratch[0] = q[n - 1]; }
    void postTrialStep(double* q) override { scratch[0] = q[n - 1]; }
    bool get_jacobian(double const*, double* J) override {
        if (!jac) return false;
        if (!J) return true;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) J[i * n + j] = i == j ? a[i % 4] : 0;
        return true;
    }
};
template <class B> struct Sol : B { using B::B; ~Sol() { K.sol--; } };
template <class B> struct Loc : B { using B::B; ~Loc() { K.loc--; } };
struct Sink : adevs::Atomic<double> {
    adevs::pin_t in; int got = 0;
    void delta_int() override {}
    void delta_ext(double, std::list<PV> const &xb) override { got += (int)xb.size(); }
    void delta_conf(std::list<PV> const &xb) override { got += (int)xb.size(); }
    void output_func(std::list<PV> &) override {}
    double ta() override { return adevs_inf<double>(); }
};
struct CV : adevs::CVODE<double> {
    N_Vector y; SUNContext ctx; double t = 0, h; int n; bool now = false;
    CV(int n, double h) : h(h), n(n) {
        K.cv++;
        SUNContext_Create(nullptr, &ctx);
        y = N_VNew_Serial(n, ctx);
        N_VConst(1.0, y);
    }
    ~CV() { N_VDestroy(y); SUNContext_Free(&ctx); K.cv--; }
    void adv(double tf) { for (int i = 0; i < n; i++) NV_Ith_S(y, i) += (tf - t); t = tf; }
    void cvode_delta_int() override { now = false; }
    void cvode_delta_ext(double, std::list<PV> const &xb) override { NV_Ith_S(y, 0) += xb.front().value; now = true; }
    void cvode_delta_conf(std::list<PV> const &xb) override { NV_Ith_S(y, 0) += xb.front().value; now = true; }
    void cvode_output_func(std::list<PV> &) override {}
    N_Vector cvode_get_state() override { return y; }
    void cvode_integrate(double &tf, bool &ev) override { if (!now) adv(t + h); tf = t; ev = now; }
    void cvode_integrate_until(double tf, bool &ev) override { adv(tf); ev = false; }
    void cvode_reinit(N_Vector y0, double t0) override { N_VAddConst(y0, 0.0, y); t = t0; }
};
typedef adevs::ode_system<double> OS;
adevs::ode_solver<double>* solver(int k, OS* s) {
    K.sol++;
    if (k == 0) return new Sol<adevs::corrected_euler<double>>(s, 1e-3, 0.1);
    if (k == 1) return new Sol<adevs::rk_45<double>>(s, 1e-4, 0.2);
    return new Sol<adevs::trap<double>>(s, 1e-3, 0.05);
}
adevs::event_locator<double>* locator(int k, OS* s, bool interp) {
    K.loc++;
    if (k == 0) return new Loc<adevs::bisection_event_locator<double>>(s, 1e-4);
    if (k == 1) return new Loc<adevs::linear_event_locator<double>>(s, 1e-4);
    if (k == 2) return new Loc<adevs::discontinuous_event_locator<double>>(s, 1e-4);
    if (k == 3) return new Loc<adevs::fast_event_locator<double>>(s, 1e-4, interp);
    return new Loc<adevs::null_event_locator<double>>();
}
}  // namespace
static void c16_ode_once(Ctx &cx) {
    K = Cnt();
    Rng r(cx.rngseed());
    static bool warm = false;
    if (!warm) { SUNContext c; SUNContext_Create(nullptr, &c); SUNContext_Free(&c); warm = true; }
    bool threw = false;
    long calls = 0;
    cx.n["balances_checked"] += 0;
    int kind = (int)r.below(10);
    int sk = (int)r.below(3), lk = (int)r.below(5);
    int mode = 0;
    size_t before = in_use();
    try {
        if (kind == 0) {               // the parts on their own
            mode = 1;
            int n = (int)r.in(1, 5), m = (int)r.in(0, 3);
            std::unique_ptr<Sys> s(new Sys(r.next(), n, m, false));
            { std::unique_ptr<adevs::ode_solver<double>> a(solver(sk, s.get()));
              std::unique_ptr<adevs::event_locator<double>> l(locator(lk, s.get(), r.pct(50)));
              std::unique_ptr<double[]> q(new double[n]), q0(new double[n]);
              std::unique_ptr<bool[]> ev(new bool[m + 1]);
              s->init(q.get());
              for (int i = 0; i < (int)r.in(0, 6); i++) {
                  for (int j = 0; j < n; j++) q0[j] = q[j];
                  double h = a->integrate(q.get(), r.real(0.01, 0.3));
                  if (m && lk != 4) l->find_events(ev.get(), q0.get(), q.get(), a.get(), h);
                  if (r.pct(40)) a->advance(q.get(), r.real(0, 0.2));
                  if (r.pct(20)) for (int j = 0; j < n; j++) q[j] = r.real(-1, 1);
              }
            }
        } else if (kind <= 2) {        // CVODE wrapper
            mode = 2;
            auto cv = std::make_shared<CV>((int)r.in(1, 4), r.real(0.1, 1));
            auto g = std::make_shared<adevs::Graph<double>>();
            adevs::pin_t in;
            g->add_atomic(cv);
            g->connect(in, cv);
            bool keep = r.pct(50);
            std::unique_ptr<adevs::Simulator<double>> sim(r.pct(10) ? nullptr : new adevs::Simulator<double>(g));
            if (!keep) cv.reset();
            for (int i = 0; sim && i < (int)r.in(0, 20); i++) {
                if (r.pct(30)) { PV x(in, 0.5); sim->injectInput(x); if (r.pct(50)) { double tn = sim->nextEventTime(); sim->setNextTime(tn - (r.pct(50) ? 0.01 : 0)); } }
                sim->execNextEvent();
            }
            if (r.pct(50)) { g.reset(); sim.reset(); cv.reset(); } else { sim.reset(); cv.reset(); g.reset(); }
        } else {
            mode = 3;
            int n = (int)r.in(1, 4), m = (int)r.in(0, 3);
            if (lk == 4) m = 0;
            auto* s = new Sys(r.next(), n, m, sk != 2);
            auto pin = s->out;
            auto* sol = solver(sk, s);
            auto* loc = locator(lk, s, r.pct(50));
            if (s->thrower && r.pct(15)) {   // an exception out of the constructor
                bool own = sk != 2 && r.pct(40);   // a class that makes its own solver and locator
                if (own) { delete loc; delete sol; }
                K.fuse = (long)r.below(8);
                try {
                    if (own) { adevs::ExplicitHybrid<double> lost(s, 1e-4, 0.1); K.fuse = -1; }
                    else { adevs::Hybrid<double> lost(s, sol, loc); K.fuse = -1; }
                } catch (Boom const &) {
                    bool kept = K.sys == 1 && K.sol == !own && K.loc == !own, taken = K.sys == 0 && K.sol == 0 && K.loc == 0;
                    CHECK(kept || taken, "parts_half_taken", "after an exception in the constructor there are " << K.sys << " systems, " << K.sol << " solvers, " << K.loc << " locators");
                    if (kept) { if (!own) { delete loc; delete sol; } delete s; }
                    cx.cnt("hybrid_constructors_that_threw");
                }
                sol = nullptr;
            }
            if (sol) {
            auto h = std::make_shared<adevs::Hybrid<double>>(s, sol, loc);
            auto k = std::make_shared<Sink>();
            auto g = std::make_shared<adevs::Graph<double>>();
            adevs::pin_t in;
            g->add_atomic(h);
            g->add_atomic(k);
            g->connect(in, h);
            g->connect(pin, k);
            if (r.pct(40)) K.fuse = (long)r.below(200);
            std::unique_ptr<adevs::Simulator<double>> sim(r.pct(10) ? nullptr : new adevs::Simulator<double>(g));
            bool early = r.pct(50);
            std::weak_ptr<adevs::Hybrid<double>> wk = h;
            if (early) h.reset();
            try {
                for (int i = 0; sim && i < (int)r.in(0, 40); i++) {
                    double tn = sim->nextEventTime();
                    if (r.pct(30)) {
                        PV x(in, r.real(-0.3, 0.3));
                        sim->injectInput(x);
                        if (tn == adevs_inf<double>()) sim->setNextTime(i);
                    } else if (tn == adevs_inf<double>()) break;
                    sim->execNextEvent();
                }
            } catch (Boom const &) { threw = true; }
            K.fuse = -1;
            CHECK(!wk.expired() && K.sys == 1 && K.sol == 1 && K.loc == 1, "owned_model_destroyed", "a hybrid model or its parts were destroyed while in use");
            if (r.pct(50)) { sim.reset(); g.reset(); } else { g.reset(); sim.reset(); }
            if (h) { CHECK(K.sys == 1, "owned_model_destroyed", "the system was destroyed before its hybrid model"); h->getState(0); h.reset(); }
            CHECK(wk.expired(), "model_outlives_owners", "a hybrid model is alive though its last owner is gone");
            }
        }
    } catch (Boom const &) { FAIL("unexpected_exception", "model exception outside of the simulation"); }
    calls = K.calls;
    CHECK(K.sys == 0 && K.sol == 0 && K.loc == 0 && K.cv == 0, "parts_leaked", "systems " << K.sys << " solvers " << K.sol << " locators " << K.loc << " cvode models " << K.cv
          << " not destroyed exactly once");
    size_t now = in_use();
    CHECK(now <= before, "memory_leaked", "mode " << mode << " solver " << sk << " locator " << lk << ": " << (long)(now - before) << " bytes more are allocated than before");
    cx.cnt("balances_checked");
    cx.cnt(mode == 1 ? "parts_alone" : mode == 2 ? "cvode_models" : "hybrid_models");
    if (threw) cx.cnt("hybrid_ended_by_exception");
    cx.cnt("callbacks", calls);
    cx.distinct.insert(hcomb(cx.caseno, mode, calls));
}
void c16_ode(Ctx &cx) { unless_settles(cx, c16_ode_once); }
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](std::string const &p) -> CaseFn { return p == "C16" ? c16_ode : nullptr; });
}
