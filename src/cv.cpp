// C21: the CVODE wrapper. A system with a closed-form solution stands behind the callbacks, either integrated
// exactly or by the real CVODE of SUNDIALS; every callback is checked against the timeline of the simulation.
#include "common.h"
#include "adevs/adevs.h"
#include "adevs/solvers/cvode.h"
#include <cvode/cvode.h>
#include <nvector/nvector_serial.h>
#include <sunlinsol/sunlinsol_dense.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <cmath>
#include <memory>
namespace {
typedef adevs::PinValue<double> PV;
struct Ref {     // what is true of the system: independent of the wrapper
    int n;
    std::vector<double> a, b, y0;     // y' = a y + b since the last discrete event
    double t0 = 0;                    // local time of the last discrete event
    double th = 0, period = INFINITY, t_time = INFINITY, hmax = 1;
    bool now = false;                 // an output is due at once (after an input)
    double y(int i, double t) const { double d = t - t0; return (y0[i] + b[i] / a[i]) * std::exp(a[i] * d) - b[i] / a[i]; }
    double cross() const {            // local time at which y[0] meets th
        double c = b[0] / a[0], u = (th + c) / (y0[0] + c);
        if (!(u > 0) || y0[0] == th) return INFINITY;
        double d = std::log(u) / a[0];
        return d > 0 ? t0 + d : INFINITY;
    }
    double next() const { return now ? t0 : std::min(cross(), t_time); }
};
struct Sut : adevs::CVODE<double> {
    Ref ref;
    bool real;
    double tol;
    adevs::pin_t in, out;
    SUNContext ctx;
    N_Vector y, atol = nullptr;
    SUNMatrix A = nullptr;
    SUNLinearSolver LS = nullptr;
    void* mem = nullptr;
    double tc = 0;                    // where the integrator is
    // supplied by the driver
    double local = 0;                 // local time of the last transition
    double arrival = 0;              // local time of the transition being executed
    int transitions = 0, outs = 0, n_int = 0, n_ext = 0, n_conf = 0, n_integrate = 0, n_until = 0, n_reinit = 0;
    std::list<double> bag;
    int pending_integrate = 0;
    Sut(Ref const &r, bool real) : ref(r), real(real), tol(real ? 2e-5 : 1e-9) {
        SUNContext_Create(nullptr, &ctx);
        y = N_VNew_Serial(ref.n, ctx);
        for (int i = 0; i < ref.n; i++) NV_Ith_S(y, i) = ref.y0[i];
        if (real) {
            mem = CVodeCreate(CV_ADAMS, ctx);
            atol = N_VNew_Serial(ref.n, ctx);
            N_VConst(1e-10, atol);
            CVodeInit(mem, f, 0.0, y);
            CVodeSVtolerances(mem, 1e-9, atol);
            CVodeRootInit(mem, 1, g);
            A = SUNDenseMatrix(ref.n, ref.n, ctx);
            LS = SUNLinSol_Dense(y, A, ctx);
            CVodeSetLinearSolver(mem, LS, A);
            CVodeSetUserData(mem, this);
            CVodeSetMaxNumSteps(mem, 100000);
        }
    }
    ~Sut() {
        N_VDestroy(y);
        if (real) { N_VDestroy(atol); CVodeFree(&mem); SUNLinSolFree(LS); SUNMatDestroy(A); }
        SUNContext_Free(&ctx);
    }
    static int f(double, N_Vector y, N_Vector dy, void* u) {
        auto &r = ((Sut*)u)->ref;
        for (int i = 0; i < r.n; i++) NV_Ith_S(dy, i) = r.a[i] * NV_Ith_S(y, i) + r.b[i];
        return 0;
    }
    static int g(double, N_Vector y, double* o, void* u) { o[0] = NV_Ith_S(y, 0) - ((Sut*)u)->ref.th; return 0; }
    void at(char const* what, double t, N_Vector v) {
        for (int i = 0; i < ref.n; i++) {
            double w = ref.y(i, t);
            CHECK(std::fabs(NV_Ith_S(v, i) - w) <= tol * (1 + std::fabs(w)), "wrong_state", what << ": state " << i << " is " << NV_Ith_S(v, i) << ", should be " << w << " at time " << t);
        }
    }
    bool near(double a, double b) const { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)) + (real ? 1e-6 : 0); }
    void flow(double tf) {
        if (tf == tc) return;
        if (real) {
            double tr;
            // the contract: exactly tf, whatever roots lie on the way
            CVodeSetStopTime(mem, tf);
            int rc;
            do rc = CVode(mem, tf, y, &tr, CV_NORMAL); while (rc == CV_ROOT_RETURN && tr < tf);
            CHECK(rc >= 0, "cvode_failed", "CVode returned " << rc << " advancing from " << tc << " to " << tf);
            tc = tf;
        } else {
            for (int i = 0; i < ref.n; i++) {
                double c = ref.b[i] / ref.a[i];
                NV_Ith_S(y, i) = (NV_Ith_S(y, i) + c) * std::exp(ref.a[i] * (tf - tc)) - c;
            }
            tc = tf;
        }
    }
    // a discrete event at time t: the state changes and the reference starts over
    void jump(double t, std::list<PV> const* xb, bool event) {
        for (int i = 0; i < ref.n; i++) ref.y0[i] = ref.y(i, t);
        ref.t0 = t;
        if (event) {
            if (std::fabs(ref.t_time - t) < 1e-6) ref.t_time = t + ref.period;
            if (std::fabs(ref.y0[0] - ref.th) < 1e-4) { ref.y0[0] = ref.th + (ref.th > 0 ? -0.3 : 0.3); ref.th = -ref.th; }
            ref.now = false;
        }
        if (xb) {
            double s = 0;
            for (auto &x : *xb) s += x.value;
            ref.y0[ref.n - 1] += s;
            if (std::fabs(ref.y0[0] - ref.th) < 1e-3) ref.y0[0] += 0.01;
            if (std::fabs(s) > 0.15) ref.now = true;
        }
        for (int i = 0; i < ref.n; i++) NV_Ith_S(y, i) = ref.y0[i];
        if (real) CVodeReInit(mem, tc, y);
    }
    void cvode_integrate(double &tf, bool &ev) override {
        n_integrate++;
        local = arrival;      // the transition has just been executed
        CHECK(near(tc, local), "integrates_from_elsewhere", "integration starts at time " << tc << ", the last transition was at " << local);
        at("start of an integration", tc, y);
        double e = ref.next();
        ev_now = true;
        if (ref.now) { tf = tc; ev = true; return; }
        if (real) {
            double tr;
            CVodeSetStopTime(mem, std::min(tc + ref.hmax, ref.t_time));
            int rc = CVode(mem, std::min(tc + ref.hmax, ref.t_time), y, &tr, CV_NORMAL);
            CHECK(rc >= 0, "cvode_failed", "CVode returned " << rc);
            ev = rc == CV_ROOT_RETURN || tr == ref.t_time;
            tf = tc = tr;
            ev_now = ev;
            return;
        }
        tf = std::max(tc, std::min(e, tc + ref.hmax));
        ev = e <= tf;
        flow(tf);
    }
    void cvode_integrate_until(double tf, bool &ev) override {
        n_until++;
        CHECK(near(tf, arrival), "wrong_time", "asked to integrate until " << tf << " for an input at " << arrival);
        CHECK(near(tc, local), "integrates_from_elsewhere", "integration up to an input starts at time " << tc << ", the last transition was at " << local);
        at("start of an integration up to an input", tc, y);
        flow(tf);
        ev = false;
        if (!real && !ref.now && std::fabs(ref.next() - tf) <= 1e-12 * (1 + tf)) ev = true;
        // the model may take the moment of an input for an event of its own
        declared = !ev && !ref.now && k_declare.pct(12);
        if (declared) { ev = true; n_declared++; }
        until_event = ev;
    }
    Rng k_declare{1};
    bool until_event = false, ev_now = false, declared = false;
    int n_declared = 0;
    void cvode_reinit(N_Vector v, double t) override {
        n_reinit++;
        CHECK(near(t, local), "restarts_elsewhere", "restarted at time " << t << ", the last transition was at " << local);
        at("restart", t, v);
        CHECK(v != y, "state_not_saved", "restarted with the state that the integrator has changed");
        N_VScale(1.0, v, y);
        tc = t;
        if (real) CVodeReInit(mem, t, y);
    }
    void got(char const* what, double t, bool event, std::list<PV> const* xb) {
        CHECK(near(t, arrival), "wrong_time", what << " at time " << t << ", the current time is " << arrival);
        CHECK(near(tc, arrival), "wrong_time", what << ": the state is of time " << tc << ", the current time is " << arrival);
        at(what, arrival, y);
        std::list<double> b;
        if (xb) for (auto &x : *xb) b.push_back(x.value);
        b.sort();
        bag.sort();
        CHECK(b == bag, "wrong_input", what << ": " << b.size() << " values, should be " << bag.size());
        double e = ref.next();
        double band = (real ? 2e-5 : 1e-9) * (1 + arrival);
        if (declared) CHECK(event, "event_not_executed", what << " at time " << arrival << ", when the model found an event while it integrated up to the input");
        else CHECK(event ? std::fabs(e - arrival) <= band : real ? e >= arrival - band : e > arrival + band, event ? "event_too_early" : "event_not_executed", what << " at time " << arrival << ", next event at " << e);
        declared = false;
        transitions++;
        jump(tc, xb, event);     // in the time of the wrapper, which differs by rounding
    }
    void cvode_delta_int() override { n_int++; got("internal event", arrival, true, nullptr); }
    void cvode_delta_ext(double t, std::list<PV> const &xb) override { n_ext++; got("external event", t, false, &xb); }
    void cvode_delta_conf(std::list<PV> const &xb) override { n_conf++; got("confluent event", arrival, true, &xb); }
    void cvode_output_func(std::list<PV> &yb) override {
        outs++;
        CHECK(near(tc, arrival), "wrong_time", "output: the state is of time " << tc << ", the current time is " << arrival);
        at("output", arrival, y);
        double e = ref.next();
        CHECK(std::fabs(e - arrival) <= (real ? 1e-5 : 1e-9) * (1 + arrival), "output_without_event", "output at time " << arrival << ", next event at " << e);
        yb.push_back(PV(out, NV_Ith_S(y, 0)));
    }
    N_Vector cvode_get_state() override { return y; }
};
struct Lis : adevs::EventListener<double> {
    Sut* s; double t = -1; int changes = 0, outs = 0; double val = 0;
    Lis(Sut* s) : s(s) {}
    void outputEvent(adevs::Atomic<double> &m, PV &x, double) override { if (&m == s) { outs++; val = x.value; } }
    void inputEvent(adevs::Atomic<double> &, PV &, double) override {}
    void stateChange(adevs::Atomic<double> &m, double tt) override { if (&m == s) { changes++; t = tt; } }
};
// Lets the driver act on the graph as models do
struct Dummy : adevs::Atomic<double> {
    void delta_int() override {} void delta_ext(double, std::list<PV> const &) override {} void delta_conf(std::list<PV> const &) override {}
    void output_func(std::list<PV> &) override {}
    double ta() override { return adevs_inf<double>(); }
};
}  // namespace
void c21(Ctx &cx) {
    Rng r(cx.rngseed());
    bool real = r.pct(25);
    Ref ref;
    ref.n = r.pct(6) ? (int)r.in(4, 24) : (int)r.in(1, 3);
    cx.max("variables", ref.n);
    for (int i = 0; i < ref.n; i++) {
        ref.a.push_back(r.pct(70) ? -r.real(0.1, 1.5) : r.real(0.05, 0.4));
        ref.b.push_back(r.real(-1, 1));
        ref.y0.push_back(r.real(-1, 1));
    }
    ref.th = r.real(0.1, 0.6) * (r.pct(50) ? 1 : -1);
    if (std::fabs(ref.y0[0] - ref.th) < 0.05) ref.y0[0] += 0.1;
    ref.period = r.pct(50) ? r.real(0.3, 2) : INFINITY;
    ref.t_time = ref.period;
    ref.hmax = r.real(0.05, 1);
    bool readd = r.pct(25), again = r.pct(20);
    auto g = std::make_shared<adevs::Graph<double>>();
    auto s = std::make_shared<Sut>(ref, real);
    s->k_declare = Rng(cx.rngseed("declare"));
    auto dummy = std::make_shared<Dummy>();
    g->add_atomic(s);
    g->add_atomic(dummy);
    g->connect(s->in, s);
    adevs::pin_t dp;
    g->connect(dp, dummy);
    auto sim = std::make_unique<adevs::Simulator<double>>(g);
    auto l = std::make_shared<Lis>(s.get());
    sim->addEventListener(l);
    double off = 0;      // simulation time minus local time
    double now = 0;
    int steps = (int)r.in(5, real ? 40 : 60);
    int prev_integrate = 0;
    u64 sig = 0;
    for (int k = 0; k < steps; k++) {
        double tn = sim->nextEventTime(), foreseen = s->ref.next();
        double want = std::min(foreseen, s->local + s->ref.hmax) + off;
        CHECK(std::fabs(tn - want) <= (real ? 2e-5 : 1e-9) * (1 + want), "wrong_time_advance", "next event at " << tn << ", should be " << want);
        CHECK(s->n_integrate == prev_integrate + 1, "integrates_again", s->n_integrate - prev_integrate << " integrations after one transition");
        prev_integrate = s->n_integrate;
        // the real integrator decides by itself which of an event and the end of its step comes first
        bool event_due = real ? s->ev_now : std::fabs(foreseen + off - tn) <= 1e-9 * (1 + tn);
        int what = (int)r.below(100);
        double t = tn;
        s->bag.clear();
        bool input = what < 45;
        if (input) {
            int where = (int)r.below(5);
            if (where == 0) t = now;                                            // no time has passed
            else if (where == 1) t = tn;                                        // at the same time
            else if (where == 2 && !real) t = tn - std::min(1e-13, tn - now);   // just before
            else t = now + (tn - now) * r.real(0.05, 0.95);
            if (real && tn - t < 1e-3 && t != tn) t = tn - (tn - now) * 0.5;
            if (real && t - now < 1e-5 && t != now) t = now;
            int c = (int)r.in(1, 3);
            for (int i = 0; i < c; i++) { PV x(s->in, r.real(-0.1, 0.1)); s->bag.push_back(x.value); sim->injectInput(x); }
            sim->setNextTime(t);
        }
        int tr0 = s->transitions, out0 = s->outs, ch0 = l->changes, lo0 = l->outs;
        int ext0 = s->n_ext, int0 = s->n_int, conf0 = s->n_conf, re0 = s->n_reinit;
        s->arrival = t - off;
        s->until_event = false;
        bool imminent = t == tn;
        if (r.pct(20)) {
            sim->computeNextOutput();           // a look ahead changes nothing
            CHECK(s->outs == out0 + (imminent && event_due), "wrong_outputs", "a look ahead called the output function " << s->outs - out0 << " times");
            if (input) { for (double v : s->bag) { PV x(s->in, v); sim->injectInput(x); } }
            out0 = s->outs;
        }
        lo0 = l->outs;
        if (imminent && !input && !event_due) {
            // only the integrator's step ends here
            sim->execNextEvent();
            CHECK(s->transitions == tr0 && s->outs == out0, "event_out_of_nothing", "a step of the integrator executed an event");
            cx.cnt("steps_without_event");
        } else {
            sim->execNextEvent();
            CHECK(s->transitions == tr0 + 1, "event_count", "one event executed as " << s->transitions - tr0);
            CHECK(s->outs - out0 == (imminent && event_due) && l->outs - lo0 == (imminent && event_due), "wrong_outputs", "an event gave " << s->outs - out0 << " outputs");
            bool e = s->n_ext - ext0, i = s->n_int - int0, c = s->n_conf - conf0;
            if (!input) CHECK(i, "wrong_kind", "an internal event was executed as another kind");
            else if (imminent) CHECK(event_due ? c : e, "wrong_kind", "an input at an event was executed as another kind");
            else CHECK(s->until_event ? c : e, "wrong_kind", "an input before an event was executed as another kind");
            if (input && !imminent) CHECK(s->n_reinit == re0 + 1, "not_restarted", "the integrator was not restarted for an input between its steps");
            cx.cnt(i ? "internal_events" : c ? "confluent_events" : "external_events");
            if (e && t == now) cx.cnt("inputs_without_elapsed_time");
            if (c && !imminent) cx.cnt("events_met_by_inputs");
        }
        CHECK(l->changes == ch0 + 1, "event_count", "the model changed state " << l->changes - ch0 << " times in one cycle");
        now = t;
        s->local = t - off;
        // the listener saw the right time
        CHECK(l->t == t, "wrong_time", "listener saw time " << l->t << ", should be " << t);
        sig = hcomb(hcomb(sig, what < 45), s->n_conf, s->n_int);
        cx.cnt("callbacks", 1);
        cx.n["events_declared_at_inputs"] += s->n_declared; s->n_declared = 0;
        if (readd && r.pct(10) && sim->nextEventTime() > now) {
            // the model leaves, and joins again later, in the state it had
            g->remove_atomic(s);
            s->arrival = s->local;
            PV x(dp, 0);
            sim->injectInput(x);
            sim->setNextTime(now);
            sim->execNextEvent();
            CHECK(sim->nextEventTime() == adevs_inf<double>(), "removed_model_scheduled", "a model that was removed is scheduled");
            double away = r.real(0, 3);
            g->add_atomic(s);
            g->connect(s->in, s);
            sim->injectInput(x);
            sim->setNextTime(now + away);
            s->n_integrate = prev_integrate;
            sim->execNextEvent();
            if (s->n_integrate == prev_integrate) s->n_integrate++;      // the advance may be known already
            off += now + away - (s->local + off);
            now += away;
            cx.cnt("removed_and_added");
        } else if (again && r.pct(8)) {
            // the model is simulated again, in the state it had
            sim.reset();
            s->arrival = s->local;
            s->n_integrate = prev_integrate;
            sim = std::make_unique<adevs::Simulator<double>>(g);
            if (s->n_integrate == prev_integrate) s->n_integrate++;
            sim->addEventListener(l);
            off = -s->local;
            now = 0;
            cx.cnt("simulated_again");
        }
    }
    cx.cnt("integrations", s->n_integrate);
    cx.cnt("restarts", s->n_reinit);
    cx.cnt(real ? "with_sundials" : "with_exact_solution");
    cx.distinct.insert(hcomb(sig, cx.caseno));
    if (cx.caseno < 3) cx.sample(std::string(real ? "SUNDIALS" : "exact") + " n=" + std::to_string(ref.n) + " steps=" + std::to_string(steps) + " inputs=" + std::to_string(s->n_ext + s->n_conf));
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](std::string const &p) -> CaseFn { return p == "C21" ? c21 : nullptr; });
}
