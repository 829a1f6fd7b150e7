// C19: state event locators against known crossing times.
#include <cfloat>
#include <cmath>
#include <memory>
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/event_locators.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
#include "odes.h"

typedef adevs::ode_solver<double> Solver;
typedef adevs::event_locator<double> Locator;
enum { BIS, LIN, DISC, FAST, SPLINE };
static char const* const locs[] = {"bisection", "linear", "discontinuous", "fast", "fast+spline"};
static char const* const sols[] = {"exact", "corrected_euler", "rk_45", "trap"};

struct Z {
    int var;        // which state variable
    double c, s;    // level and slope (sign)
    int shape;      // 0 linear, 1 x+x^3, 2 atan, 3 exp, 4 step, 5 step without a zero, 6 zero everywhere
    double a = 1;   // amplitude
    double at(double const* q) const { return a * raw(q); }
    double raw(double const* q) const {
        double x = s * (q[var] - c);
        switch (shape) {
            case 0: return x;
            case 1: return x + x * x * x;
            case 2: return std::atan(x);
            case 3: return std::expm1(x);
            case 4: return x < 0 ? -1.0 : x > 0 ? 1.0 : 0.0;
            case 6: return 0;
            default: return x < 0 ? -0.25 : 3.0;
        }
    }
    double slope() const { return std::fabs(s); }
};
struct LocSys : public BlockSys {
    std::vector<Z> z;
    LocSys(Blocks const &B, int M) : BlockSys(B, M, true) {}
    void state_event_func(double const* q, double* r) override {
        for (int i = 0; i < numEvents(); i++) r[i] = z[i].at(q);
    }
};
// forwards to a solver and watches the calls
struct Watch : public Solver {
    Solver* s;
    long calls = 0, limit;
    std::string where;
    Watch(adevs::ode_system<double>* sys, Solver* s, long limit) : Solver(sys), s(s), limit(limit) {}
    double integrate(double* q, double h) override { return s->integrate(q, h); }
    void advance(double* q, double h) override {
        if (++calls > limit) FAIL("no-termination", where << ": more than " << limit << " trial states");
        CHECK(h >= 0, "negative-step", where << ": advance by " << h);
        s->advance(q, h);
    }
};
static int sgn(double x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

static void c19(Ctx &cx) {
    Rng r(cx.rngseed()), ar(cx.rngseed("amplitude"));
    int lk = (int)(cx.caseno % 5), sk = (int)(cx.caseno / 5 % 4);
    double hmax = std::pow(10.0, r.real(-2, r.pct(10) ? 3 : 0));
    // the unit of time: a power of two, so that the same system runs on any scale
    double const unit = ar.pct(30) ? std::ldexp(1.0, ar.in(-30, 30)) : 1.0;
    if (unit != 1.0) cx.cnt("other_time_scales");
    hmax *= unit;
    double lam = 1.0 / hmax * r.real(0.05, lk == SPLINE ? 0.3 : 1);
    double err_tol = hmax * std::pow(10.0, r.real(lk == FAST || lk == DISC ? -11 : -8, -2));
    double const ttol = err_tol;             // as a time
    if (lk == BIS || lk == LIN) err_tol /= unit;
    double stol = sk == 0 ? 0 : sk == 2 ? 1e-10 : 1e-7;
    Blocks B;
    // the clock, then falling or decaying variables
    int nb = r.pct(5) ? 4 + (int)r.below(30) : 1 + (int)r.below(3);
    for (int i = 0; i < nb; i++) {
        if (r.pct(60) || unit != 1.0) B.b.push_back({Block::EXPO, (r.pct(70) ? -1 : 1) * lam, 0});
        else B.b.push_back({Block::FALL, -lam * lam, 0});
    }
    B.b.insert(B.b.begin() + r.below(B.b.size() + 1), {Block::CLOCK, 1 / unit, 0});
    int ci = clock_index(B);
    bool none = r.pct(5);
    int M = none ? 0 : r.pct(6) ? 5 + (int)r.below(66) : 1 + (int)r.below(4);
    cx.max("functions", M);
    cx.max("variables", B.dim());
    LocSys sys(B, M);
    std::unique_ptr<Solver> base;
    switch (sk) {
        case 0: base.reset(new ExactSolver(&sys, sys.B, hmax)); break;
        case 1: base.reset(new adevs::corrected_euler<double>(&sys, stol, hmax)); break;
        case 2: base.reset(new adevs::rk_45<double>(&sys, stol, hmax)); break;
        default: base.reset(new adevs::trap<double>(&sys, stol, hmax, true)); break;
    }
    Watch w(&sys, base.get(), lk == LIN ? 20000 : 2000);
    std::unique_ptr<Locator> loc;
    switch (lk) {
        case BIS: loc.reset(new adevs::bisection_event_locator<double>(&sys, err_tol)); break;
        case LIN: loc.reset(new adevs::linear_event_locator<double>(&sys, err_tol)); break;
        case DISC: loc.reset(new adevs::discontinuous_event_locator<double>(&sys, err_tol)); break;
        default: loc.reset(new adevs::fast_event_locator<double>(&sys, err_tol, lk == SPLINE)); break;
    }
    int rounds = 1 + (int)r.below(4);
    for (int round = 0; round < rounds; round++) {
        // start
        std::vector<double> q = B.init(r);
        if (r.pct(60)) q[ci] = 0;
        {
            int o = 0;
            for (auto &b : B.b) {
                if (b.k == Block::FALL) { q[o] = r.real(0.2, 1); q[o + 1] = -lam * r.real(0.05, 0.5); }
                o += b.dim();
            }
        }
        if (sk && r.pct(50)) {  // let the solver find its step
            std::vector<double> t = q;
            for (int i = 0; i < 3; i++) w.integrate(t.data(), hmax);
        }
        std::vector<double> qe = q;
        double h = w.integrate(qe.data(), r.pct(60) ? hmax : hmax * r.unit() + 1e-3 * hmax);
        double const h0 = h;
        // crossing functions
        sys.z.clear();
        std::vector<double> tc;  // crossing times, infinity for none
        bool zero_start = r.pct(6);
        int which = (int)r.below(7);
        double t1 = h0 * r.unit(), t2 = h0 * r.unit();
        std::string pat;
        for (int i = 0; i < M; i++) {
            double t;
            int cls = r.pct(30) ? (int)r.below(8) : which;
            switch (cls) {
                case 0: t = INFINITY; break;
                case 1: t = t1; break;
                case 2: t = t2; break;
                case 3: t = h0; break;
                case 4: t = h0 - ttol * r.unit(); break;
                case 5: t = std::min(h0, ttol * r.real(0.01, 2)); break;
                case 6: t = h0 * r.unit(); break;
                default: t = h0 * (1 + r.real(1e-3, 2)); break;
            }
            if (t <= 0) t = h0 / 2;
            Z z;
            // variable: the clock, or the first variable of another block
            z.var = ci;
            double rate = 1 / unit;
            if (r.pct(50)) {
                int o = 0, pick = (int)r.below(B.b.size());
                for (int k = 0; k < pick; k++) o += B.b[k].dim();
                z.var = o;
            }
            bool inf = std::isinf(t);
            if (z.var != ci) {
                std::vector<double> a = B.flow(q, inf ? 1.5 * h0 : t), b = B.flow(q, 1.5 * h0);
                z.c = a[z.var];
                rate = (b[z.var] - q[z.var]) / (1.5 * h0);
            } else if (inf) z.c = q[ci] + 1.5 * h0 / unit;
            else z.c = t == h0 ? qe[ci] : q[ci] + t / unit;
            double span = std::fabs(rate) * h0;
            if (inf) t = 1.5 * h0;
            z.shape = lk == DISC || lk == FAST || lk == SPLINE ? (int)r.below(6) : (int)r.below(4);
            z.s = (r.pct(50) ? 1 : -1) * r.real(0.3, lk == LIN ? 1.5 : 3) / (z.shape >= 1 && z.shape <= 3 ? span : r.pct(50) ? span : 1.0);
            if (z.shape == 0 && r.pct(50)) z.s = r.pct(50) ? 1 : -1;
            if (ar.pct(8)) { z.a = std::pow(10.0, -ar.real(20, 280)); cx.cnt("functions_small"); }
            else if (lk >= DISC && ar.pct(8)) { z.a = std::pow(10.0, ar.real(20, 280)); cx.cnt("functions_large"); }
            if (ar.pct(4)) { z.shape = 6; t = 10 * h0; cx.cnt("functions_zero"); }
            if (zero_start && r.pct(50)) z.c = q[z.var];
            sys.z.push_back(z);
            tc.push_back(t);
            pat += (char)('0' + cls);
        }
        std::ostringstream o;
        o.precision(17);
        o << locs[lk] << "/" << sols[sk] << " tol " << err_tol << " h " << h0 << " hmax " << hmax << " crossings [";
        for (int i = 0; i < M; i++) o << " " << tc[i] << "(var" << sys.z[i].var - ci << " shape" << sys.z[i].shape << " s" << sys.z[i].s << ")";
        o << " ]";
        if (getenv("LT")) { o << " q0:"; for (double x : q) o << " " << x; o << " qe:"; for (double x : qe) o << " " << x; o << " c:"; for (auto &z : sys.z) o << " " << z.c; o << " lam " << lam; }
        std::string desc = o.str();
        w.where = desc;
        std::vector<int> s0;
        bool touching = false;
        for (auto &z : sys.z) { s0.push_back(sgn(z.at(q.data()))); if (z.shape != 6 && (!s0.back() || q[z.var] == z.c)) touching = true; }
        // one call, then more as long as the locator stops short of an event
        double t = 0, first = INFINITY;
        for (double x : tc) first = std::min(first, x);
        std::vector<double> qs = q;
        int calls = 0, shorts = 0;
        bool done = false;
        double const tend = h0;
        while (!done) {
            double hin = h;
            std::vector<double> qs0 = qs, qe0 = qe;
            std::unique_ptr<bool[]> ev(new bool[M + 1]);
            for (int i = 0; i <= M; i++) ev[i] = r.pct(50);
            bool const mark = ev[M];
            std::unique_ptr<double[]> a(new double[q.size()]), b(new double[q.size()]);
            std::copy(qs.begin(), qs.end(), a.get());
            std::copy(qe.begin(), qe.end(), b.get());
            w.calls = 0;
            bool found = loc->find_events(ev.get(), a.get(), b.get(), &w, h);
            cx.max("trial_states", w.calls);
            std::copy(b.get(), b.get() + q.size(), qe.begin());
            calls++;
            std::ostringstream ow;
            ow.precision(17);
            ow << desc << " call " << calls << " from t=" << t << " step " << hin << " -> " << (found ? "event" : "none") << " at " << h << " flags ";
            for (int i = 0; i < M; i++) ow << ev[i];
            std::string what = ow.str();
            CHECK(h > 0 && h <= hin, "step", what);
            for (size_t i = 0; i < q.size(); i++) CHECK(a[i] == qs0[i], "start-modified", what);
            CHECK(ev[M] == mark, "flags-beyond-end", what);
            CHECK(!found || M > 0, "event-without-functions", what);
            if (!found && h == hin) for (size_t i = 0; i < q.size(); i++) CHECK(std::fabs(qe[i] - qe0[i]) <= 1e-6 * stol, "state-changed", what << " variable " << i << " " << qe0[i] << " -> " << qe[i]);
            // the state is the flow over the step returned
            double trapb = 0.3 * std::pow(lam * hin, 3) + 1e-5;
            std::vector<double> x = B.flow(qs0, h);
            double sp = lk == SPLINE && h < hin ? std::pow(lam * hin, 4) / 384 * 8 : 0;
            if (lk == SPLINE) sp += stol * 4;
            for (size_t i = 0; i < q.size(); i++) {
                double tol = 1e-12 * (1 + std::fabs(qs0[i])) + ((int)i == ci ? (lk == SPLINE || sk == 3 ? 1e-8 * hmax / unit + 1e-9 : 0) : 40 * stol + sp + (sk == 3 ? trapb : 0));
                CHECK(std::fabs(qe[i] - x[i]) <= tol, "wrong-state", what << " variable " << i << (((int)i == ci) ? " (clock)" : "") << " is " << (StrB() << "").operator std::string() << qe[i] << ", flow gives " << x[i] << " off by " << qe[i] - x[i]);
            }
            std::vector<int> s1;
            for (auto &z : sys.z) s1.push_back(sgn(z.at(qe.data())));
            if (touching) { cx.cnt("starts_on_a_surface"); break; }
            bool any = false;
            for (int i = 0; i < M; i++) {
                bool ch = s1[i] != s0[i];
                any |= ch;
                if (found) CHECK(ev[i] == ch, "flags", what << ": function " << i << (ch ? " changed" : " did not change") << " sign");
                else CHECK(!ev[i], "flags-without-event", what << ": function " << i);
            }
            if (found) CHECK(any, "no-crossing-reported", what);
            else CHECK(!any, "crossing-skipped", what << ": a function changed sign up to the returned step");
            t += h;
            // location
            double dt = 1e-11 * (unit * (1 + std::fabs(q[ci])) + hmax);
            double slow = 1e300;
            for (int i = 0; i < M; i++) if (sys.z[i].var != ci) {
                double rr = std::fabs(B.flow(q, 1.01 * h0)[sys.z[i].var] - B.flow(q, 0.99 * h0)[sys.z[i].var]) / (0.02 * h0);
                slow = std::min(slow, rr);
            }
            for (int i = 0; i < M; i++) if (sys.z[i].var != ci) {
                double rr = std::fabs(B.flow(q, 0.01 * h0)[sys.z[i].var] - q[sys.z[i].var]) / (0.01 * h0);
                slow = std::min(slow, rr);
            }
            if (slow < 1e300) dt += calls * (60 * stol + sp + (sk == 3 ? trapb : 0) + 1e-12) / slow;
            if (lk == SPLINE || sk == 3) dt += 1e-8 * hmax + 1e-9 * unit;
            if (found) {
                CHECK(t >= first - dt, "too-early", what << ": first crossing at " << first << ", reported at " << t);
                if (lk >= DISC) CHECK(t <= first + err_tol + dt, "too-late", what << ": first crossing at " << first << ", reported at " << t);
                else for (int i = 0; i < M; i++) if (ev[i]) CHECK(std::fabs(sys.z[i].at(qe.data())) <= err_tol, "not-located", what << ": function " << i << " is " << sys.z[i].at(qe.data()));
                cx.cnt("events_located");
                int nf = 0;
                for (int i = 0; i < M; i++) nf += ev[i];
                if (nf > 1) cx.cnt("simultaneous_events");
                cx.cnt(("events_" + std::string(locs[lk])).c_str());
                done = true;
            } else {
                CHECK(t <= first + dt, "event-skipped", what << ": crossing at " << first << " passed, now at " << t);
                if (h == hin && t >= tend * (1 - 1e-12)) {
                    cx.cnt("no_event_in_interval");
                    done = true;
                } else {
                    cx.cnt("stopped_short");
                    CHECK(lk < FAST || h == hin, "stopped-short", what);
                    if (h < hin) shorts++;
                    CHECK(shorts < (lk == LIN ? 3000 : 300), "creeping", what << ": no event after " << shorts << " short steps");
                    qs = qe;
                    h = tend - t;
                    if (h <= 0) break;
                    double got = w.integrate(qe.data(), h);
                    h = got;
                    for (int i = 0; i < M; i++) s0[i] = sgn(sys.z[i].at(qs.data()));
                }
            }
            cx.max("short_steps_to_reach_event", shorts);
        }
        cx.cnt("searches");
        cx.distinct.insert(hcomb(hstr(pat), std::hash<double>()(first), std::hash<double>()(err_tol)));
        cx.sample(desc);
    }
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](std::string const &p) -> CaseFn { return p == "C19" ? c19 : nullptr; });
}
