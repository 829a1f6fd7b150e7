// C20: hybrid models under inputs at every possible instant, against closed-form solutions.
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <memory>
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/event_locators.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
#include "odes.h"

typedef adevs::ode_solver<double> Solver;
typedef adevs::event_locator<double> Locator;
typedef adevs::Hybrid<double> Hybrid;
typedef adevs::PinValue<double> PV;
typedef std::list<PV> Bag;
enum { BIS, LIN, DISC, FAST, SPLINE, NONE };
static char const* const locs[] = {"bisection", "linear", "discontinuous", "fast", "fast+spline", "null"};
static char const* const sols[] = {"exact", "corrected_euler", "rk_45", "trap"};

// what a discrete event does to the model, drawn from a stream of its own
struct HSys : public adevs::ode_system<double> {
    struct Zf { int block, var; double level, s; int shape; };
    Blocks B;
    std::vector<Zf> z;
    double T = INFINITY;   // time of the next time event
    int ci;
    Rng r, ra;
    double unit = 1;       // all times in here are counted in units, a power of two
    Ctx &cx;
    adevs::pin_t out;
    std::string desc;
    // tolerances
    double dstate = 0, loc_dt = 0, loc_z = 0, hmax;
    bool halving = false, natural = false;
    double prev = 0;              // time of the cycle before
    // monitor
    double now = 0;               // simulation time, set by the driver
    double t0 = 0;                // time of the last discrete event
    std::vector<double> P;        // state after it
    long events = 0;              // internal and confluent events executed
    std::vector<double> tz;       // predicted crossing times
    double tpred = INFINITY;
    long out_id = -1;
    std::vector<bool> out_flags;
    std::vector<double> out_q;
    std::vector<double> expect;   // output owed to the sink in order
    std::vector<double> expect_t;
    std::vector<double> bag;      // inputs given in this cycle
    bool bag_used = false;
    int discrete = 0, chain = 0;
    double post_clock = -1;
    bool in_ctor = true;
    long n_int = 0, n_ext = 0, n_conf = 0, n_missed = 0;
    std::string log;

    HSys(Blocks const &b, int M, u64 seed, Ctx &cx) : ode_system(b.dim(), M), B(b), ci(clock_index(b)), r(seed), ra(hcomb(seed, 77)), cx(cx) {}
    int offset(int blk) const { int o = 0; for (int i = 0; i < blk; i++) o += B.b[i].dim(); return o; }
    double zval(Zf const &f, double const* q) const {
        double x = f.s * (q[f.var] - f.level);
        switch (f.shape) {
            case 0: return x;
            case 1: return std::atan(x);
            case 2: return x < 0 ? -1 : x > 0 ? 1 : 0;
            default: return x < 0 ? -0.25 : 3;
        }
    }
    std::string where(char const* what, double const* q) {
        std::ostringstream o;
        o.precision(17);
        o << desc << " " << what << " at " << now << " state";
        for (int i = 0; i < numVars(); i++) o << " " << q[i];
        o << " last event " << t0 << " predicted time event " << T << " crossings";
        for (double x : tz) o << " " << x;
        o << " history " << (log.size() > 400 ? log.substr(log.size() - 400) : log);
        return o.str();
    }
    // the state is the solution since the last discrete event
    void check_state(char const* what, double const* q, double t) {
        std::vector<double> x = B.flow(P, t - t0);
        for (int i = 0; i < numVars(); i++) {
            double tol = i == ci ? 1e-9 * (1 + std::fabs(t)) : dstate;
            if (!(std::fabs(q[i] - x[i]) <= tol)) FAIL(i == ci ? "wrong-time" : "wrong-state", where(what, q) << ": variable " << i << (i == ci ? " (clock)" : "") << " is " << q[i] << ", the solution is " << x[i]);
        }
        cx.cnt("states_checked");
    }
    double crossing(Zf const &f, double const* q) const {
        Block const &b = B.b[f.block];
        double x = q[f.var], L = f.level;
        switch (b.k) {
            case Block::CLOCK: return L > x ? L - x : INFINITY;
            case Block::RAMP: { double d = (L - x) / b.a; return b.a != 0 && d > 0 ? d : INFINITY; }
            case Block::EXPO: { double u = (L - b.b) / (x - b.b); if (u > 0 && (b.a < 0 ? u < 1 : u > 1)) return std::log(u) / b.a; return INFINITY; }
            default: return INFINITY;
        }
    }
    double slope(Zf const &f, double tc) const {  // |dz/dt| near the crossing
        Block const &b = B.b[f.block];
        double v = 1;
        if (b.k == Block::RAMP) v = std::fabs(b.a);
        if (b.k == Block::EXPO) { std::vector<double> x = B.flow(P, tc - t0); v = std::fabs(b.a * (x[f.var] - b.b)); }
        return v;
    }
    double tol_time(int i) const {  // how late the event may be located
        if (std::isinf(tz[i])) return 0;
        double v = slope(z[i], tz[i]);
        return loc_dt + (loc_z > 0 ? 1.5 * loc_z / (std::fabs(z[i].s) * v) : 0);
    }
    double dsol(int i) const {
        if (std::isinf(tz[i])) return 0;
        return 1e-9 * (1 + tz[i]) + (B.b[z[i].block].k == Block::CLOCK ? (loc_dt > 0 ? 1e-12 : 0) : 2 * dstate / slope(z[i], tz[i]));
    }
    void predict(double const* q) {
        P.assign(q, q + numVars());
        t0 = now;
        tz.clear();
        tpred = T;
        for (auto &f : z) {
            double c = crossing(f, q);
            tz.push_back(now + c);
            tpred = std::min(tpred, now + c);
        }
    }
    // latest time at which something must have happened
    double deadline() const {
        double d = T + 1e-9 * (1 + std::fabs(T));
        if (std::isinf(T)) d = INFINITY;
        for (size_t i = 0; i < tz.size(); i++) if (!std::isinf(tz[i])) d = std::min(d, tz[i] + tol_time(i) + dsol(i));
        return d;
    }
    void check_flags(char const* what, double const* q, bool const* ev) {
        bool any = false;
        int nf = 0;
        for (int i = 0; i <= numEvents(); i++) { any |= ev[i]; nf += ev[i]; }
        CHECK(any, "event-without-cause", where(what, q));
        double eps = 1e-9 * (1 + now);
        if (ev[numEvents()]) { CHECK(std::fabs(now - T) <= eps, "time-event-at-wrong-time", where(what, q)); cx.cnt("time_events"); }
        else {
            CHECK(now < T + eps, "time-event-missed", where(what, q));
            // this locator cuts a step in half or not at all: with the clock at the time event, the whole step was taken
            if (halving && natural && std::fabs(now - prev - hmax) > 1e-9) CHECK(q[ci] < T, "time-event-not-flagged", where(what, q));
        }
        if (ev[numEvents()] && nf > 1) cx.cnt("time_and_state_events");
        for (int i = 0; i < numEvents(); i++) {
            if (ev[i]) {
                CHECK(now >= tz[i] - dsol(i) && now <= tz[i] + tol_time(i) + dsol(i), "state-event-at-wrong-time", where(what, q) << ": function " << i << " tolerance " << tol_time(i) << " + " << dsol(i));
                cx.cnt("state_events");
            } else CHECK(now <= tz[i] + tol_time(i) + dsol(i), "state-event-missed", where(what, q) << ": function " << i << " tolerance " << tol_time(i) << " + " << dsol(i));
        }
        if (nf > 1) cx.cnt("simultaneous_events");
    }
    // random changes at a discrete event; every watched level is moved away from the state
    void act(double* q, bool const* ev) {
        for (size_t k = 0; k < B.b.size(); k++) {
            int o = offset((int)k);
            Block &b = B.b[k];
            if (b.k == Block::RAMP && r.pct(40)) b.a = (r.pct(50) ? 1 : -1) * r.real(0.2, 2);
            if (b.k == Block::EXPO && r.pct(30)) b.b = q[o] + (r.pct(50) ? 1 : -1) * r.real(0.5, 2);
            if (b.k != Block::CLOCK && r.pct(15)) {
                q[o] = r.real(-1, 1);
                if (b.k == Block::EXPO) b.b = q[o] + (r.pct(50) ? 1 : -1) * r.real(0.5, 2);
            }
            // keep the solution lively
            if (b.k == Block::EXPO && std::fabs(q[o] - b.b) < 0.3) b.b = q[o] + (r.pct(50) ? 1 : -1) * r.real(0.5, 2);
            if (b.k == Block::ROT && r.pct(20)) { q[o] = r.real(-1, 1); q[o + 1] = r.real(-1, 1); }
        }
        set_levels(q, false);
        if (ev == nullptr || ev[numEvents()] || r.pct(20)) set_time(q);
        align(q);
    }
    // a state event at the very time of the time event, or so little before it that the locator sees them together
    void align(double const* q) {
        for (Zf &f : z) {
            Block const &b = B.b[f.block];
            double left = T - q[ci];
            if (!(left > 0.02) || std::isinf(T)) continue;
            if (b.k == Block::CLOCK && f.var == ci && r.pct(40)) f.level = T;
            if (ra.pct(25)) continue;
            double width = std::max(loc_dt, loc_z > 0 ? loc_z / std::fabs(f.s) : 0.0);
            double before = left - width * ra.unit() * 1.2;
            if (!(before > 0.01)) continue;
            if (b.k == Block::CLOCK && f.var == ci && ra.pct(25)) { f.level = q[ci] + before; cx.cnt("crossings_just_before_time_event"); }
            if (b.k == Block::RAMP && b.a != 0 && ra.pct(12)) {
                f.level = q[f.var] + b.a * before;
                cx.cnt("crossings_just_before_time_event");
            }
        }
    }
    void set_time(double const* q) {
        int c = (int)r.below(8);
        if (c == 0) T = INFINITY;
        else if (c == 1 && chain < 2) { T = q[ci]; chain++; }
        else if (c == 2) T = q[ci] + hmax;   // ends a step exactly
        else {
            T = q[ci] + hmax * std::pow(10.0, r.real(-2, 1.3));
            chain = 0;
        }
    }
    void set_levels(double const* q, bool all) {
        for (size_t i = 0; i < z.size(); i++) {
            Zf &f = z[i];
            Block const &b = B.b[f.block];
            f.var = offset(f.block);
            bool close = std::fabs(q[f.var] - f.level) < 0.02;
            double c = crossing(f, q);
            if (!(all || close || r.pct(50)) && !(b.k == Block::EXPO && !std::isinf(c) && slope_at(f, q, c) < 0.1)) continue;
            switch (b.k) {
                case Block::CLOCK: f.level = q[f.var] + r.real(0.02, 4) * (r.pct(30) ? hmax : 1); if (f.level < q[f.var] + 0.02) f.level = q[f.var] + 0.02; break;
                case Block::RAMP: f.level = q[f.var] + (r.pct(80) ? 1 : -1) * (b.a < 0 ? -1 : 1) * r.real(0.03, 2); break;
                default: f.level = q[f.var] + (b.b - q[f.var]) * (r.pct(85) ? r.real(0.1, 0.7) : r.real(1.1, 2)) ; break;
            }
            if (i > 0 && f.block == z[i - 1].block && r.pct(30)) { f.level = z[i - 1].level; }
        }
    }
    double slope_at(Zf const &f, double const* q, double) const { Block const &b = B.b[f.block]; return std::fabs(b.a * (f.level - b.b)) + 0 * q[0]; }

    // ode_system
    void init(double* q) override {
        int o = 0;
        for (auto &b : B.b) { b.init(r, q + o); o += b.dim(); }
        q[ci] = 0;
        set_levels(q, true);
        set_time(q);
        if (T <= 0) T = hmax * 1.5;
        align(q);
        now = 0;
        post_clock = q[ci];
        predict(q);
    }
    void der_func(double const* q, double* dq) override {
        B.der(q, dq);
        for (int i = 0; i < numVars(); i++) dq[i] /= unit;
    }
    bool get_jacobian(double const* q, double* J) override {
        if (J) {
            B.jac(q, J);
            for (int i = 0; i < numVars() * numVars(); i++) J[i] /= unit;
        }
        return true;
    }
    void state_event_func(double const* q, double* v) override { for (size_t i = 0; i < z.size(); i++) v[i] = zval(z[i], q); }
    double time_event_func(double const* q) override { return std::isinf(T) ? (r.s & 64 ? DBL_MAX : INFINITY) : std::max(0.0, T - q[ci]) * unit; }
    void postStep(double* q) override {
        post_clock = q[ci];
        check_state("postStep", q, now);
        cx.cnt("post_steps");
    }
    void output_func(double const* q, bool const* ev, Bag &yb) override {
        check_state("output_func", q, now);
        check_flags("output_func", q, ev);
        out_id = events;
        out_q.assign(q, q + numVars());
        out_flags.assign(ev, ev + numEvents() + 1);
        for (double v : emission(events)) yb.push_back(PV(out, v));
        cx.cnt("output_calls");
    }
    static std::vector<double> emission(long id) {
        if (id % 4 == 3) return {};
        if (id % 4 == 1) return {id + 0.25, id + 0.5};
        return {(double)id};
    }
    void owed(char const* what, double const* q, bool const* ev) {
        CHECK(out_id == events, "no-output-before-event", where(what, q) << ": output last computed for event " << out_id << ", this is event " << events);
        for (int i = 0; i <= numEvents(); i++) CHECK(out_flags[i] == ev[i], "flags-differ-from-output", where(what, q) << ": flag " << i << " " << out_flags[i] << " at output, " << ev[i] << " at event");
        for (int i = 0; i < numVars(); i++) CHECK(std::fabs(out_q[i] - q[i]) < 1e-12 * (1 + std::fabs(q[i])), "state-differs-from-output", where(what, q) << ": variable " << i << " was " << out_q[i]);
        for (double v : emission(events)) { expect.push_back(v); expect_t.push_back(now); }
        events++;
        discrete++;
    }
    void check_bag(char const* what, double const* q, Bag const &xb) {
        std::vector<double> a;
        for (auto &x : xb) a.push_back(x.value);
        std::sort(a.begin(), a.end());
        std::vector<double> b = bag;
        std::sort(b.begin(), b.end());
        CHECK(!bag_used && a == b, "wrong-input", where(what, q) << ": got " << a.size() << " values, sent " << b.size() << (bag_used ? ", already used" : ""));
        bag_used = true;
    }
    void internal_event(double* q, bool const* ev) override {
        log += " i" + std::to_string(now);
        check_state("internal_event", q, now);
        check_flags("internal_event", q, ev);
        CHECK(post_clock == q[ci], "no-postStep", where("internal_event", q));
        CHECK(bag.empty(), "input-dropped", where("internal_event", q));
        owed("internal_event", q, ev);
        n_int++;
        act(q, ev);
        predict(q);
        cx.cnt("internal_events");
    }
    void external_event(double* q, double e, Bag const &xb) override {
        e /= unit;
        log += " x" + std::to_string(now);
        check_state("external_event", q, now);
        CHECK(post_clock == q[ci], "no-postStep", where("external_event", q));
        CHECK(std::fabs(e - (now - t0)) <= 1e-9 * (1 + now), "wrong-elapsed-time", where("external_event", q) << ": e is " << e << ", last discrete event was " << now - t0 << " ago");
        CHECK(now <= deadline(), "event-missed", where("external_event", q) << ": an event was due by " << deadline());
        // the state has certainly passed no surface, however close it may be
        for (size_t i = 0; i < tz.size(); i++) CHECK(now <= tz[i] + dsol((int)i), "event-lost-to-input", where("external_event", q) << ": function " << i << " crossed zero at " << tz[i] << " and no event followed, margin " << dsol((int)i));
        check_bag("external_event", q, xb);
        discrete++;
        n_ext++;
        act(q, nullptr);
        predict(q);
        cx.cnt("external_events");
    }
    void confluent_event(double* q, bool const* ev, Bag const &xb) override {
        log += " c" + std::to_string(now);
        check_state("confluent_event", q, now);
        CHECK(post_clock == q[ci], "no-postStep", where("confluent_event", q));
        check_flags("confluent_event", q, ev);
        check_bag("confluent_event", q, xb);
        owed("confluent_event", q, ev);
        n_conf++;
        act(q, ev);
        predict(q);
        cx.cnt("confluent_events");
    }
};
struct Sink : public adevs::Atomic<double> {
    HSys* s;
    size_t got = 0;
    explicit Sink(HSys* s) : s(s) {}
    void recv(Bag const &xb) {
        for (auto &x : xb) {
            // the output of an event arrives while the event executes, or just after it
            seen.push_back({x.value, s->now});
        }
    }
    std::vector<std::pair<double, double>> seen;
    void delta_int() override {}
    void delta_ext(double, Bag const &xb) override { recv(xb); }
    void delta_conf(Bag const &xb) override { recv(xb); }
    void output_func(Bag &) override {}
    double ta() override { return adevs_inf<double>(); }
};
struct Obs : public adevs::EventListener<double> {
    HSys* s;
    Hybrid* h;
    bool flush = false;
    long changes = 0;
    void outputEvent(adevs::Atomic<double> &, PV &, double) override {}
    void inputEvent(adevs::Atomic<double> &, PV &, double) override {}
    void stateChange(adevs::Atomic<double> &m, double t) override {
        if (&m != h) return;
        t /= s->unit;
        changes++;
        CHECK(t == s->now, "listener-time", s->desc << " " << t << " " << s->now);
        // the state reported is the state after the transition
        s->check_state("state change", h->getState(), s->now);
        for (int i = 0; i < s->numVars(); i++) CHECK(h->getState(i) == h->getState()[i], "getState", s->desc);
        if (!flush) CHECK(h->eventHappened() == (s->discrete > 0), "eventHappened", s->where("state change", h->getState()) << ": reports " << h->eventHappened() << ", executed " << s->discrete);
        CHECK(s->discrete <= 1, "two-events-in-one-transition", s->where("state change", h->getState()));
    }
};

static void c20(Ctx &cx) {
    Rng r(cx.rngseed());
    int lk = (int)(cx.caseno % 6), sk = (int)(cx.caseno / 6 % 8);
    int conv = sk >= 6 ? sk - 5 : 0;  // the convenience classes
    if (conv) { lk = DISC; sk = conv == 1 ? 2 : 3; }
    if (sk >= 4) sk = 0;
    double hmax = std::pow(10.0, r.real(-2, -0.3));
    if (sk == 3) hmax = std::min(hmax, 0.03);
    Blocks B;
    int nb = r.pct(5) ? 4 + (int)r.below(20) : 1 + (int)r.below(3);
    for (int i = 0; i < nb; i++) {
        switch (r.below(4)) {
            case 0: B.b.push_back({Block::EXPO, -r.real(0.4, 1.2), r.real(2, 3)}); break;
            case 1: B.b.push_back({Block::ROT, r.real(0.3, 1), 0}); break;
            default: B.b.push_back({Block::RAMP, (r.pct(50) ? 1 : -1) * r.real(0.2, 2), 0}); break;
        }
    }
    B.b.insert(B.b.begin() + r.below(B.b.size() + 1), {Block::CLOCK, 0, 0});
    int M = lk == NONE ? 0 : r.pct(6) ? 4 + (int)r.below(60) : (int)r.below(4);
    cx.max("functions", M);
    cx.max("variables", B.dim());
    HSys* s = new HSys(B, M, r.next(), cx);
    s->hmax = hmax;
    Rng ru(cx.rngseed("unit"));
    double const unit = !conv && ru.pct(30) ? std::ldexp(1.0, ru.in(-30, 30)) : 1.0;
    s->unit = unit;
    if (unit != 1.0) cx.cnt("other_time_scales");
    for (int i = 0; i < M; i++) {
        int k;
        do k = (int)r.below(B.b.size()); while (B.b[k].k == Block::ROT);
        s->z.push_back({k, s->offset(k), 0, (r.pct(50) ? 1 : -1) * r.real(0.3, 2), lk == DISC || lk == FAST || lk == SPLINE ? (int)r.below(4) : (int)r.below(2)});
    }
    double err_tol = std::pow(10.0, r.pct(50) ? r.real(-3.5, -2) : r.real(-9, -2.5));
    double stol = sk == 0 ? 0 : sk == 1 ? 1e-6 : sk == 2 ? 1e-9 : 1e-6;
    if (sk && err_tol < 1e-7) err_tol = 1e-7;
    if (err_tol > hmax / 10) err_tol = hmax / 10;
    if (lk == DISC && !conv && r.pct(25)) err_tol = hmax * r.real(0.5, 2);
    s->halving = lk == DISC;
    s->dstate = sk == 0 ? 1e-10 : sk == 1 ? 1e-3 : sk == 2 ? 1e-6 : 1e-3;
    if (lk == SPLINE) s->dstate += 1.5e-2 * std::pow(hmax, 4) + 1e-9;
    if (conv) { stol = err_tol = conv == 1 ? 1e-6 : 1e-5; if (err_tol > hmax / 10) hmax = s->hmax = 10 * err_tol; s->dstate = 1e-3; }
    Solver* so = nullptr;
    if (!conv) switch (sk) {
        case 0: so = new ExactSolver(s, s->B, hmax * unit, unit); break;
        case 1: so = new adevs::corrected_euler<double>(s, stol, hmax * unit); break;
        case 2: so = new adevs::rk_45<double>(s, stol, hmax * unit); break;
        default: so = new adevs::trap<double>(s, stol, hmax * unit, true); break;
    }
    Locator* lo = nullptr;
    if (conv) s->loc_dt = err_tol;
    else switch (lk) {
        case BIS: lo = new adevs::bisection_event_locator<double>(s, err_tol); s->loc_z = err_tol; break;
        case LIN: lo = new adevs::linear_event_locator<double>(s, err_tol); s->loc_z = err_tol; break;
        case DISC: lo = new adevs::discontinuous_event_locator<double>(s, err_tol * unit); s->loc_dt = err_tol; break;
        case NONE: lo = new adevs::null_event_locator<double>(); break;
        default: lo = new adevs::fast_event_locator<double>(s, err_tol * unit, lk == SPLINE); s->loc_dt = err_tol; break;
    }
    std::ostringstream o;
    o.precision(17);
    o << (conv == 1 ? "ExplicitHybrid" : conv == 2 ? "ImplicitHybrid" : "hybrid") << "(" << sols[sk] << ", " << locs[lk] << " " << err_tol << ") h_max " << hmax << " unit " << unit << " vars " << B.dim() << " functions " << M;
    s->desc = o.str();
    cx.sample(s->desc);
    std::shared_ptr<Hybrid> h;
    if (conv == 1) h = std::make_shared<adevs::ExplicitHybrid<double>>(s, err_tol, hmax);
    else if (conv == 2) h = std::make_shared<adevs::ImplicitHybrid<double>>(s, err_tol, hmax);
    else h = std::make_shared<Hybrid>(s, so, lo);
    if (conv) cx.cnt("convenience_classes");

    CHECK(!h->eventHappened(), "eventHappened", "before the first transition");
    CHECK(h->getSystem() == s, "getSystem", "");
    std::shared_ptr<Sink> sink = std::make_shared<Sink>(s);
    std::shared_ptr<adevs::Graph<double>> g = std::make_shared<adevs::Graph<double>>();
    adevs::pin_t in;
    g->add_atomic(h);
    g->add_atomic(sink);
    g->connect(in, h);
    g->connect(s->out, sink);
    adevs::Simulator<double> sim(g);
    std::shared_ptr<Obs> obs = std::make_shared<Obs>();
    obs->s = s;
    obs->h = h.get();
    sim.addEventListener(obs);
    double last = 0;
    double const tend = r.real(2, 12);
    int inputs = (int)r.below(60);
    double rate = r.pct(20) ? 0 : r.real(0.05, 0.7);
    long cycles = 0, val = 1, repeat = 0;
    u64 hist = 0;
    while (true) {
        double tn = sim.nextEventTime() / unit;
        CHECK(tn >= last, "time-backwards", s->desc);
        if (tn > tend || std::isinf(tn)) {
            // nothing was due before the end
            double upto = std::min(tn, tend);
            CHECK(upto <= s->deadline() || std::isinf(s->deadline()), "event-never-happened", s->where("end", h->getState()) << ": due by " << s->deadline());
            break;
        }
        double t = tn;
        bool inject = false;
        bool pending = sink->seen.size() < s->expect.size();
        bool window = s->tpred > last && s->tpred < tn;
        if (inputs > 0 && (r.unit() < rate || (pending && r.pct(40)) || (window && r.pct(60)))) {
            inject = true;
            if (pending) cx.cnt("inputs_with_pending_output");
            switch (window && r.pct(60) ? 3 : r.below(6)) {
                case 0: t = tn; break;                                        // with the next event or end of a step
                case 1: t = last; break;                                      // again at the same time
                case 2: t = last + (tn - last) * std::pow(10.0, r.real(-9, 0)); break;
                case 3: t = s->tpred > last && s->tpred < tn ? s->tpred + (tn - s->tpred) * r.unit() : tn - (tn - last) * std::pow(10.0, r.real(-9, 0)); break;   // past an event, before its step ends
                case 4: t = s->tpred > last && s->tpred <= tn ? s->tpred : tn; break;
                default: t = last + (tn - last) * r.unit(); break;
            }
            if (r.pct(8)) {   // some representable numbers away from the step's end or start
                bool up = r.pct(40);
                t = up ? last : tn;
                for (int k = 1 + (int)r.below(4); k > 0; k--) t = std::nextafter(t, up ? tn : last);
                if (t < 1e-290) t = up ? std::min(1e-290, tn) : last;
                cx.cnt("inputs_ulps_from_step");
            }
            if (!(t >= last)) t = last;
            if (!(t <= tn)) t = tn;
            if (t == last) { if (++repeat > 4) t = tn; } else repeat = 0;
            inputs--;
        }
        if (inject && t < tn && r.pct(10)) {
            // output computed in advance and then withdrawn
            s->now = tn;
            s->prev = last;
            s->natural = true;
            sim.computeNextOutput();
            cx.cnt("outputs_withdrawn");
        }
        s->now = t;
        s->prev = last;
        s->natural = !inject;
        s->bag.clear();
        s->bag_used = false;
        s->discrete = 0;
        size_t owed_before = s->expect.size();
        obs->flush = sink->seen.size() < owed_before;
        if (obs->flush) cx.cnt("late_outputs");
        if (inject) {
            int n = 1 + (int)r.below(3);
            sim.setNextTime(t * unit);
            for (int i = 0; i < n; i++) {
                PV x(in, (double)val++);
                s->bag.push_back(x.value);
                sim.injectInput(x);
            }
            cx.cnt("inputs");
        }
        long ch = obs->changes;
        double before = s->tpred;
        bool late = obs->flush;
        sim.computeNextOutput();
        double ret = sim.computeNextState() / unit;
        CHECK(ret == t, "time-returned", s->desc << " " << ret << " for " << t);
        CHECK(!inject || s->bag_used, "input-lost", s->where("input", h->getState()));
        if (inject && t > before && s->discrete && s->n_conf && t < tn) cx.cnt("events_met_by_input");
        // deliveries: everything owed is delivered at the time of the event, in order, once
        size_t need = late ? s->expect.size() : owed_before;
        (void)need;
        CHECK(sink->seen.size() <= s->expect.size(), "output-duplicated", s->where("delivery", h->getState()) << ": delivered " << sink->seen.size() << " values, events produced " << s->expect.size() << " last " << sink->seen.back().first);
        for (size_t i = sink->got; i < sink->seen.size(); i++) {
            CHECK(sink->seen[i].first == s->expect[i] && sink->seen[i].second == s->expect_t[i], "output-wrong", s->where("delivery", h->getState()) << ": value " << sink->seen[i].first << " at " << sink->seen[i].second << ", expected " << s->expect[i] << " at " << s->expect_t[i]);
            cx.cnt("outputs_delivered");
        }
        sink->got = sink->seen.size();
        if (sink->seen.size() < s->expect.size())
            CHECK(sim.nextEventTime() == t * unit, "output-delayed", s->where("delivery", h->getState()) << ": output of an event at " << s->expect_t[sink->seen.size()] << " is not delivered, next event at " << sim.nextEventTime());
        last = t;
        cycles++;
        hist = hcomb(hist, std::hash<double>()(t), s->discrete);
        (void)ch;
        CHECK(cycles < 200000, "no-progress", s->desc << " " << cycles << " cycles to reach " << t << ": " << s->where("", h->getState()));
    }
    cx.cnt("cycles", cycles);
    cx.distinct.insert(hist);
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](std::string const &p) -> CaseFn { return p == "C20" ? c20 : nullptr; });
}
