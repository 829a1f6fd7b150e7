// C18: the ODE integrators against closed-form solutions.
#include <cfloat>
#include <cmath>
#include <limits>
#include <memory>
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
#include "odes.h"

typedef adevs::ode_solver<double> Solver;
static char const* const kinds[] = {"corrected_euler", "rk_45", "trap/jacobian", "trap/numeric"};
static Solver* make(int kind, adevs::ode_system<double>* s, double tol, double hmax) {
    switch (kind) {
        case 0: return new adevs::corrected_euler<double>(s, tol, hmax);
        case 1: return new adevs::rk_45<double>(s, tol, hmax);
        default: return new adevs::trap<double>(s, tol, hmax, true);
    }
}
static std::string sv(std::vector<double> const &v) {
    std::ostringstream o;
    o.precision(17);
    for (double x : v) o << x << " ";
    return o.str();
}
static double maxdiff(std::vector<double> const &a, std::vector<double> const &b) {
    double m = 0;
    for (size_t i = 0; i < a.size(); i++) {
        if (!(std::fabs(a[i] - b[i]) <= DBL_MAX)) return INFINITY;
        m = std::max(m, std::fabs(a[i] - b[i]));
    }
    return m;
}

// contracts of integrate and advance
static void contracts(Ctx &cx, Rng &r, int kind) {
    // the unit of time: a power of two, so that the same system runs on any scale
    Rng ru(cx.rngseed("unit"));
    double unit = ru.pct(35) ? std::ldexp(1.0, ru.in(-40, 30)) : 1.0;
    if (unit != 1.0) cx.cnt("other_time_scales");
    double hmax = std::pow(10.0, r.real(-3, 0)) * unit;
    bool stiff = kind >= 2 ? r.pct(50) : r.pct(40);
    double lam = (stiff ? r.real(1, 30) : r.real(0.1, 1)) / hmax;
    double tol = std::pow(10.0, r.real(kind == 0 ? -6 : -10, -2));
    if (kind >= 2) tol = std::pow(10.0, r.real(-9, -2));
    // keep the number of steps that the tolerance asks for below 20000
    if (kind != 1) tol = std::max(tol, 0.5 * std::pow(5 * lam * hmax / 20000, 2));
    bool wide = r.pct(6);
    Blocks B;
    if (!stiff) B = random_blocks(r, lam, wide ? 40 : 4, true);
    else {
        // decaying and oscillating modes only, one of them fast
        B = random_blocks(r, lam, wide ? 40 : 3, true);
        for (auto &x : B.b) if (x.k == Block::EXPO && x.a > 0) x.a = -x.a;
    }
    for (auto &x : B.b) if (x.k == Block::CLOCK) x.a = 1.0 / unit;
    cx.max("variables", B.dim());
    BlockSys sys(B, 0, kind != 3);
    CHECK(!sys.adevs::ode_system<double>::get_jacobian(nullptr, nullptr), "jacobian-offered", "a system that does not supply a Jacobian");
    std::unique_ptr<Solver> s(make(kind, &sys, tol, hmax));
    int ci = clock_index(B);
    double grow = 0;  // growth rate of errors
    for (auto &x : B.b) if (x.k == Block::EXPO && x.a > grow) grow = x.a;
    std::vector<double> q = B.init(r), prev = q;
    Rng rp(cx.rngseed("parameters"));
    int n = 8 + (int)r.below(25);
    std::ostringstream desc;
    desc.precision(17);
    desc << kinds[kind] << " tol " << tol << " h_max " << hmax << " dims " << B.dim() << " rate " << lam;
    bool settled = false;  // trap: the last step was taken from where this one starts
    for (int i = 0; i < n; i++) {
        if (r.pct(15)) {
            q = B.init(r);
            settled = false;
            cx.cnt("restarts");
        }
        if (i && rp.pct(15)) {   // other parameters, as after a discrete event; perhaps from the state of the previous step
            for (auto &x : B.b) {
                if (x.k == Block::ROT && rp.pct(60)) x.a = -x.a;
                if (x.k == Block::EXPO && x.b != 0 && rp.pct(60)) x.b = rp.real(-1, 1);
            }
            sys.B = B;
            if (rp.pct(60)) q = prev;
            settled = false;
            cx.cnt("parameters_changed");
        }
        double big = 0;
        for (double x : q) big = std::max(big, std::fabs(x));
        if (big > 50) { q = B.init(r); settled = false; }
        std::vector<double> q0 = q;
        prev = q;
        double scale = 0;
        for (size_t j = 0; j < q.size(); j++) if ((int)j != ci) scale = std::max(scale, std::fabs(q[j]));
        double lim;
        switch (r.below(8)) {
            case 0: lim = 0; break;
            case 1: lim = DBL_MAX; break;
            case 2: lim = std::numeric_limits<double>::infinity(); break;
            case 3: lim = hmax; break;
            case 4: lim = hmax * r.real(1, 5); break;
            case 5: lim = hmax * std::pow(10.0, r.real(-6, 0)); break;
            default: lim = hmax * r.unit(); break;
        }
        bool adv = r.pct(35) && lim <= 5 * hmax;
        long d0 = sys.ders;
        // exact-size buffer: AddressSanitizer watches its ends
        std::unique_ptr<double[]> buf(new double[q.size()]);
        std::copy(q.begin(), q.end(), buf.get());
        double h = lim;
        if (adv) s->advance(buf.get(), lim);
        else h = s->integrate(buf.get(), lim);
        std::copy(buf.get(), buf.get() + q.size(), q.begin());
        std::string what = (StrB() << desc.str() << (adv ? " advance " : " integrate ") << lim << " -> " << h << " from " << sv(q0) << " to " << sv(q));
        if (getenv("ODE_TRACE")) fprintf(stderr, "%s settled %d\n", what.c_str(), settled);
        CHECK(h <= lim && (adv || h <= hmax), "step-too-long", what);
        CHECK(lim == 0 ? h == 0 : h > 0, "no-progress", what);
        if (lim == 0) {
            CHECK(q == q0, "zero-step-moves", what);
            cx.cnt("zero_steps");
        }
        long steps = 1;
        if (adv) steps = std::max<long>(1, (sys.ders - d0) / (kind == 1 ? 6 : 2));
        cx.cnt(adv ? "advances" : "steps");
        cx.max("steps_per_advance", adv ? steps : 0);
        // the step size follows the tolerance: the work is in proportion to the steps it asks for
        double zneed = kind == 1 ? std::pow(tol, 0.2) : std::sqrt(2 * tol);
        double need = std::max(h / hmax, h * lam / zneed) + 1;
        double work = (sys.ders - d0) / (kind == 1 ? 6.0 : kind == 3 ? 4.0 + B.dim() : 4.0);
        cx.max(kind < 2 ? "explicit_work_percent_of_need" : "implicit_work_percent_of_need", (i64)(100 * work / (need + 60)));
        CHECK(work < (kind < 2 ? 12 * (need + 60) : 40 * (need + 100)), "too-much-work", what << " evaluations " << sys.ders - d0 << " steps needed " << need);
        if (!adv && h < std::min(lim, hmax) * 0.999) cx.cnt("steps_shortened_for_accuracy");
        // the clock moves by exactly the step
        double ce = std::fabs((q[ci] - q0[ci]) - h / unit);
        CHECK(ce <= (kind >= 2 ? 2e-9 : 1e-14 * steps) * (1 + std::fabs(q0[ci]) + h / unit), "wrong-duration", what << " clock error " << ce);
        // the solution
        std::vector<double> x = B.flow(q0, h);
        double err = maxdiff(q, x);
        double amp = std::exp(grow * h) * 1.5;
        double bound;
        if (kind < 2) bound = tol * (adv ? steps * amp : 1.0) + 1e-13 * steps * (1 + scale * amp + std::fabs(q0[ci]));
        else {
            // the trapezoidal method picks a step from the previous one; its error is C h^3 and the nonlinear solver's tolerance
            double z = lam * std::min(h, hmax);
            double c3 = std::min(2.5, z * z * z) * (scale + 1.5) * amp;
            double per = c3 + (kind == 3 ? 2e-6 : 1e-6);
            if (!adv && settled && !stiff) per = std::min(per, tol + (kind == 3 ? 2e-8 : 1e-9));
            bound = per * (adv ? steps * 1.5 : 1.0);
        }
        if ((kind < 2 || settled && !stiff) && !adv) cx.max(kind >= 2 ? "trap_error_percent_of_tolerance" : "error_percent_of_tolerance", (i64)(100 * err / tol));
        CHECK(err <= bound, "inaccurate", what << " exact " << sv(x) << " error " << err << " bound " << bound);
        settled = !adv && (h * lam > 1e-4 || settled);
        cx.distinct.insert(hcomb(std::hash<double>()(h), std::hash<double>()(q0[0]), std::hash<double>()(tol)));
    }
    cx.sample(desc.str());
}

// Steps at which the trapezoidal rule has no solution, or a singular one: the step is shortened until there is one.
static void unsolvable(Ctx &cx, Rng &r, int kind) {
    double unit = std::ldexp(1.0, r.in(-20, 20)), hmax = unit * (r.pct(50) ? 1.0 : r.real(0.01, 1));
    Blocks B = random_blocks(r, 0.5 / hmax, 3, true);
    for (auto &x : B.b) {
        if (x.k == Block::CLOCK) x.a = 1 / unit;
        else if (x.k == Block::EXPO && x.a > 0) x.a = -x.a;
    }
    int ci = clock_index(B);
    std::vector<double> q = B.init(r);
    double x0 = (r.pct(50) ? 1 : -1) * r.real(0.1, 3);
    bool singular = r.pct(40);
    // dx/dt = 2x/h: the equation of the step has the coefficient 1 - (h/2)(2/h) = 0
    if (singular) B.b.push_back({Block::EXPO, 2 / hmax, r.pct(50) ? 0.0 : 0.25});
    // dx/dt = c x^2 with c x0 h > (sqrt(2) - 1): the quadratic equation of the step has no roots
    else B.b.push_back({Block::QUAD, -2 * r.real(0.21, 3) / (hmax * x0), 0});
    q.push_back(x0);
    BlockSys sys(B, 0, kind == 2);
    double tol = std::pow(10.0, r.real(-4, -1));
    std::unique_ptr<Solver> s(make(kind, &sys, tol, hmax));
    std::ostringstream desc;
    desc.precision(17);
    desc << kinds[kind] << (singular ? " singular" : " no solution") << " tol " << tol << " h_max " << hmax << " dims " << B.dim() << " from " << sv(q);
    double total = 0, lim = hmax;
    for (int i = 0; i < 3; i++) {
        std::vector<double> q0 = q, d0(q.size()), d1(q.size());
        long e0 = sys.ders;
        double h = s->integrate(q.data(), lim);
        B.der(q0.data(), d0.data());
        B.der(q.data(), d1.data());
        std::string what = (StrB() << desc.str() << " step " << i << " " << lim << " -> " << h << " to " << sv(q));
        CHECK(h > 0 && h <= lim, "no-progress", what);
        if (h < lim * 0.999) cx.cnt("steps_shortened_to_be_solvable");
        CHECK(sys.ders - e0 < 1000000, "too-much-work", what << " evaluations " << sys.ders - e0);
        CHECK(std::fabs((q[ci] - q0[ci]) - h / unit) <= 1e-8 * (1 + q0[ci]), "wrong-duration", what);
        for (size_t j = 0; j < q.size(); j++) {
            double res = std::fabs(q[j] - q0[j] - h / 2 * (d0[j] + d1[j]));
            CHECK(res <= 1e-4 * (1 + std::fabs(q[j]) + std::fabs(q0[j])), "not-a-solution", what << " residual " << res << " of variable " << j);
        }
        total += h;
        if (std::fabs(q.back()) > 20) break;
    }
    cx.distinct.insert(hcomb(std::hash<double>()(total), std::hash<double>()(x0)));
    cx.sample(desc.str());
}

// order of accuracy with fixed steps on nonlinear systems
static void order(Ctx &cx, Rng &r, int kind) {
    double const T = 1;
    int n0 = kind == 1 ? 4 : 8;
    double e[2] = {0, 0};
    int nsys = 10;
    for (int k = 0; k < nsys; k++) {
        Blocks B = random_blocks(r, kind == 1 ? 3.0 : 1.5, 4, false);
        std::vector<double> q0 = B.init(r), x = B.flow(q0, T);
        for (int j = 0; j < 2; j++) {
            int n = n0 << j;
            BlockSys sys(B, 0, kind != 3);
            std::unique_ptr<Solver> s(make(kind, &sys, 1e30, T / n));
            std::vector<double> q = q0;
            s->advance(q.data(), T);
            e[j] += maxdiff(q, x);
        }
    }
    double want = kind == 1 ? 5 : 2;
    double p = std::log2(e[0] / e[1]);
    cx.max((StrB() << "order_x100_" << kinds[kind]).operator std::string().c_str(), (i64)(100 * p));
    cx.max((StrB() << "1000_minus_order_x100_" << kinds[kind]).operator std::string().c_str(), (i64)(1000 - 100 * p));
    CHECK(p > want - 0.5, "order", kinds[kind] << ": halving the step reduced the error from " << e[0] << " to " << e[1] << ", order " << p << ", documented " << want);
    cx.cnt("order_measurements");
    cx.distinct.insert(hcomb(std::hash<double>()(e[0]), kind));
}

static void c18(Ctx &cx) {
    Rng r(cx.rngseed());
    int kind = (int)(cx.caseno % 4);
    if (kind >= 2 && Rng(cx.rngseed("unsolvable")).pct(15)) {
        Rng ru(cx.rngseed("unsolvable-case"));
        unsolvable(cx, ru, kind);
    } else if (r.pct(25)) order(cx, r, kind);
    else contracts(cx, r, kind);
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](std::string const &p) -> CaseFn { return p == "C18" ? c18 : nullptr; });
}
