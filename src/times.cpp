// C13: algebra of super-dense time. C14: comparisons and arithmetic of tolerance time.
#include "common.h"
#include <cfloat>
#include <cmath>
#include "adevs/adevs.h"
double adevs::double_fcmp::epsilon = 1e-9;

// ---------------- C13 ----------------
template <class R> struct Gen {
    Rng &r;
    R real(int style) {
        switch (style) {
            case 0: return (R)r.in(-3, 3);
            case 1: return (R)r.in(-1000000, 1000000);
            case 2: return (R)(r.in(0, 5) * 7);
            case 3: if (std::is_integral<R>::value && sizeof(R) == 8) { i64 v = r.in(-(1ll << 61), 1ll << 61); return (R)(r.pct(30) ? v >> r.below(40) : v); }
                [[fallthrough]];
            default: return std::is_integral<R>::value ? (R)r.in(-200000000, 200000000) : (R)(r.in(-(1ll << 40), 1ll << 40) / (R)1024);
        }
    }
    int k() { return r.pct(60) ? (int)r.in(-3, 3) : r.pct(50) ? (int)r.in(0, 100) : (int)r.in(-400000000, 400000000); }
};
template <class R> std::string sh(adevs::sd_time<R> const &x) { std::ostringstream o; o.precision(20); o << "(" << x.real() << "," << (i64)x.integer() << ")"; return o.str(); }

template <class R> static void sd_case(Ctx &cx, char const* tn) {
    typedef adevs::sd_time<R> T;
    Rng r(cx.rngseed());
    Gen<R> g{r};
    int style = r.below(4);
    T const zero = adevs_zero<T>(), inf = adevs_inf<T>(), sen = adevs_sentinel<T>(), eps = adevs_epsilon<T>();
    CHECK(zero.real() == 0 && zero.integer() == 0 && T().real() == 0 && T().integer() == 0, "constant", tn << ": zero is " << sh(zero));
    CHECK(sen < zero && !(zero < sen), "constant", tn << ": sentinel is not below zero");
    CHECK(zero < eps && eps.real() == 0 && eps.integer() == 1, "constant", tn << ": epsilon is not the smallest positive interval");
    auto is = [&](T const &x, R t, i64 k) { return x.real() == t && (i64)x.integer() == k; };
    auto lt = [](R t1, i64 k1, R t2, i64 k2) { return t1 < t2 || (t1 == t2 && k1 < k2); };
    for (int n = 0; n < 200; n++) {
        R t1 = g.real(style), t2 = r.pct(35) ? t1 : g.real(style);
        int k1 = g.k(), k2 = r.pct(30) ? k1 : g.k();
        if (r.pct(3)) t1 = std::numeric_limits<R>::max();
        if (r.pct(3)) t2 = std::numeric_limits<R>::max();
        T a(t1, k1), b(t2, k2);
        CHECK(is(a, t1, k1), "accessor", tn << ": real/integer part");
        // order
        bool l = lt(t1, k1, t2, k2), e = t1 == t2 && k1 == k2;
        CHECK((a < b) == l, "order", tn << ": " << sh(a) << " < " << sh(b) << " is " << (a < b));
        CHECK((a == b) == e && (a != b) == !e, "order", tn << ": equality of " << sh(a) << " and " << sh(b));
        CHECK((a <= b) == (l || e) && (a > b) == !(l || e) && (a >= b) == !l, "order", tn << ": comparisons of " << sh(a) << " and " << sh(b) << " disagree");
        CHECK(!(inf < a) && (a < inf || a == inf) && a <= inf, "constant", tn << ": infinity is not the greatest value, compared with " << sh(a));
        if (t1 >= 0 && !(t1 == 0 && k1 < 0)) CHECK(sen < a && !(a < zero) && a >= zero, "constant", tn << ": sentinel/zero order against " << sh(a));
        T c(g.real(style), g.k());
        CHECK(!(a < b && b < c) || a < c, "order", tn << ": order is not transitive");
        cx.cnt("pairs_compared");
        // arithmetic, within range
        if (t1 < std::numeric_limits<R>::max() && t2 < std::numeric_limits<R>::max()) {
            T s = a + b;
            CHECK(t2 == 0 ? is(s, t1, (i64)k1 + k2) : is(s, t1 + t2, k2), "add", tn << ": " << sh(a) << " + " << sh(b) << " = " << sh(s));
            T s2 = a;
            T const &rs = (s2 += b);
            CHECK(s2 == s && &rs == &s2, "compound", tn << ": += differs from + for " << sh(a) << ", " << sh(b));
            T d = a - b;
            CHECK(t1 == t2 ? is(d, 0, (i64)k1 - k2) : is(d, t1 - t2, k1), "sub", tn << ": " << sh(a) << " - " << sh(b) << " = " << sh(d));
            T d2 = a;
            T const &rd = (d2 -= b);
            CHECK(d2 == d && &rd == &d2, "compound", tn << ": -= differs from - for " << sh(a) << ", " << sh(b));
            CHECK(is(a, t1, k1) && is(b, t2, k2), "operand-changed", tn << ": an operand of + or - changed");
            // the interval between two times, added to the earlier, gives the later
            T lo = l ? a : b, hi = l ? b : a;
            CHECK(lo + (hi - lo) == hi, "interval", tn << ": " << sh(lo) << " + (" << sh(hi) << " - " << sh(lo) << ") = " << sh(lo + (hi - lo)));
            // subtracting the start from an advanced time gives the interval back
            CHECK((a + b) - a == b, "interval", tn << ": (" << sh(a) << " + " << sh(b) << ") - " << sh(a) << " = " << sh((a + b) - a));
            // advancing by a positive interval moves forward
            if (b > zero && t2 >= 0) CHECK(a < a + b, "advance", tn << ": advancing " << sh(a) << " by " << sh(b) << " does not increase it");
            CHECK((a + eps) > a && is(a + eps, t1, (i64)k1 + 1) && is(a + zero, t1, k1), "epsilon", tn << ": adding epsilon or zero to " << sh(a));
            // aliasing
            T x = a;
            x += x;
            CHECK(x == a + a, "alias", tn << ": x += x for " << sh(a));
            x = a;
            x -= x;
            CHECK(x == zero, "alias", tn << ": x -= x for " << sh(a) << " is " << sh(x));
            x = a;
            T const &ra = (x = x);
            CHECK(x == a && &ra == &x, "alias", tn << ": self assignment");
            cx.cnt("sums_checked");
        }
        if (!std::is_integral<R>::value && t1 != 0 && t1 < std::numeric_limits<R>::max()) {   // an interval lost in rounding is still an interval of real time
            T tiny((R)std::ldexp((double)t1, -(int)r.in(50, 200)), k2);
            T s = a + tiny, s2 = a;
            s2 += tiny;
            CHECK(is(s, t1 + tiny.real(), k2) && s2 == s, "add", tn << ": " << sh(a) << " + " << sh(tiny) << " = " << sh(s) << ", += gives " << sh(s2));
            T d = a - tiny, d2 = a;
            d2 -= tiny;
            CHECK(is(d, t1 - tiny.real(), k1) && d2 == d, "sub", tn << ": " << sh(a) << " - " << sh(tiny) << " = " << sh(d) << ", -= gives " << sh(d2));
            if (t1 + tiny.real() == t1) cx.cnt("intervals_lost_in_rounding");
        }
        T y(b);
        y = a;
        T z(y);
        CHECK(z == a && y == a, "copy", tn << ": copy or assignment");
        // print and read
        std::ostringstream o;
        o.precision(std::numeric_limits<R>::max_digits10 + 1);
        bool sp = r.pct(50);
        o << a << (sp ? " " : "") << b << (sp ? "\n" : "") << c;
        std::istringstream in(o.str());
        T ia, ib, ic;
        in >> ia >> ib >> ic;
        CHECK(!in.fail() && ia == a && ib == b && ic == c, "print", tn << ": printed " << o.str() << ", read " << sh(ia) << sh(ib) << sh(ic));
        cx.cnt("round_trips");
        if (std::fabs((double)t1) > 0x1p53 && t1 < std::numeric_limits<R>::max()) cx.cnt("reals_beyond_53_bits");
        cx.distinct.insert(hcomb(hcomb((u64)std::hash<R>()(t1), (u64)std::hash<R>()(t2)), (u64)(i64)k1, hcomb((u64)(i64)k2, style)));
    }
    cx.sample(std::string(tn) + ": 200 pairs, style " + std::to_string(style));
}
static void c13(Ctx &cx) {
    switch (cx.caseno % 3) {
        case 0: sd_case<double>(cx, "sd_time<double>"); break;
        case 1: sd_case<long>(cx, "sd_time<long>"); break;
        default: sd_case<int>(cx, "sd_time<int>"); break;
    }
}

// ---------------- C14 ----------------
static void c14(Ctx &cx) {
    Rng r(cx.rngseed());
    typedef adevs::double_fcmp T;
    static double const epss[] = {0, DBL_EPSILON, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 0.03125, 0x1p-40, 0x1p-20, 0.3};
    double eps = epss[r.below(11)];
    T::epsilon = eps;
    for (int n = 0; n < 200; n++) {
        double x;
        int s = r.below(8);
        if (s == 0) x = 0;
        else if (s == 1) x = ldexp(1.0, (int)r.in(-60, 60));
        else if (s == 2) x = ldexp(r.unit(), (int)r.in(-1000, 1000));
        else if (s == 3) x = (double)r.in(0, 100);
        else if (s == 4) x = DBL_MAX * r.unit();
        else if (s == 5) x = DBL_MIN * r.unit();
        else if (s == 6) x = DBL_MAX;
        else x = r.real(0, 1000);
        if (r.pct(25)) x = -x;
        double y;
        int q = r.below(9);
        int ex;
        frexp(x, &ex);
        if (q == 0) y = x;
        else if (q == 1) y = -x;
        else if (q == 2) y = 0;
        else if (q == 3) y = x + ldexp(eps, ex);                    // on the edge
        else if (q == 4) y = x - ldexp(eps, ex);
        else if (q == 5) y = x + ldexp(eps, ex) * r.real(-2.5, 2.5);
        else if (q == 6) y = x * (1 + eps * r.real(-3, 3));
        else if (q == 7) y = nextafter(x, r.pct(50) ? DBL_MAX : -DBL_MAX);
        else y = r.real(-1000, 1000);
        if (!std::isfinite(y)) y = x;
        T a(x), b(y);
        T const ca(x), cb(y);
        bool L = a < b, E = a == b, G = a > b;
        auto S = [&] { StrB o; o.o.precision(20); o << x << " and " << y << " (tolerance " << eps << ")"; return (std::string)o; };
        CHECK((int)L + E + G == 1, "trichotomy", S() << ": less " << L << " equal " << E << " greater " << G);
        CHECK((b > a) == L && (b == a) == E && (b < a) == G, "mirror", S() << ": swapping the operands changes the answer");
        CHECK((a <= b) == !G && (a >= b) == !L && (a != b) == !E, "six-comparisons", S() << ": <=, >=, != disagree with <, ==, >");
        CHECK((ca < cb) == L && (ca == cb) == E && (ca > cb) == G && (ca <= cb) == !G && (ca >= cb) == !L && (ca != cb) == !E, "six-comparisons", S() << ": const operands");
        // plain number on either side
        CHECK((a < y) == L && (a == y) == E && (a > y) == G && (a <= y) == !G && (a >= y) == !L && (a != y) == !E, "plain-right", S() << ": comparison with a plain number on the right");
        CHECK((x < b) == L && (x == b) == E && (x > b) == G && (x <= b) == !G && (x >= b) == !L && (x != b) == !E, "plain-left", S() << ": comparison with a plain number on the left");
        CHECK((ca < y) == L && (x < cb) == L && (ca == y) == E && (x == cb) == E, "plain-left", S() << ": comparison of a const value with a plain number");
        int f = T::fcmp(x, y, eps);
        CHECK(f == (L ? -1 : G ? 1 : 0), "fcmp", S() << ": fcmp returned " << f);
        CHECK(T::fcmp(y, x, eps) == -f, "mirror", S() << ": fcmp is not antisymmetric");
        // meaning of equality
        int e;
        frexp(std::fabs(x) > std::fabs(y) ? x : y, &e);
        typedef __float128 Q;
        Q d = (Q)x - (Q)y;
        if (d < 0) d = -d;
        double dd = std::fabs(x - y);
        long double del = ldexpl((long double)eps, e);
        bool safe = x == y || eps == 0 || del >= DBL_MIN * 16;
        if (safe && (del < DBL_MAX || x == y)) {
            bool exact = (Q)dd == d && (long double)(double)del == del;
            Q gap = d > (Q)del ? d - (Q)del : (Q)del - d;
            if (exact || gap > (Q)del * 1e-15 + d * 1e-15) {
                bool want = d <= (Q)del;
                CHECK(E == want, "meaning", S() << ": equality is " << E << ", the difference is " << dd << " against " << (double)del);
                CHECK(want || L == (x < y), "meaning", S() << ": order of distinct values");
                cx.cnt(exact ? "exact_boundary_or_exact_pairs" : "pairs_with_margin");
                if (E && x != y) cx.cnt("equal_but_different_numbers");
                if (!E && dd <= 4 * (double)del) cx.cnt("unequal_near_tolerance");
            }
        }
        CHECK((double)a == x && (double)T(a) == x, "conversion", S() << ": conversion to double");
        T c(1.0);
        c = a;
        CHECK((double)c == x, "conversion", S() << ": assignment");
        T const &rc = (c = y);
        CHECK((double)c == y && &rc == &c, "conversion", S() << ": assignment of a number");
        if (std::fabs(x) < DBL_MAX / 4 && std::fabs(y) < DBL_MAX / 4) {
            T p = a + b, m = a - b;
            CHECK((double)p == x + y && (double)m == x - y, "arithmetic", S() << ": + or -");
            T u(x), v(x);
            T const &ru = (u += b), &rv = (v -= b);
            CHECK((double)u == x + y && (double)v == x - y && &ru == &u && &rv == &v, "arithmetic", S() << ": += or -=");
            u = T(x); u += u; v = T(x); v -= v;
            CHECK((double)u == x + x && (double)v == 0, "arithmetic", S() << ": aliasing");
        }
        CHECK(T() == 0.0 && (double)adevs_zero<T>() == 0 && adevs_sentinel<T>() < adevs_zero<T>() && (double)adevs_epsilon<T>() == 0, "constant", "constants of double_fcmp");
        CHECK(a <= adevs_inf<T>(), "constant", S() << ": above infinity");
        cx.cnt("pairs");
        u64 bx, by;
        memcpy(&bx, &x, 8);
        memcpy(&by, &y, 8);
        cx.distinct.insert(hcomb(bx, by, (u64)(eps * 1e18)));
    }
    StrB b;
    b << "operators: 200 pairs, tolerance " << eps;
    cx.sample(b);
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](std::string const &p) -> CaseFn { return p == "C13" ? c13 : p == "C14" ? c14 : nullptr; });
}
