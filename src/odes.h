// Systems of differential equations with closed-form solutions, and a solver that returns them.
#pragma once
#include <cmath>
#include <vector>
#include "adevs/adevs.h"
#include "adevs/solvers/hybrid.h"
#include "common.h"

// A block of equations with a known flow. All autonomous; the clock is a block of its own.
struct Block {
    enum K { CLOCK, EXPO, ROT, LOGI, QUAD, FALL, RAMP } k;
    double a, b;  // parameters; the clock's rate is a, or one
    double rate() const { return a == 0.0 ? 1.0 : a; }
    int dim() const { return k == ROT || k == FALL ? 2 : 1; }
    void der(double const* q, double* d) const {
        switch (k) {
            case CLOCK: d[0] = rate(); break;
            case RAMP: d[0] = a; break;
            case EXPO: d[0] = a * (q[0] - b); break;
            case ROT: d[0] = a * q[1]; d[1] = -a * q[0]; break;
            case LOGI: d[0] = a * q[0] * (1.0 - q[0]); break;
            case QUAD: d[0] = -a * q[0] * q[0]; break;
            case FALL: d[0] = q[1]; d[1] = a; break;
        }
    }
    void jac(double const* q, double* J, int N, int o) const {  // column major, offset o
        auto at = [&](int r, int c) -> double & { return J[(o + c) * N + o + r]; };
        switch (k) {
            case CLOCK: case RAMP: break;
            case EXPO: at(0, 0) = a; break;
            case ROT: at(0, 1) = a; at(1, 0) = -a; break;
            case LOGI: at(0, 0) = a * (1.0 - 2.0 * q[0]); break;
            case QUAD: at(0, 0) = -2.0 * a * q[0]; break;
            case FALL: at(0, 1) = 1.0; break;
        }
    }
    void flow(double const* q, double t, double* r) const {
        switch (k) {
            case CLOCK: r[0] = q[0] + rate() * t; break;
            case RAMP: r[0] = q[0] + a * t; break;
            case EXPO: r[0] = b + (q[0] - b) * std::exp(a * t); break;
            case ROT: {
                double c = std::cos(a * t), s = std::sin(a * t);
                double x = q[0] * c + q[1] * s, y = q[1] * c - q[0] * s;
                r[0] = x;
                r[1] = y;
                break;
            }
            case LOGI: {
                double E = std::exp(a * t);
                r[0] = q[0] * E / (1.0 + q[0] * (E - 1.0));
                break;
            }
            case QUAD: r[0] = q[0] / (1.0 + a * q[0] * t); break;
            case FALL: {
                double x = q[0] + q[1] * t + 0.5 * a * t * t, v = q[1] + a * t;
                r[0] = x;
                r[1] = v;
                break;
            }
        }
    }
    // bounds of derivatives of the solution along any trajectory from q for time up to t: |x^(n)|
    void init(Rng &r, double* q) const {
        switch (k) {
            case CLOCK: q[0] = r.real(0, 10); break;
            case RAMP: q[0] = r.real(-1, 1); break;
            case EXPO: q[0] = b + (r.pct(50) ? 1 : -1) * r.real(0.1, 1.0); break;
            case ROT: { double p = r.real(0, 6.283185307), m = r.real(0.2, 1.0); q[0] = m * std::cos(p); q[1] = m * std::sin(p); break; }
            case LOGI: q[0] = r.real(0.05, 0.95); break;
            case QUAD: q[0] = r.real(0.1, 1.0); break;
            case FALL: q[0] = r.real(-1, 1); q[1] = r.real(-1, 1); break;
        }
    }
};

struct Blocks {
    std::vector<Block> b;
    int dim() const { int n = 0; for (auto &x : b) n += x.dim(); return n; }
    void der(double const* q, double* d) const { for (auto &x : b) { x.der(q, d); q += x.dim(); d += x.dim(); } }
    void jac(double const* q, double* J) const {
        int N = dim(), o = 0;
        for (int i = 0; i < N * N; i++) J[i] = 0;
        for (auto &x : b) { x.jac(q + o, J, N, o); o += x.dim(); }
    }
    std::vector<double> flow(std::vector<double> const &q, double t) const {
        std::vector<double> r(q.size());
        int o = 0;
        for (auto &x : b) { x.flow(&q[o], t, &r[o]); o += x.dim(); }
        return r;
    }
    std::vector<double> init(Rng &r) const {
        std::vector<double> q(dim());
        int o = 0;
        for (auto &x : b) { x.init(r, &q[o]); o += x.dim(); }
        return q;
    }
};

// dx/dt = f(x) for the blocks, no events
struct BlockSys : public adevs::ode_system<double> {
    typedef std::list<adevs::PinValue<double>> Bag;
    Blocks B;
    bool has_jac;
    long ders = 0;
    BlockSys(Blocks const &B, int M = 0, bool has_jac = false) : ode_system<double>(B.dim(), M), B(B), has_jac(has_jac) {}
    void init(double* q) override { for (int i = 0; i < numVars(); i++) q[i] = 0; }
    void der_func(double const* q, double* dq) override { ders++; B.der(q, dq); }
    void state_event_func(double const*, double*) override {}
    double time_event_func(double const*) override { return adevs_inf<double>(); }
    void internal_event(double*, bool const*) override {}
    void external_event(double*, double, Bag const &) override {}
    void confluent_event(double*, bool const*, Bag const &) override {}
    void output_func(double const*, bool const*, Bag &) override {}
    bool get_jacobian(double const* q, double* J) override {
        if (!has_jac) return ode_system<double>::get_jacobian(q, J);  // a system that does not supply one
        if (J) B.jac(q, J);
        return true;
    }
};

inline Blocks random_blocks(Rng &r, double lam, int nmax, bool linear) {
    Blocks B;
    int n = 1 + (int)r.below(nmax);
    for (int i = 0; i < n; i++) {
        double l = lam * r.real(0.3, 1.0);
        switch (r.below(linear ? 3 : 5)) {
            case 0: B.b.push_back({Block::EXPO, -l, r.real(-1, 1)}); break;
            case 1: B.b.push_back({Block::ROT, r.pct(50) ? l : -l, 0}); break;
            case 2: B.b.push_back({Block::EXPO, r.pct(30) ? l : -l, 0}); break;
            case 3: B.b.push_back({Block::LOGI, r.pct(50) ? l : -l, 0}); break;
            default: B.b.push_back({Block::QUAD, l, 0}); break;
        }
    }
    B.b.insert(B.b.begin() + r.below(B.b.size() + 1), {Block::CLOCK, 0, 0});
    return B;
}
inline int clock_index(Blocks const &B) {
    int o = 0;
    for (auto &x : B.b) { if (x.k == Block::CLOCK) return o; o += x.dim(); }
    return -1;
}

// the exact flow as a solver; optionally limits its own steps to h_max
struct ExactSolver : public adevs::ode_solver<double> {
    Blocks const &B;
    double h_max, unit;  // the blocks count time in units
    long calls = 0;
    ExactSolver(adevs::ode_system<double>* s, Blocks const &B, double h_max, double unit = 1) : ode_solver<double>(s), B(B), h_max(h_max), unit(unit) {}
    double integrate(double* q, double h_lim) override {
        double h = std::min(h_max, h_lim);
        advance(q, h);
        return h;
    }
    void advance(double* q, double h) override {
        calls++;
        std::vector<double> v(q, q + sys->numVars());
        v = B.flow(v, h / unit);
        std::copy(v.begin(), v.end(), q);
    }
};
