// Random DEVS model specifications, the pure behaviour functions shared by the simulated
// models and the reference, and the reference executor (independent of adevs).
#pragma once
#include "common.h"
#include <algorithm>
#include <climits>

static const i64 TINF = INT64_MAX;

// Reference time: ticks and, for super-dense time, an integer index.
struct RT {
    i64 t = 0, k = 0;
    RT() {}
    RT(i64 t, i64 k = 0) : t(t), k(k) {}
    bool inf() const { return t == TINF; }
    bool operator==(RT const &o) const { return t == o.t && k == o.k; }
    bool operator!=(RT const &o) const { return !(*this == o); }
    bool operator<(RT const &o) const { return t < o.t || (t == o.t && k < o.k); }
    std::string str() const { return inf() ? "inf" : k ? "(" + std::to_string(t) + "," + std::to_string(k) + ")" : std::to_string(t); }
};
inline RT rt_add(RT a, RT h) {
    if (a.inf() || h.inf()) return RT(TINF);
    return h.t == 0 ? RT(a.t, a.k + h.k) : RT(a.t + h.t, h.k);
}
inline RT rt_sub(RT a, RT b) { return a.t == b.t ? RT(0, a.k - b.k) : RT(a.t - b.t, a.k); }

enum Kind { K_INT = 1, K_EXT = 2, K_CONF = 3, K_NONE = 0 };
inline char const* kname(int k) { return k == K_INT ? "int" : k == K_EXT ? "ext" : k == K_CONF ? "conf" : "none"; }

typedef std::pair<int, u64> PV;   // pin index, value

enum OpKind {
    O_ADD, O_REM, O_ADDREM, O_REMADD, O_PP, O_DPP, O_PA, O_DPA, O_RPIN,
    OC_ADD, OC_REM, OC_PP, OC_DPP, OC_PA, OC_DPA, OC_ADDC, OC_REMC, OC_MOVE
};
inline char const* opname(int k) {
    static char const* n[] = {"add", "rem", "addrem", "remadd", "pp", "dpp", "pa", "dpa", "rpin",
                              "c.add", "c.rem", "c.pp", "c.dpp", "c.pa", "c.dpa", "c.addc", "c.remc", "c.move"};
    return n[k];
}
struct Op {
    int kind = 0, a = 0, b = 0, c = 0;   // c: coupled index for OC_*
};

struct MState {
    u64 s = 0;
    int cnt[4] = {0, 0, 0, 0};   // transitions seen of each kind
    int last = K_NONE;
};

struct MSpec {
    bool mealy = false;
    u64 seed = 0;
    int pos = 0;               // Mealy: listens to pins <= pos, emits on pins > pos
    std::vector<int> out;      // pins it may emit on
    int taprof = 0;
    bool sat = false;          // satellite: may be absent, added and removed
    bool drop = false;         // satellite object is dropped by the harness when removed
    std::vector<int> in;       // satellite: pins it is connected to when added
    std::vector<int> ops;      // indices into Spec::ops it may request
    unsigned oprate = 0;       // percent of transitions that request an op
    unsigned nout = 3;         // most values in one output
    unsigned emit = 70;        // percent of output computations that emit
    bool pins_by_state = false;// emission pins depend on the state only
    int bad_kind = -1, bad_n = 0;  // negative time advance after the bad_n-th transition of that kind (0: initially)
    RT bad_ta = RT(-3);
    int boom_kind = -1, boom_n = 0; // throws in that callback
};

struct CSpec {                 // one coupled model (initial content)
    std::set<int> at, cc;
    std::set<std::pair<int, int>> pa, pp;
};

struct Spec {
    int np = 1;
    bool real_only = false;    // behaviour ignores integer parts of elapsed times
    bool sd_k = false;         // use integer parts in time advances (super-dense only)
    bool use_coupled = false, single = false;
    std::vector<MSpec> m;
    std::vector<std::pair<int, int>> pp, pa;   // initial edges (graph mode)
    std::vector<int> present;                  // initial instance count per model
    std::vector<CSpec> c;
    std::vector<Op> ops;
    bool mealy_cycles = false; // Mealy loops possible (C05)
    i64 bigtick = 1000;
    i64 tmax = 1 << 23;
    int cycles = 50;

    RT ta(int i, MState const &st) const {
        MSpec const &x = m[i];
        if (x.bad_kind >= 0 && st.last == x.bad_kind && st.cnt[st.last] == x.bad_n) return x.bad_ta;
        u64 h = hcomb(x.seed, st.s, 11);
        unsigned r = h % 100;
        u64 r2 = (h >> 8);
        i64 t;
        i64 k = sd_k ? (i64)((h >> 40) % 3) : 0;
        switch (x.taprof) {
            case 0:  // mixed
                if (r < 12) t = 0;
                else if (r < 27) t = TINF;
                else if (r < 75) t = 1 + r2 % 4;
                else if (r < 95) t = 1 + r2 % 17;
                else t = 1 + r2 % bigtick;
                break;
            case 1: t = 1; break;                        // heavy ties
            case 2: t = r < 50 ? TINF : 1 + r2 % 3; break;
            case 3: t = r < 30 ? 0 : 1 + r2 % 2; break;  // zero delays
            case 4: t = TINF; break;                     // passive
            case 5: t = 1 + r2 % 64; break;
            default: t = r < 10 ? 1 + r2 % bigtick : 2 + 2 * (r2 % 8); break;
        }
        if (t == TINF) return RT(TINF);
        return RT(t, k);
    }
    // outputs of model i; kind: K_INT (output function), K_EXT, K_CONF; e and d as received
    std::vector<PV> out(int i, MState const &st, int kind, RT e, u64 d) const {
        MSpec const &x = m[i];
        std::vector<PV> y;
        if (real_only) e.k = 0;
        if (x.out.empty()) return y;
        u64 key = x.pins_by_state ? hcomb(x.seed, st.s, 21)
                                  : hcomb(hcomb(x.seed, st.s, 22), hcomb(kind, e.t * 64 + e.k), x.mealy ? d : 0);
        if (key % 100 >= x.emit) return y;
        int n = 1 + (key >> 8) % x.nout;
        for (int j = 0; j < n; j++) {
            int p = x.out[hcomb(key, j) % x.out.size()];
            u64 v = hcomb(hcomb(x.seed, st.s, j), hcomb(kind, e.t * 64 + e.k), d);
            y.push_back(PV(p, v));
        }
        return y;
    }
    MState init(int i) const {
        MState s;
        s.s = mix(m[i].seed);
        return s;
    }
    MState next(int i, MState const &st, int kind, RT e, u64 d) const {
        MState r = st;
        if (real_only) e.k = 0;
        r.s = hcomb(hcomb(m[i].seed, st.s, kind), hcomb(e.t, e.k, d));
        r.cnt[kind]++;
        r.last = kind;
        return r;
    }
    // structural operation requested right after entering state st (-1: none)
    int op(int i, MState const &st) const {
        MSpec const &x = m[i];
        if (x.ops.empty()) return -1;
        u64 h = hcomb(x.seed, st.s, 31);
        if (h % 100 >= x.oprate) return -1;
        return x.ops[(h >> 8) % x.ops.size()];
    }
};

inline u64 digest(std::vector<PV> const &x) {
    u64 d = 0;
    for (auto &p : x) d += hcomb(p.first + 1, p.second);   // order-insensitive
    return mix(d + x.size());
}

// ---- reference state ----
struct RModel {
    MState st;
    RT tL, tN = RT(TINF);
    int inst = 0;
};

struct Ref {
    Spec const &sp;
    bool sd;
    std::vector<RModel> m;
    std::map<std::pair<int, int>, int> pp, pa;
    std::vector<std::map<int, int>> ppo, pao;   // outgoing lists: pin -> (dst -> count)
    std::vector<CSpec> c;
    RT now;
    struct Bad { std::set<int> who; } neg;   // models with negative time advance met at the last (re)schedule

    Ref(Spec const &s, bool sd) : sp(s), sd(sd), m(s.m.size()), ppo(s.np), pao(s.np), c(s.c) {
        for (size_t i = 0; i < m.size(); i++) m[i].st = sp.init(i);
        if (sp.use_coupled) reflatten(RT(0));
        else {
            for (size_t i = 0; i < m.size(); i++)
                for (int k = 0; k < sp.present[i]; k++) add(i, RT(0));
            for (auto &e : sp.pp) ppo[e.first][e.second]++;
            for (auto &e : sp.pa) pao[e.first][e.second]++;
        }
    }
    void resched(int i, RT t) {
        m[i].tL = t;
        RT d = sp.ta(i, m[i].st);
        if (d < RT(0)) { neg.who.insert(i); d = RT(TINF); }
        m[i].tN = rt_add(t, d);
    }
    void add(int i, RT t, bool fresh = false) {
        if (m[i].inst++ == 0) {
            if (fresh) m[i].st = sp.init(i);
            resched(i, t);
        }
    }
    void rem(int i) {
        if (m[i].inst == 0) return;
        if (--m[i].inst == 0) {
            for (auto &x : pao) x.erase(i);
            m[i].tN = RT(TINF);
        }
    }
    static void dec(std::map<int, int> &x, int j) {
        auto it = x.find(j);
        if (it == x.end()) return;
        if (--it->second == 0) x.erase(it);
    }
    void rpin(int p) {
        auto decall = [](std::map<int, int> &x) {
            for (auto it = x.begin(); it != x.end();)
                if (--it->second == 0) it = x.erase(it); else ++it;
        };
        decall(pao[p]);
        decall(ppo[p]);
        for (int q = 0; q < sp.np; q++) if (q != p) dec(ppo[q], p);
    }
    void count(int ci, std::vector<int> &inst, std::vector<std::map<int, int>> &npp, std::vector<std::map<int, int>> &npa) {
        for (int a : c[ci].at) inst[a]++;
        for (auto &e : c[ci].pp) npp[e.first][e.second]++;
        for (auto &e : c[ci].pa) npa[e.first][e.second]++;
        for (int d : c[ci].cc) count(d, inst, npp, npa);
    }
    // Definition of the flattened model: whatever is found in the hierarchy now.
    void reflatten(RT t) {
        std::vector<int> inst(m.size(), 0);
        std::vector<std::map<int, int>> npp(sp.np), npa(sp.np);
        count(0, inst, npp, npa);
        ppo.swap(npp);
        pao.swap(npa);
        for (size_t i = 0; i < m.size(); i++) {
            bool was = m[i].inst > 0, is = inst[i] > 0;
            m[i].inst = inst[i];
            if (is && !was) resched(i, t);
            if (was && !is) m[i].tN = RT(TINF);
        }
    }
    void apply(Op const &o, RT t, bool fresh) {
        switch (o.kind) {
            case O_ADD: add(o.a, t, fresh); for (int p : sp.m[o.a].in) pao[p][o.a]++; break;
            case O_REM: rem(o.a); break;
            case O_ADDREM: add(o.a, t, fresh); rem(o.a); break;
            case O_REMADD: rem(o.a); add(o.a, t, fresh); for (int p : sp.m[o.a].in) pao[p][o.a]++; break;
            case O_PP: ppo[o.a][o.b]++; break;
            case O_DPP: dec(ppo[o.a], o.b); break;
            case O_PA: pao[o.a][o.b]++; break;
            case O_DPA: dec(pao[o.a], o.b); break;
            case O_RPIN: rpin(o.a); break;
            case OC_ADD:
                c[o.c].at.insert(o.a);
                for (int p : sp.m[o.a].in) c[o.c].pa.insert({p, o.a});
                reflatten(t);
                break;
            case OC_REM: crem(o.c, o.a); reflatten(t); break;
            case OC_PP: c[o.c].pp.insert({o.a, o.b}); reflatten(t); break;
            case OC_DPP: c[o.c].pp.erase({o.a, o.b}); reflatten(t); break;
            case OC_PA: c[o.c].pa.insert({o.a, o.b}); reflatten(t); break;
            case OC_DPA: c[o.c].pa.erase({o.a, o.b}); reflatten(t); break;
            case OC_ADDC: c[o.c].cc.insert(o.a); reflatten(t); break;
            case OC_REMC: c[o.c].cc.erase(o.a); reflatten(t); break;
            case OC_MOVE:   // move a model from coupled c to coupled b, adding first
                c[o.b].at.insert(o.a);
                for (int p : sp.m[o.a].in) c[o.b].pa.insert({p, o.a});
                reflatten(t);
                crem(o.c, o.a);
                reflatten(t);
                break;
        }
    }
    void crem(int ci, int a) {
        c[ci].at.erase(a);
        for (auto it = c[ci].pa.begin(); it != c[ci].pa.end();)
            if (it->second == a) it = c[ci].pa.erase(it); else ++it;
    }
    void route(int p, std::vector<std::pair<int, int>> &to) const {   // (pin, model)
        for (auto &x : pao[p]) to.push_back({p, x.first});
        for (auto &x : ppo[p]) route(x.first, to);
    }
    RT tNext() const {
        RT r(TINF);
        for (auto &x : m) if (x.inst > 0 && x.tN < r) r = x.tN;
        return r;
    }
    // ---- one output computation ----
    struct Cycle {
        RT t;
        std::vector<std::vector<PV>> in, out;   // per model
        std::vector<int> kind;                  // transition due
        std::vector<RT> e;
        bool mealy_loop = false;
        std::set<int> loop_members;
        i64 deliveries = 0, mealy_active = 0, imminent = 0;
    };
    Cycle compute(RT t, std::vector<PV> const &inj) const {
        Cycle y;
        y.t = t;
        int n = m.size();
        y.in.resize(n); y.out.resize(n); y.kind.assign(n, K_NONE); y.e.resize(n);
        auto deliver = [&](PV const &v) {
            std::vector<std::pair<int, int>> to;
            route(v.first, to);
            for (auto &x : to) y.in[x.second].push_back(PV(x.first, v.second));
            y.deliveries += to.size();
        };
        for (auto &v : inj) deliver(v);
        std::vector<int> mealy;
        for (int i = 0; i < n; i++) {
            if (m[i].inst == 0) continue;
            y.e[i] = rt_sub(t, m[i].tL);
            if (sp.m[i].mealy) mealy.push_back(i);
            else if (m[i].tN == t) {
                y.imminent++;
                y.out[i] = sp.out(i, m[i].st, K_INT, RT(0), 0);
                for (auto &v : y.out[i]) deliver(v);
            }
        }
        auto fire = [&](int i) {
            bool imm = m[i].tN == t;
            if (y.in[i].empty() && !imm) return;
            y.mealy_active++;
            int k = y.in[i].empty() ? K_INT : imm ? K_CONF : K_EXT;
            y.out[i] = sp.out(i, m[i].st, k, k == K_EXT ? y.e[i] : RT(0), k == K_INT ? 0 : digest(y.in[i]));
            for (auto &v : y.out[i]) deliver(v);
        };
        if (!sp.mealy_cycles) {
            std::sort(mealy.begin(), mealy.end(), [&](int a, int b) { return sp.m[a].pos < sp.m[b].pos; });
            for (int i : mealy) fire(i);
        } else {
            // emission pins depend on the state only: find the activated set, then order it
            std::set<int> act;
            std::vector<int> todo;
            auto wake = [&](int i) { if (act.insert(i).second) todo.push_back(i); };
            for (int i : mealy) if (!y.in[i].empty() || m[i].tN == t) wake(i);
            std::map<int, std::set<int>> succ;
            while (!todo.empty()) {
                int i = todo.back();
                todo.pop_back();
                for (auto &v : sp.out(i, m[i].st, K_INT, RT(0), 0)) {
                    std::vector<std::pair<int, int>> to;
                    route(v.first, to);
                    for (auto &x : to)
                        if (sp.m[x.second].mealy) { succ[i].insert(x.second); wake(x.second); }
                }
            }
            std::map<int, int> indeg;
            for (int i : act) indeg[i];
            for (auto &x : succ) for (int j : x.second) indeg[j]++;
            std::vector<int> order, q;
            for (auto &x : indeg) if (x.second == 0) q.push_back(x.first);
            while (!q.empty()) {
                int i = q.back(); q.pop_back();
                order.push_back(i);
                for (int j : succ[i]) if (--indeg[j] == 0) q.push_back(j);
            }
            if (order.size() < act.size()) {
                y.mealy_loop = true;
                // members of cycles: nodes that reach themselves
                for (int i : act) {
                    std::set<int> seen;
                    std::vector<int> st(succ[i].begin(), succ[i].end());
                    while (!st.empty()) {
                        int j = st.back(); st.pop_back();
                        if (!seen.insert(j).second) continue;
                        for (int k : succ[j]) st.push_back(k);
                    }
                    if (seen.count(i)) y.loop_members.insert(i);
                }
                return y;
            }
            for (int i : order) fire(i);
        }
        for (int i = 0; i < n; i++) {
            if (m[i].inst == 0) continue;
            bool imm = m[i].tN == t;
            if (imm && sp.m[i].mealy) y.imminent++;
            y.kind[i] = imm ? (y.in[i].empty() ? K_INT : K_CONF) : (y.in[i].empty() ? K_NONE : K_EXT);
        }
        return y;
    }
};
