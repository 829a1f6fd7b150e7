// Random generation of model specifications.
#pragma once
#include "spec.h"

struct GenP {
    int min_m = 1, max_m = 12;
    unsigned large = 0;          // percent of cases with 100..350 models
    unsigned mealy = 20;         // percent of models that are Mealy
    int max_mealy = 6;
    unsigned sat = 0;            // percent of models that are satellites
    unsigned drop = 0;           // percent of satellites whose objects are dropped
    unsigned coupled = 0;        // percent of cases built from coupled models
    unsigned ops = 0;            // operation rate
    int nops = 8;
    bool solo_ops = false;       // only model 0 requests operations (their order is then determined)
    bool loops = false;          // allow Mealy loops, emission by state only
    unsigned single = 0;
    i64 big = 1000;
    i64 tmax = 1 << 20;
    int min_cyc = 20, max_cyc = 80;
    int taprof = -1;
    bool sd_k = false;
    int max_paths = 40;
    unsigned dense = 20;         // percent chance of each pin to pin edge
};

inline i64 paths_ok(int np, std::set<std::pair<int, int>> const &e, int cap) {
    std::vector<i64> n(np, 1);
    for (int i = np - 1; i >= 0; i--) {
        for (auto &x : e) if (x.first == i) n[i] += n[x.second];
        if (n[i] > cap) return false;
    }
    return true;
}

inline Spec gen(Rng &r, GenP const &p) {
    Spec s;
    int nm;
    bool large = r.pct(p.large);
    if (large) nm = r.in(95, 350);
    else nm = r.in(p.min_m, p.max_m);
    s.single = r.pct(p.single);
    if (s.single) nm = 1;
    s.use_coupled = !s.single && r.pct(p.coupled);
    s.sd_k = p.sd_k;
    s.bigtick = p.big;
    s.tmax = p.tmax;
    s.mealy_cycles = p.loops;
    s.cycles = r.in(p.min_cyc, p.max_cyc);
    s.np = large ? r.in(10, 60) : 2 + r.below(std::min(14, nm + 4));
    int style = p.taprof >= 0 ? p.taprof : (int)r.below(8);    // 7: mixed per model
    // pin graph
    std::set<std::pair<int, int>> all;
    std::vector<std::pair<int, int>> pool;
    for (int i = 0; i < s.np; i++)
        for (int j = i + 1; j < s.np; j++) {
            unsigned q = large ? 3 : p.dense;
            if (!r.pct(q)) continue;
            all.insert({i, j});
            if (!paths_ok(s.np, all, p.max_paths)) all.erase({i, j});
            else pool.push_back({i, j});
        }
    int nmealy = 0;
    for (int i = 0; i < nm; i++) {
        MSpec x;
        x.seed = r.next();
        x.mealy = r.pct(p.mealy) && nmealy < p.max_mealy && !s.single;
        if (x.mealy) nmealy++;
        x.pos = r.below(s.np - 1);
        x.taprof = style == 7 ? r.below(7) : style;
        if (x.mealy && r.pct(50)) x.taprof = 2 + 2 * r.below(2);
        x.sat = r.pct(p.sat) && nm > 1 && !s.single;
        x.drop = x.sat && !s.use_coupled && r.pct(p.drop);
        x.emit = r.pct(30) ? 100 : r.in(30, 95);
        x.pins_by_state = p.loops;
        int no = s.single ? 1 : r.below(4);
        for (int k = 0; k < no; k++) {
            int q = x.mealy && !p.loops ? x.pos + 1 + r.below(s.np - 1 - x.pos) : r.below(s.np);
            x.out.push_back(q);
        }
        int ni = large ? (r.pct(50) ? 1 : 0) : r.below(4);
        if (x.mealy && ni == 0 && r.pct(80)) ni = 1;
        std::set<int> in;
        for (int k = 0; k < ni; k++) in.insert(x.mealy && !p.loops ? r.below(x.pos + 1) : r.below(s.np));
        x.in.assign(in.begin(), in.end());
        s.m.push_back(x);
    }
    if (s.m[0].sat) s.m[0].sat = s.m[0].drop = false;
    s.present.assign(nm, 1);
    if (!s.use_coupled) {
        for (auto &e : pool) if (r.pct(70)) s.pp.push_back(e);
        if (r.pct(20) && !s.pp.empty()) s.pp.push_back(r.pick(s.pp));    // the same edge twice
        for (int i = 0; i < nm; i++) {
            if (s.m[i].sat) s.present[i] = r.below(3);
            int k = s.m[i].sat ? s.present[i] : 1;
            if (!s.m[i].sat && r.pct(10)) s.present[i] = 2;
            for (int q = 0; q < k; q++) for (int a : s.m[i].in) s.pa.push_back({a, i});
            if (r.pct(10) && k && !s.m[i].in.empty()) s.pa.push_back({s.m[i].in[0], i});
        }
        if (p.ops) {
            std::vector<int> sat, perm;
            for (int i = 0; i < nm; i++) (s.m[i].sat ? sat : perm).push_back(i);
            for (int k = 0; k < p.nops; k++) {
                Op o;
                int q = r.below(100);
                if (q < 45 && !sat.empty()) { o.kind = q < 20 ? O_ADD : q < 40 ? O_REM : O_REMADD; o.a = r.pick(sat); }
                else if (q < 52) { o.kind = O_ADDREM; o.a = r.below(nm); if (s.m[o.a].drop) continue; }
                else if (q < 72 && !pool.empty()) { o.kind = q < 62 ? O_PP : O_DPP; auto e = r.pick(pool); o.a = e.first; o.b = e.second; }
                else if (q < 94) {
                    o.kind = q < 83 ? O_PA : O_DPA;
                    o.b = r.pick(perm);
                    o.a = s.m[o.b].mealy && !p.loops ? r.below(s.m[o.b].pos + 1) : r.below(s.np);
                    if (!s.m[o.b].in.empty() && r.pct(50)) o.a = r.pick(s.m[o.b].in);
                } else { o.kind = O_RPIN; o.a = r.below(s.np); }
                s.ops.push_back(o);
            }
        }
    } else {
        int nc = r.in(1, 5);
        s.c.resize(nc);
        auto put = [&](int c, int i) {
            s.c[c].at.insert(i);
            for (int a : s.m[i].in) s.c[c].pa.insert({a, i});
        };
        std::vector<int> perm, sat;
        for (int i = 0; i < nm; i++) {
            if (s.m[i].sat) { sat.push_back(i); for (int k = r.below(3); k > 0; k--) put(r.below(nc), i); }
            else { perm.push_back(i); put(r.below(nc), i); if (r.pct(15)) put(r.below(nc), i); }
        }
        for (auto &e : pool) { if (r.pct(70)) s.c[r.below(nc)].pp.insert(e); if (r.pct(10)) s.c[r.below(nc)].pp.insert(e); }
        for (int c = 1; c < nc; c++) {
            if (r.pct(85)) s.c[r.below(c)].cc.insert(c);
            if (r.pct(20)) s.c[r.below(c)].cc.insert(c);
        }
        if (p.ops) {
            for (int k = 0; k < p.nops; k++) {
                Op o;
                o.c = r.below(nc);
                int q = r.below(100);
                if (q < 40 && !sat.empty()) {
                    o.a = r.pick(sat);
                    if (q < 15) o.kind = OC_ADD;
                    else if (q < 30) o.kind = OC_REM;
                    else { o.kind = OC_MOVE; o.b = r.below(nc); if (o.b == o.c) o.kind = OC_ADD; }
                } else if (q < 55 && !pool.empty()) { auto e = r.pick(pool); o.kind = r.pct(50) ? OC_PP : OC_DPP; o.a = e.first; o.b = e.second; }
                else if (q < 70) {
                    std::vector<int> in;
                    for (int i : s.c[o.c].at) if (!s.m[i].sat) in.push_back(i);
                    if (in.empty()) continue;
                    o.b = r.pick(in);
                    o.a = s.m[o.b].mealy ? r.below(s.m[o.b].pos + 1) : r.below(s.np);
                    if (!s.m[o.b].in.empty() && r.pct(50)) o.a = r.pick(s.m[o.b].in);
                    o.kind = r.pct(50) ? OC_PA : OC_DPA;
                } else if (nc > 1) {
                    o.a = 1 + r.below(nc - 1);
                    o.c = r.below(o.a);
                    o.kind = r.pct(50) ? OC_ADDC : OC_REMC;
                } else continue;
                s.ops.push_back(o);
            }
        }
    }
    if (s.single) { s.pp.clear(); s.pa.clear(); s.ops.clear(); s.present.assign(1, 1); }
    if (!s.ops.empty())
        for (int i = 0; i < nm; i++)
            if (i == 0 || (r.pct(50) && !p.solo_ops)) {
                s.m[i].oprate = p.ops;
                for (size_t k = 0; k < s.ops.size(); k++) if (r.pct(60)) s.m[i].ops.push_back(k);
            }
    return s;
}

// Make one dimension of a specification extreme.
enum { ST_LONG, ST_FAN, ST_DEEP_PINS, ST_DEEP_COUPLED, ST_MEALY_CHAIN, ST_BAGS, ST_EDGES, ST_N };
static char const* const stretches[] = {"stretched_run_length", "stretched_fan_out", "stretched_pin_depth", "stretched_coupled_depth", "stretched_mealy_chain", "stretched_bags", "stretched_edge_counts"};
inline int stretch(Rng &r, Spec &s) {
    int k = r.below(ST_N), nm = (int)s.m.size();
    if (s.single && k != ST_LONG) return -1;
    if (nm > 60) return -1;
    auto blank = [&](int in) {      // one more model
        MSpec x;
        x.seed = r.next();
        x.taprof = r.pct(70) ? 4 : 0;
        x.emit = r.in(30, 90);
        x.in.push_back(in);
        s.m.push_back(x);
        s.present.push_back(1);
        int i = (int)s.m.size() - 1;
        if (s.use_coupled) { s.c[0].at.insert(i); s.c[0].pa.insert({in, i}); }
        else s.pa.push_back({in, i});
        return i;
    };
    auto edge = [&](int a, int b) { if (s.use_coupled) s.c[0].pp.insert({a, b}); else s.pp.push_back({a, b}); };
    switch (k) {
        case ST_LONG:
            if (nm > 4) return -1;
            s.cycles = r.in(1200, 3000);
            for (auto &x : s.m) if (x.taprof == 0 || x.taprof == 6) x.taprof = r.pct(50) ? 3 : 5;
            break;
        case ST_FAN: {
            bool huge = r.pct(12);
            int q = r.below(s.np), n = huge ? r.in(2000, 6000) : r.in(70, 300);
            for (int i = 0; i < n; i++) { int j = blank(q); if (r.pct(3)) { s.m[j].out.push_back(r.below(s.np)); s.m[j].taprof = 0; } }
            s.m[0].out.push_back(s.m[0].mealy ? std::max(q, s.m[0].pos + 1) : q);
            s.cycles = std::min(s.cycles, huge ? 5 : 15);
            break;
        }
        case ST_DEEP_PINS: {
            int from = r.below(s.np), n = r.in(60, 400), o = s.np;
            s.np += n;
            edge(from, o);
            for (int i = 1; i < n; i++) edge(o + i - 1, o + i);
            blank(o + n - 1);
            for (int i = r.below(4); i > 0; i--) blank(o + r.below(n));
            break;
        }
        case ST_DEEP_COUPLED: {
            if (!s.use_coupled) return -1;
            int n = r.in(6, 40), o = (int)s.c.size();
            s.c.resize(o + n);
            s.c[o + n - 1].cc = s.c[0].cc;
            s.c[0].cc = {o};
            for (int i = 0; i + 1 < n; i++) s.c[o + i].cc.insert(o + i + 1);
            // what the outermost has moves inwards
            for (int a : std::vector<int>(s.c[0].at.begin(), s.c[0].at.end()))
                if (r.pct(50) && !s.m[a].sat) {
                    int c = o + r.below(n);
                    s.c[0].at.erase(a);
                    s.c[c].at.insert(a);
                    for (auto i = s.c[0].pa.begin(); i != s.c[0].pa.end();) if (i->second == a) { s.c[c].pa.insert(*i); i = s.c[0].pa.erase(i); } else ++i;
                }
            for (auto e : std::vector<std::pair<int, int>>(s.c[0].pp.begin(), s.c[0].pp.end())) if (r.pct(50)) { s.c[0].pp.erase(e); s.c[o + r.below(n)].pp.insert(e); }
            break;
        }
        case ST_MEALY_CHAIN: {
            int n = r.pct(12) ? r.in(100, 300) : r.in(12, 60), o = s.np;
            s.np += n + 1;
            edge(r.below(o), o);
            for (int i = 0; i < n; i++) {
                int j = blank(o + i);
                s.m[j].mealy = true;
                s.m[j].pos = o + i;
                s.m[j].out.push_back(o + i + 1);
                s.m[j].taprof = r.pct(70) ? 4 : 2;
                s.m[j].emit = 97;
            }
            blank(o + n);
            s.cycles = std::min(s.cycles, 40);
            break;
        }
        case ST_BAGS:
            for (auto &x : s.m) if (!x.out.empty() && r.pct(40)) x.nout = r.in(10, 120);
            s.cycles = std::min(s.cycles, 20);
            break;
        case ST_EDGES: {
            if (s.use_coupled || s.ops.empty()) return -1;
            // many of the operations act on the same edge, which is there many times
            int a = r.below(s.np - 1), b = a + 1 + r.below(s.np - 1 - a);
            std::set<std::pair<int, int>> all(s.pp.begin(), s.pp.end());
            for (auto &o : s.ops) if (o.kind == O_PP) all.insert({o.a, o.b});
            all.insert({a, b});
            if (!paths_ok(s.np, all, 60)) return -1;
            int n = r.in(2, 12);
            for (int i = 0; i < n; i++) s.pp.push_back({a, b});
            Op o;
            o.a = a; o.b = b;
            for (int i = 0; i < 6; i++) { o.kind = r.pct(80) ? O_DPP : O_PP; s.ops[r.below(s.ops.size())] = o; }
            break;
        }
    }
    return k;
}

inline u64 spec_hash(Spec const &s) {
    u64 h = hcomb(s.np, s.m.size(), s.use_coupled);
    for (auto &x : s.m) h = hcomb(h, x.seed, x.mealy + 2 * x.taprof + 100 * x.pos);
    for (auto &e : s.pp) h = hcomb(h, e.first, e.second);
    for (auto &e : s.pa) h = hcomb(h, e.first, e.second);
    for (auto &o : s.ops) h = hcomb(h, o.kind * 1000 + o.c, o.a * 1000 + o.b);
    return h;
}
inline std::string spec_str(Spec const &s) {
    StrB b;
    int me = 0, sa = 0;
    for (auto &x : s.m) { me += x.mealy; sa += x.sat; }
    b << s.m.size() << " models (" << me << " Mealy, " << sa << " removable), " << s.np << " pins, " << s.pp.size() << " pin edges, " << s.pa.size()
      << " model edges, " << s.ops.size() << " structure ops" << (s.use_coupled ? ", coupled x" + std::to_string(s.c.size()) : std::string()) << (s.single ? ", single atomic" : "");
    return b;
}
