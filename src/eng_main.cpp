// Driver of the simulation-engine properties (C01..C10, engine part of C14, C15).
#include "run.h"
#include "gen.h"
#include "adevs/time.h"
#include "adevs/adevs.h"
double adevs::double_fcmp::epsilon = 1e-9;

#define ENG_TYPES(X) X(double_any) X(double_obj) X(double_u64) X(float_u64) X(ld_u64) X(int_u64) X(long_u64) X(fcmp_u64) X(sdd_u64) X(sdl_u64) X(sdi_u64)
// only some of the time types are linked into each driver
#define X(n) std::unique_ptr<IWorld> make_##n(Spec const &s) __attribute__((weak));
ENG_TYPES(X)
#undef X
struct WT {
    TypeInfo ti;
    std::unique_ptr<IWorld> (*make)(Spec const &);
};
// big: largest ordinary time advance; tmax: where runs stop (keeps every time exactly representable)
static WT const types[] = {
    {{"double/any", false, 1ll << 36, 1ll << 44}, make_double_any},
    {{"double/Obj", false, 1ll << 36, 1ll << 44}, make_double_obj},
    {{"double", false, 1ll << 36, 1ll << 44}, make_double_u64},
    {{"float", false, 1ll << 14, 1ll << 22}, make_float_u64},
    {{"long double", false, 1ll << 36, 1ll << 44}, make_ld_u64},
    {{"int", false, 1ll << 18, 1ll << 28}, make_int_u64},
    {{"long", false, 1ll << 40, 1ll << 50}, make_long_u64},
    {{"double_fcmp", false, 1ll << 14, 1ll << 20}, make_fcmp_u64},
    {{"sd_time<double>", true, 1ll << 36, 1ll << 44}, make_sdd_u64},
    {{"sd_time<long>", true, 1ll << 40, 1ll << 44}, make_sdl_u64},
    {{"sd_time<int>", true, 1ll << 18, 1ll << 28}, make_sdi_u64},
};
enum { NT = sizeof types / sizeof *types };

static void note(Ctx &cx, Spec const &sp, Run &run, std::string const &extra = "") {
    if (run.cycles >= 3) cx.distinct.insert(hcomb(run.trace.h, spec_hash(sp), hstr(run.ti.name)));
    cx.max("max_models", sp.m.size());
    cx.sample(std::string(run.ti.name) + ": " + spec_str(sp) + "; " + std::to_string(run.cycles) + " cycles to t=" + run.tcur.str() +
              ", " + std::to_string(cx.n["external"]) + " external transitions so far" + extra);
    cx.n[std::string("runs_") + run.ti.name]++;
}
static RT pick_forced(Rng &r, Run &run) {
    // a time in [last event time, next event time]
    RT lo = run.tcur, n = run.ref.tNext();
    if (run.ti.sd && run.cycles) lo = RT(lo.t, lo.k + 1);
    RT x;
    i64 hi = n.inf() ? lo.t + 20 : n.t;
    i64 t = lo.t + (hi > lo.t ? r.below(std::min<i64>(hi - lo.t, 40) + 1) : 0);
    if (run.ti.sd) {
        x = t == lo.t ? RT(t, lo.k + r.below(3)) : RT(t, r.below(3));
        if (!n.inf() && n < x) x = n;
    } else x = RT(t);
    return x;
}
static PV rand_inject(Rng &r, Spec const &sp) { return PV(r.below(sp.np), r.next()); }

// simple run: step until done
static void drive(Ctx &cx, Rng &r, Spec const &sp, Run &run, bool ext, bool dops) {
    for (int k = 0; k < sp.cycles; k++) {
        RT n = run.ref.tNext();
        if (ext && r.pct(25)) {
            if (r.pct(60)) { RT f = pick_forced(r, run); run.force(f); }
            else if (n.inf()) run.force(pick_forced(r, run));
            for (int j = r.below(4); j > 0; j--) run.inject(rand_inject(r, sp));
            cx.cnt("forced_or_injected_steps");
        }
        if (dops && !sp.ops.empty() && r.pct(20)) {
            int oi = r.below(sp.ops.size());
            run.driver_op(oi);
            cx.cnt("outside_structure_ops");
        }
        n = run.next_time();
        if (n.inf()) {
            if (ext || dops) { run.force(pick_forced(r, run)); }
            else break;
        }
        if (run.next_time().t > sp.tmax) break;
        if (!run.step(r.pct(50))) { cx.cnt("runs_ended_by_exception"); return; }
    }
}

static GenP base(TypeInfo const &ti) {
    GenP p;
    p.big = ti.big;
    p.tmax = ti.tmax;
    return p;
}

static void run_one(Ctx &cx, WT const &wt, Rng &r, Spec const &sp, int nlis, bool ext, bool dops, bool shuffle, std::function<bool(std::string const &)> ign) {
    Run run(sp, cx, wt.ti, wt.make(sp));
    run.ignore = ign;
    try {
        if (run.start(r, shuffle, nlis)) drive(cx, r, sp, run, ext, dops);
    } catch (Run::Ignored &) {}
    note(cx, sp, run);
    run.w.drop_sim();
}

// the length of a tick, a power of two so that every time is exact
static void set_unit(Rng &r, Ctx &cx, std::string const &tn) {
    g_unit = -4;
    if (!r.pct(45)) return;
    int hi = tn == "float" ? 90 : tn == "double_fcmp" ? 300 : tn == "long double" ? 15000 : 900;
    int lo = tn == "float" ? -140 : tn == "double_fcmp" ? -300 : tn == "long double" ? -16000 : -1060;
    g_unit = r.pct(50) ? (int)r.in(std::max(lo, -100), -20) : (int)r.in(lo, hi);
    cx.cnt(g_unit < -4 ? "runs_with_short_ticks" : "runs_with_long_ticks");
}
static void engine_case(Ctx &cx, WT const &wt) {
    Rng ur(cx.rngseed("unit"));
    set_unit(ur, cx, wt.ti.name);
    Rng r(cx.rngseed());
    TypeInfo const &ti = wt.ti;
    GenP p = base(ti);
    std::string const &P = cx.prop;
    if (ti.sd) p.sd_k = r.pct(60);
    Rng sr(cx.rngseed("stretch"));
    bool far = sr.pct(6);
    auto gen = [&](Rng &r, GenP const &p) {
        Spec s = ::gen(r, p);
        if (far && !p.loops) { int k = stretch(sr, s); if (k >= 0) cx.cnt(stretches[k]); }
        return s;
    };
    // categories each property leaves to the others
    auto ignset = [](std::set<std::string> s) { return [s](std::string const &k) { return s.count(k) > 0; }; };

    if (P == "C01") {
        p.large = 6; p.mealy = 12; p.coupled = 25; p.single = 3; p.sat = 10; p.ops = r.pct(25) ? 15 : 0;
        Spec sp = gen(r, p);
        run_one(cx, wt, r, sp, 0, r.pct(40), false, true, ignset({"listener"}));
    } else if (P == "C02") {
        p.large = 6; p.mealy = 15; p.coupled = 15; p.single = 5; p.max_cyc = 150; p.sat = 15; p.ops = r.pct(30) ? 15 : 0;
        Spec sp = gen(r, p);
        run_one(cx, wt, r, sp, 0, r.pct(50), false, true, ignset({"listener", "input", "mealy-input", "mealy-output", "lifetime", "graph-set"}));
    } else if (P == "C03") {
        p.mealy = 10; p.dense = 45; p.max_paths = 120; p.sat = 25; p.ops = 30; p.nops = 12;
        Spec sp = gen(r, p);
        run_one(cx, wt, r, sp, 0, true, true, true, ignset({"listener", "elapsed", "next-time", "clock", "lifetime"}));
    } else if (P == "C04") {
        p.mealy = 60; p.max_mealy = r.in(3, 10); p.min_m = 2; p.max_m = 14; p.dense = r.pct(50) ? 15 : 35; p.max_paths = 12; p.coupled = 15;
        p.sat = 10; p.ops = r.pct(20) ? 10 : 0;
        Spec sp = gen(r, p);
        run_one(cx, wt, r, sp, r.below(2), r.pct(70), false, true, nullptr);
    } else if (P == "C05") {
        int mode = r.below(3);
        p.coupled = 20; p.single = 5;
        if (mode == 0) {           // Mealy loops
            p.loops = true; p.mealy = 60; p.max_mealy = 6; p.max_paths = 6; p.max_m = 10; p.dense = 10;
        } else p.mealy = 20;
        if (mode == 2) { p.sat = 25; p.ops = 20; }
        Spec sp = gen(r, p);
        if (mode == 0 && r.pct(60)) for (auto &x : sp.m) if (x.mealy) { x.emit = r.in(5, 60); }
        if (mode == 2) sp.m[0].sat = false;
        if (mode && r.pct(75)) {
            int k = 1 + r.below(2);
            for (; k > 0; k--) {
                MSpec &x = sp.m[r.below(sp.m.size())];
                x.bad_kind = r.below(4);
                x.bad_n = x.bad_kind == K_NONE ? 0 : 1 + r.below(6);
                if (x.bad_kind == K_NONE && r.pct(50)) x.bad_kind = K_INT, x.bad_n = 1;
                if (ti.sd && r.pct(50)) x.bad_ta = RT(0, -1 - (i64)r.below(3));
                else if (std::string(ti.name) != "double_fcmp" && r.pct(35)) { x.bad_ta = RT(-(1ll << 50) - (i64)r.below(30)); cx.cnt("tiny_negative_advances"); }
                else x.bad_ta = RT(-1 - (i64)r.below(r.pct(50) ? 1 : 1000));
            }
        }
        run_one(cx, wt, r, sp, r.below(2), r.pct(50), mode == 2, true, ignset({"listener"}));
    } else if (P == "C06") {
        p.sat = 45; p.ops = r.in(15, 60); p.nops = 14; p.drop = 30; p.min_m = 3; p.max_m = 14; p.large = 2; p.mealy = 15;
        Spec sp = gen(r, p);
        run_one(cx, wt, r, sp, r.below(2), r.pct(40), r.pct(50), true, ignset({"listener"}));
    } else if (P == "C07") {
        p.coupled = 100; p.sat = 40; p.ops = r.pct(85) ? r.in(15, 60) : 0; p.nops = 14; p.min_m = 2; p.max_m = 12; p.mealy = 15;
        Spec sp = gen(r, p);
        run_one(cx, wt, r, sp, 0, r.pct(40), r.pct(60), true, ignset({"listener"}));
    } else if (P == "C09") {
        p.mealy = 30; p.coupled = 20; p.sat = 15; p.ops = r.pct(30) ? 20 : 0; p.single = 5;
        Spec sp = gen(r, p);
        run_one(cx, wt, r, sp, 1 + r.below(3), r.pct(50), false, true, nullptr);
    } else if (P == "C10") {
        p.mealy = 40; p.max_mealy = 8; p.coupled = 30; p.large = 3; p.solo_ops = true; p.sat = r.pct(40) ? 25 : 0; p.ops = p.sat ? 60 : 0;
        Spec sp = gen(r, p);
        bool ext = r.pct(50);
        u64 s0 = r.next();
        u64 h0 = 0;
        int reps = 3;
        std::vector<std::vector<int>> orders;
        for (int k = 0; k < reps; k++) {
            Run run(sp, cx, wt.ti, wt.make(sp));
            std::vector<void*> junk;
            Rng b(hcomb(s0, k));
            for (int j = b.below(40); j > 0; j--) junk.push_back(malloc(16 + b.below(700)));
            for (size_t j = 0; j < junk.size(); j += 2) { free(junk[j]); junk[j] = nullptr; }
            Rng d(s0);
            bool ok = run.start(b, k > 0, 0);
            if (ok) drive(cx, d, sp, run, ext, false);
            // record the address order actually obtained
            std::vector<std::pair<void*, int>> ad;
            for (auto &x : run.w.byPtr) ad.push_back({x.first, x.second});
            std::vector<int> o;
            for (auto &x : ad) o.push_back(x.second);
            orders.push_back(o);
            if (k == 0) h0 = run.trace.h;
            else CHECK(run.trace.h == h0, "order-dependent", ti.name << ": two constructions of the same model behaved differently");
            note(cx, sp, run);
            run.w.drop_sim();
            for (auto q : junk) free(q);
        }
        std::set<std::vector<int>> ds(orders.begin(), orders.end());
        cx.n["distinct_address_orders"] += ds.size();
    } else if (P == "C08") {
        p.mealy = 30; p.coupled = 20; p.single = 0; p.sat = 10; p.ops = r.pct(40) ? 15 : 0;
        Spec sp = gen(r, p);
        Rng dr(cx.rngseed("outside"));
        Run run(sp, cx, wt.ti, wt.make(sp));
        run.ignore = nullptr;
        if (run.start(r, true, r.below(2))) {
            u64 hh = 0;
            for (int k = 0; k < sp.cycles; k++) {
                bool have = false;       // outputs computed for the current next time
                if (!sp.ops.empty() && dr.pct(30)) { run.driver_op(dr.below(sp.ops.size())); cx.cnt("outside_structure_ops"); }
                int na = r.below(7);
                for (int a = 0; a < na; a++) {
                    int q = r.below(10);
                    hh = hcomb(hh, q);
                    if (q < 4) { run.inject(rand_inject(r, sp)); have = false; cx.cnt("api_inject"); }
                    else if (q == 4) { run.clear_injected(); cx.cnt("api_clear"); }
                    else if (q < 7) {
                        RT f = pick_forced(r, run);
                        // forcing back to the scheduled time is allowed too
                        if (r.pct(20) && !run.ref.tNext().inf()) f = run.ref.tNext();
                        run.force(f);
                        have = false;
                        run.check_next_time("after setNextTime");
                        cx.cnt("api_set_next_time");
                    } else if (!run.next_time().inf() && run.next_time().t <= sp.tmax) {
                        if (!run.outputs()) return;
                        have = true;
                        cx.cnt("api_compute_output");
                    }
                }
                if (run.next_time().inf()) run.force(pick_forced(r, run)), have = false;
                if (run.next_time().t > sp.tmax) break;
                if (have) { cx.cnt("api_compute_state"); if (!run.state_step(true)) return; }
                else { cx.cnt("api_step"); if (!run.step(r.pct(30))) return; }
            }
            cx.cnt("api_interleavings");
            cx.distinct.insert(hh);
        }
        note(cx, sp, run);
    } else if (P == "C14") {
        // tolerance time: event times perturbed within the tolerance
        adevs::double_fcmp::epsilon = 1e-6;
        g_jitter = r.pct(80) ? 1e-9 : 0;
        g_jitter_state = r.next();
        p.big = 64; p.tmax = 1 << 14; p.mealy = 15; p.coupled = 10; p.large = 4;
        struct Reset { ~Reset() { g_jitter = 0; } } reset;
        Spec sp = gen(r, p);
        run_one(cx, wt, r, sp, 0, false, false, true, nullptr);
    } else
        throw std::runtime_error("unknown property " + P);
}

// plain double dominates, other types get a share
static void mostly_double(Ctx &cx) {
    static int const w[] = {2, 0, 2, 1, 2, 8, 2, 6, 7, 8, 4, 2, 9, 10, 3, 5};
    int k = w[cx.caseno % 16];
    engine_case(cx, types[types[k].make ? k : 2]);
}
static void fcmp(Ctx &cx) { engine_case(cx, types[7]); }
static void alltypes(Ctx &cx) {   // C15: the same specification under every time type
    Rng r(cx.rngseed("spec"));
    GenP p;
    p.big = 1 << 9; p.tmax = 1 << 18; p.mealy = 20; p.coupled = 25; p.single = 4; p.large = 3;
    if (r.pct(50)) p.taprof = 3;
    p.sat = r.pct(30) ? 30 : 0; p.ops = p.sat ? 60 : 0; p.solo_ops = true;
    Spec sp = gen(r, p);
    // half of the cases compare all types on one behaviour, the others use integer parts (super-dense only)
    sp.real_only = true;
    u64 h0 = 0;
    Rng ur(cx.rngseed("unit"));
    for (int i = 0; i < NT; i++) {
        set_unit(ur, cx, types[i].ti.name);
        Run run(sp, cx, types[i].ti, types[i].make(sp));
        Rng b(1);
        if (run.start(b, false, 0))
            for (int k = 0; k < sp.cycles; k++) {
                if (run.next_time().inf() || run.next_time().t > sp.tmax) break;
                if (!run.step(k & 1)) break;
            }
        note(cx, sp, run);
        run.w.drop_sim();
        if (i == 0) h0 = run.trace.h;
        else CHECK(run.trace.h == h0, "type-dependent", "the same model behaves differently under " << types[0].ti.name << " and " << types[i].ti.name);
        cx.cnt("type_comparisons");
    }
    // times beyond the range of 32 bits
    {
        GenP q = p;
        q.big = 1ll << 36; q.tmax = 1ll << 45; q.large = 0;
        if (q.taprof == 3) q.taprof = -1;
        Spec s3 = gen(r, q);
        s3.real_only = true;
        bool first = true;
        for (int i = 0; i < NT; i++) {
            std::string tn = types[i].ti.name;
            if (tn == "float" || tn == "int" || tn == "double_fcmp" || tn == "sd_time<int>") continue;
            set_unit(ur, cx, tn);
            Run run(s3, cx, types[i].ti, types[i].make(s3));
            Rng b(1);
            if (run.start(b, false, 0))
                for (int k = 0; k < s3.cycles; k++) {
                    if (run.next_time().inf() || run.next_time().t > s3.tmax) break;
                    if (run.next_time().t > 1ll << 32) cx.cnt("cycles_beyond_32_bits");
                    if (!run.step(k & 1)) break;
                }
            note(cx, s3, run);
            run.w.drop_sim();
            if (first) h0 = run.trace.h;
            else CHECK(run.trace.h == h0, "type-dependent", "the same model behaves differently under " << types[0].ti.name << " and " << types[i].ti.name);
            first = false;
            cx.cnt("type_comparisons");
        }
    }
    // super-dense time with integer parts in the time advances
    p.sd_k = true;
    Spec s2 = gen(r, p);
    u64 hs = 0;
    for (int i = 8; i < NT; i++) {
        set_unit(ur, cx, types[i].ti.name);
        Run run(s2, cx, types[i].ti, types[i].make(s2));
        Rng b(1);
        if (run.start(b, false, 0)) drive(cx, b, s2, run, false, false);
        note(cx, s2, run);
        run.w.drop_sim();
        if (i == 8) hs = run.trace.h;
        else CHECK(run.trace.h == hs, "type-dependent", "the same model behaves differently under " << types[8].ti.name << " and " << types[i].ti.name);
        cx.cnt("superdense_comparisons");
    }
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](std::string const &p) -> CaseFn {
        if (p == "C14") return fcmp;
        if (p == "C15") return alltypes;
        if (p == "C01" || p == "C02" || p == "C03" || p == "C04" || p == "C05" || p == "C06" || p == "C07" || p == "C08" || p == "C09" || p == "C10") return mostly_double;
        return nullptr;
    });
}
