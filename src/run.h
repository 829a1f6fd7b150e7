// One simulated run checked, cycle by cycle, against the reference executor.
#pragma once
#include "iworld.h"
#include "adevs/exception.h"

struct Trace {          // order-insensitive summary of a run, for comparing runs
    std::vector<u64> cyc;
    u64 h = 1;
    void add(u64 c) { cyc.push_back(c); h = hcomb(h, c); }
};

inline std::string pvs(std::vector<PV> v) {
    std::sort(v.begin(), v.end());
    std::string s = "{";
    for (auto &p : v) s += "p" + std::to_string(p.first) + ":" + std::to_string(p.second % 10000) + " ";
    return s + "}";
}
inline std::vector<PV> sorted(std::vector<PV> v) { std::sort(v.begin(), v.end()); return v; }

// ---------- one simulated run checked against the reference ----------
struct Run {
    Spec const &sp;
    Ctx &cx;
    TypeInfo const &ti;
    std::unique_ptr<IWorld> wp;
    IWorld &w;
    Ref ref;
    Trace trace;
    RT tcur;                    // time of the last executed cycle
    RT forced = RT(TINF);       // next time set from outside, if any
    bool is_forced = false;
    std::vector<PV> inj;        // injected and not yet used
    size_t nop_seen = 0;
    i64 cycles = 0;
    std::function<bool(std::string const &)> ignore;   // categories left to other properties
    bool ignored = false;

    Run(Spec const &s, Ctx &cx, TypeInfo const &ti, std::unique_ptr<IWorld> q) : sp(s), cx(cx), ti(ti), wp(std::move(q)), w(*wp), ref(s, ti.sd) {}

    void fail(std::string const &key, std::string const &msg) {
        if (ignore && ignore(key)) { ignored = true; cx.n["divergence_left_to_other_checks"]++; throw Ignored(); }
        throw Viol(key, std::string(ti.name) + " cycle " + std::to_string(cycles) + " t=" + tcur.str() + ": " + msg);
    }
    struct Ignored {};
#define RCHECK(c, key, text) do { if (!(c)) fail(key, (std::string)(StrB() << text)); } while (0)

    // Construct the simulator; returns false if construction threw as expected.
    bool start(Rng &r, bool shuffle, int nlis) {
        w.build(r, shuffle);
        bool expect_bad = !ref.neg.who.empty();
        try {
            w.make_sim();
        } catch (adevs::exception &ex) {
            check_exception(ex, ref.neg.who, "construction");
            RCHECK(expect_bad, "false-alarm", "construction threw " << ex.what());
            cx.cnt("illegal_initial_detected");
            return false;
        }
        RCHECK(!expect_bad, "missed-negative-advance", "construction accepted a negative time advance of model " << *ref.neg.who.begin());
        for (int i = 0; i < nlis; i++) w.add_listener();
        w.log.clear();
        return true;
    }
    void check_exception(adevs::exception &ex, std::set<int> const &who, char const* when) {
        std::string names;
        for (int i : who) names += std::to_string(i) + " ";
        auto it = w.byPtr.find(ex.who());
        int got = it == w.byPtr.end() ? -1 : it->second;
        RCHECK(!who.empty(), "false-alarm", "exception '" << ex.what() << "' during " << when << " of a legal model (names model " << got << ")");
        RCHECK(got >= 0 && who.count(got), "wrong-culprit", "exception '" << ex.what() << "' during " << when << " names model " << got << ", expected one of " << names);
        RCHECK(ex.what() && *ex.what(), "empty-message", "exception without a message");
    }
    RT next_time() { return is_forced ? forced : ref.tNext(); }

    void check_next_time(char const* when) {
        RT n = next_time();
        RT x = w.next_time();
        RCHECK(x == n, "next-time", when << ": next event time " << x.str() << ", expected " << n.str());
    }
    void inject(PV p) {
        w.inject(p);
        inj.push_back(p);
        cx.cnt("injected");
    }
    void clear_injected() { w.clear_injected(); inj.clear(); }
    void force(RT t) { w.set_next(t); forced = t; is_forced = true; }
    void driver_op(int oi) { w.request(oi, -1); }

    Ref::Cycle cyc;
    // Output computation on its own. Returns false if it ended the run with the expected exception.
    bool outputs() {
        begin_cycle();
        try {
            w.outputs();
        } catch (adevs::exception &ex) {
            return output_exception(ex);
        }
        RCHECK(!cyc.mealy_loop, "missed-mealy-loop", "a propagating Mealy loop was not reported");
        check_outputs(w.log.size(), "computeNextOutput");
        RCHECK(w.ntrans == 0, "early-transition", "a model changed state during output computation");
        check_states("after output computation");
        cx.cnt("output_computations");
        return true;
    }
    void begin_cycle() {
        cyc = ref.compute(next_time(), inj);
        inj.clear();
        w.log.clear();
        w.ntrans = 0;
        for (auto &l : w.lis) l.clear();
    }
    bool output_exception(adevs::exception &ex) {
        RCHECK(cyc.mealy_loop, "false-alarm", "output computation threw '" << ex.what() << "' for a legal model");
        check_exception(ex, cyc.loop_members, "output computation");
        cx.cnt("mealy_loops_detected");
        return false;
    }
    void check_states(char const* when) {
        for (size_t i = 0; i < sp.m.size(); i++)
            if (ref.m[i].inst > 0 && w.st[i])
                RCHECK(w.st[i]->s == ref.m[i].st.s, "state", when << ": state of model " << i << " differs from the reference");
    }
    // the records [0,n) of the output phase
    void check_outputs(size_t n, char const* when) {
        std::map<int, int> moore;
        std::map<int, Rec const*> last;
        for (size_t k = 0; k < n; k++) {
            auto const &r = w.log[k];
            if (r.type == R_TA || r.type == R_TRANS) continue;
            int i = r.model;
            RCHECK(ref.m[i].inst > 0, "call-on-removed", when << ": output function of model " << i << " called though it is not part of the model");
            RCHECK(!r.dirty_yb, "dirty-output-list", when << ": model " << i << " was given a non-empty output list");
            if (!sp.m[i].mealy) {
                moore[i]++;
                RCHECK(ref.m[i].tN == cyc.t, "spurious-output", when << ": output function of model " << i << " called though it is not imminent (tN=" << ref.m[i].tN.str() << ")");
                RCHECK(moore[i] == 1, "duplicate-output", when << ": output function of model " << i << " called twice");
            } else {
                bool imm = ref.m[i].tN == cyc.t;
                if (r.type == R_EOUT) {
                    RCHECK(!imm, "mealy-kind", when << ": external output of imminent Mealy model " << i);
                    RCHECK((r.e == cyc.e[i]), "elapsed", when << ": external output of model " << i << " got e=" << r.e.str() << ", expected " << cyc.e[i].str());
                } else RCHECK(imm, "mealy-kind", when << ": internal or confluent output of non-imminent Mealy model " << i);
                RCHECK((r.type == R_OUT) == r.in.empty(), "mealy-kind", when << ": Mealy model " << i << " output function does not match its input");
                last[i] = &r;
            }
        }
        for (size_t i = 0; i < sp.m.size(); i++) {
            if (ref.m[i].inst == 0) continue;
            if (!sp.m[i].mealy) {
                bool imm = ref.m[i].tN == cyc.t;
                RCHECK(!imm || moore[i] == 1, "missing-output", when << ": output function of imminent model " << i << " not called");
            } else if (cyc.kind[i] != K_NONE) {
                RCHECK(last.count(i), "missing-output", when << ": no output computed for active Mealy model " << i);
                auto const &r = *last[i];
                RCHECK(sorted(r.in) == sorted(cyc.in[i]), "mealy-input", when << ": last output of Mealy model " << i << " computed from " << pvs(r.in) << ", consistent input is " << pvs(cyc.in[i]));
                RCHECK(sorted(r.out) == sorted(cyc.out[i]), "mealy-output", when << ": last output of Mealy model " << i << " is " << pvs(r.out) << ", consistent output is " << pvs(cyc.out[i]));
            }
        }
        // notifications of output
        for (auto &l : w.lis) {
            std::map<int, std::vector<PV>> got;
            for (auto &x : l) {
                if (x.type != 0) { RCHECK(n < w.log.size() || w.ntrans > 0, "listener", when << ": input or state notification during output computation"); continue; }
                RCHECK(x.mid >= 0, "listener", when << ": output notification for an unknown model");
                RCHECK((x.t == cyc.t), "listener", when << ": output notification at time " << x.t.str() << ", expected " << cyc.t.str());
                RCHECK(x.pos == 0, "listener", when << ": output notification after a state change");
                got[x.mid].push_back(x.v);
            }
            for (size_t i = 0; i < sp.m.size(); i++) {
                std::vector<PV> exp;
                if (!sp.m[i].mealy) {
                    for (size_t k = 0; k < n; k++) if (w.log[k].type == R_OUT && w.log[k].model == (int)i) exp.insert(exp.end(), w.log[k].out.begin(), w.log[k].out.end());
                } else if (cyc.kind[i] != K_NONE && last.count(i)) exp = last[i]->out;
                RCHECK(sorted(got[i]) == sorted(exp), "listener", when << ": output notifications of model " << i << " " << pvs(got[i]) << ", it produced " << pvs(exp));
                cx.n["output_notifications"] += got[i].size();
            }
        }
        cx.n["deliveries"] += cyc.deliveries;
        cx.n["mealy_activations"] += cyc.mealy_active;
    }

    // full step; split: use computeNextOutput + computeNextState
    bool step(bool split) {
        if (split) {
            if (!outputs()) return false;
            return state_step(true);
        }
        begin_cycle();
        return state_step(false);
    }
    // after outputs() when separate, otherwise runs the combined step
    bool state_step(bool separate) {
        tcur = cyc.t;
        RT ret;
        w.log.clear();
        w.ntrans = 0;
        if (separate) { for (auto &l : w.lis) l.clear(); }
        std::vector<int> before(sp.m.size());
        for (size_t i = 0; i < sp.m.size(); i++) before[i] = ref.m[i].inst;
        bool threw = false;
        void* culprit = nullptr;
        std::string what;
        try {
            ret = separate ? w.states() : w.exec();
        } catch (adevs::exception &ex) {
            if (!separate && cyc.mealy_loop) return output_exception(ex);
            threw = true; culprit = ex.who(); what = ex.what();
        }
        if (!separate) RCHECK(!cyc.mealy_loop, "missed-mealy-loop", "a propagating Mealy loop was not reported");
        // split the log at the first transition
        size_t n = 0;
        while (n < w.log.size() && w.log[n].type != R_TRANS) n++;
        if (!separate) check_outputs(n, "step");
        size_t first = separate ? 0 : n;
        std::map<int, Rec const*> tr;
        for (size_t k = first; k < w.log.size(); k++) {
            auto const &r = w.log[k];
            int i = r.model;
            if (r.type == R_TA) continue;
            RCHECK(r.type == R_TRANS, "late-output", "an output function of model " << i << " ran after a state change");
            RCHECK(before[i] > 0, "call-on-removed", "model " << i << " changed state though it is not part of the model");
            RCHECK(!tr.count(i), "double-transition", "model " << i << " changed state twice");
            RCHECK(cyc.kind[i] != K_NONE, "spurious-transition", "model " << i << " changed state (" << kname(r.kind) << ") though it is not imminent and has no input");
            RCHECK(r.kind == cyc.kind[i], "transition-kind", "model " << i << " did " << kname(r.kind) << ", expected " << kname(cyc.kind[i]));
            if (r.kind == K_EXT) RCHECK((r.e == cyc.e[i]), "elapsed", "external transition of model " << i << " got e=" << r.e.str() << ", expected " << cyc.e[i].str());
            RCHECK(sorted(r.in) == sorted(cyc.in[i]), "input", "model " << i << " received " << pvs(r.in) << ", expected " << pvs(cyc.in[i]));
            tr[i] = &r;
            cx.n[r.kind == K_INT ? "internal" : r.kind == K_EXT ? "external" : "confluent"]++;
        }
        if (!threw)
            for (size_t i = 0; i < sp.m.size(); i++)
                RCHECK(cyc.kind[i] == K_NONE || tr.count(i), "missing-transition", "model " << i << " did not change state, expected " << kname(cyc.kind[i]));
        // requested operations: each model's request must be the one its new state prescribes
        u64 ch = hcomb(cyc.t.t, sp.real_only ? 0 : cyc.t.k);
        u64 sum = 0;
        ref.neg.who.clear();
        RT tl = ti.sd ? RT(cyc.t.t, cyc.t.k + 1) : cyc.t;
        for (auto &x : tr) {
            int i = x.first;
            Rec const &r = *x.second;
            ref.m[i].st = sp.next(i, ref.m[i].st, r.kind, r.kind == K_EXT ? cyc.e[i] : RT(0), r.kind == K_INT ? 0 : digest(cyc.in[i]));
            sum += hcomb(hcomb(i, r.kind), ref.m[i].st.s);
        }
        for (auto &x : tr) {
            int i = x.first;
            // a model whose last instance is removed in this cycle is still rescheduled first
            ref.resched(i, tl);
        }
        std::set<int> bad_trans = ref.neg.who;
        // apply operations in the order they were requested
        std::map<int, bool> alive;    // drop-policy objects: alive at request time?
        for (size_t k = 0; k < w.ops.size(); k++) {
            auto &q = w.ops[k];
            Op const &o = sp.ops[q.op];
            bool fresh = false;
            if ((o.kind == O_ADD || o.kind == O_ADDREM || o.kind == O_REMADD) && sp.m[o.a].drop) {
                bool al = before[o.a] > 0 || alive[o.a];
                if (q.by != -1)
                    RCHECK(q.was_alive == al, "lifetime", "object of dropped model " << o.a << (al ? " was destroyed too early" : " was kept alive after its last owner let go"));
                fresh = q.fresh;
                alive[o.a] = true;
            } else fresh = q.fresh;
            ref.apply(o, tl, fresh);
            cx.cnt("structure_ops");
            cx.n[std::string("op_") + opname(o.kind)]++;
        }
        w.ops.clear();
        if (threw) {
            adevs::exception ex(what.c_str(), culprit);
            check_exception(ex, ref.neg.who, "state change");
            cx.cnt("illegal_advance_detected");
            return false;
        }
        RCHECK(ref.neg.who.empty(), "missed-negative-advance", "negative time advance of model " << *ref.neg.who.begin() << " accepted");
        // who was asked for its time advance
        for (size_t k = first; k < w.log.size(); k++)
            if (w.log[k].type == R_TA) {
                int i = w.log[k].model;
                RCHECK(before[i] > 0 || ref.m[i].inst > 0 || added_now(i), "call-on-removed", "time advance of absent model " << i << " consulted");
            }
        is_forced = false;
        // clock
        RCHECK((ret == tl), "clock", "step returned " << ret.str() << ", expected " << tl.str());
        check_states("after the step");
        check_next_time("after the step");
        check_set();
        for (size_t i = 0; i < sp.m.size(); i++)
            if (sp.m[i].drop)
                RCHECK(w.expired(i) == (ref.m[i].inst == 0), "lifetime", "object of model " << i << (ref.m[i].inst ? " was destroyed while part of the model" : " outlives its last owner"));
        check_listeners(tr, separate);
        ch = hcomb(ch, sum);
        trace.add(ch);
        cycles++;
        cx.cnt("cycles");
        int simul = 0;
        for (auto k : cyc.kind) simul += k != K_NONE;
        if (simul > 1) cx.cnt("cycles_with_simultaneous_transitions");
        cx.max("max_simultaneous", simul);
        return true;
    }
    std::set<int> added;
    bool added_now(int i) {   // added and removed again within the same batch
        for (auto &o : sp.ops) if ((o.kind == O_ADD || o.kind == O_ADDREM || o.kind == O_REMADD || o.kind == OC_ADD || o.kind == OC_MOVE || o.kind == OC_ADDC) && (o.a == i || o.kind == OC_ADDC)) return true;
        return false;
    }
    void check_set() {
        if (!w.has_graph()) return;
        std::set<int> got;
        for (void* p : w.graph_set()) {
            auto i = w.byPtr.find(p);
            RCHECK(i != w.byPtr.end(), "graph-set", "the graph holds an unknown model");
            got.insert(i->second);
        }
        for (size_t i = 0; i < sp.m.size(); i++)
            RCHECK((ref.m[i].inst > 0) == (got.count(i) > 0), "graph-set", "model " << i << (got.count(i) ? " is in" : " is not in") << " the graph, expected " << ref.m[i].inst << " instances");
    }
    void check_listeners(std::map<int, Rec const*> const &tr, bool) {
        for (auto &l : w.lis) {
            std::map<int, std::vector<PV>> in;
            std::map<int, int> sc;
            for (auto &x : l) {
                if (x.type == 0) continue;
                RCHECK(x.mid >= 0 && tr.count(x.mid), "listener", "notification about model " << x.mid << " which did not change state");
                RCHECK((x.t == cyc.t), "listener", "notification at time " << x.t.str() << ", expected " << cyc.t.str());
                if (x.type == 1) {
                    RCHECK(sc[x.mid] == 0, "listener", "input notification after the state change of model " << x.mid);
                    // before the model's own transition: its state is still the old one
                    RCHECK(x.state != ref.m[x.mid].st.s, "listener", "input notification of model " << x.mid << " came after it changed state");
                    in[x.mid].push_back(x.v);
                } else {
                    sc[x.mid]++;
                    RCHECK(x.state == ref.m[x.mid].st.s, "listener", "state notification of model " << x.mid << " came before it changed state");
                }
            }
            for (auto &x : tr) {
                RCHECK(sc[x.first] == 1, "listener", sc[x.first] << " state notifications for one state change of model " << x.first);
                RCHECK(sorted(in[x.first]) == sorted(x.second->in), "listener", "input notifications of model " << x.first << " " << pvs(in[x.first]) << ", it received " << pvs(x.second->in));
                cx.cnt("state_notifications");
                cx.n["input_notifications"] += in[x.first].size();
            }
        }
    }
};
