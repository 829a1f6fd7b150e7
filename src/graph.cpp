// C03: the graph alone, in and out of the provisional mode, against a counted multigraph.
#include "common.h"
#include "adevs/adevs.h"
#include <algorithm>
#include <memory>

typedef adevs::Atomic<int, double> At;
typedef adevs::Graph<int, double> G;
typedef std::list<adevs::PinValue<int>> L;
struct M : At {
    void delta_int() override {}
    void delta_ext(double, L const &) override {}
    void delta_conf(L const &) override {}
    void output_func(L &) override {}
    double ta() override { return adevs_inf<double>(); }
};
struct Op { int op, a, b; };   // op as in G::pending_op; a, b: pins or models
struct Model {                 // the reference
    std::map<std::pair<int, int>, int> pp, pa;
    std::map<int, int> inst;
    void apply(Op const &o) {
        auto dec = [](std::map<std::pair<int, int>, int> &m, std::pair<int, int> k) {
            auto i = m.find(k);
            if (i != m.end() && --i->second == 0) m.erase(i);
        };
        switch (o.op) {
            case G::ADD_ATOMIC: inst[o.a]++; break;
            case G::REMOVE_ATOMIC:
                if (inst.count(o.a) && --inst[o.a] == 0) {
                    inst.erase(o.a);
                    for (auto i = pa.begin(); i != pa.end();) if (i->first.second == o.a) i = pa.erase(i); else ++i;
                }
                break;
            case G::REMOVE_PIN: {
                std::vector<std::pair<int, int>> k;
                for (auto &e : pp) if (e.first.first == o.a || e.first.second == o.a) k.push_back(e.first);
                for (auto &e : k) dec(pp, e);
                k.clear();
                for (auto &e : pa) if (e.first.first == o.a) k.push_back(e.first);
                for (auto &e : k) dec(pa, e);
                break;
            }
            case G::CONNECT_PIN_TO_PIN: pp[{o.a, o.b}]++; break;
            case G::DISCONNECT_PIN_FROM_PIN: dec(pp, {o.a, o.b}); break;
            case G::CONNECT_PIN_TO_ATOMIC: pa[{o.a, o.b}]++; break;
            case G::DISCONNECT_PIN_FROM_ATOMIC: dec(pa, {o.a, o.b}); break;
        }
    }
    void route(int p, std::vector<std::pair<int, int>> &r) const {
        for (auto i = pa.lower_bound({p, -1}); i != pa.end() && i->first.first == p; ++i) r.push_back(i->first);
        for (auto i = pp.lower_bound({p, -1}); i != pp.end() && i->first.first == p; ++i) route(i->first.second, r);
    }
    i64 paths(int p, int np) const {
        std::vector<i64> n(np, 1);
        i64 m = 1;
        for (int i = np - 1; i >= 0; i--) {
            for (auto e = pp.lower_bound({i, -1}); e != pp.end() && e->first.first == i; ++e) n[i] += n[e->first.second];
            m = std::max(m, n[i]);
        }
        (void)p;
        return m;
    }
};
static char const* const names[] = {"add", "remove", "remove pin", "connect pins", "disconnect pins", "connect model", "disconnect model"};

static void graph_case(Ctx &cx) {
    Rng r(cx.rngseed("graph"));
    int np = 1 + (int)r.below(r.pct(20) ? 16 : 7), nm = 1 + (int)r.below(r.pct(20) ? 12 : 5);
    bool wide = r.pct(3);
    if (wide) {
        cx.cnt("graph_wide");
        if (r.pct(50)) nm = 70 + (int)r.below(250); else np = 40 + (int)r.below(90);
    }
    std::vector<adevs::pin_t> pins(np);
    if (r.pct(50)) std::reverse(pins.begin(), pins.end());
    else r.shuffle(pins);
    std::map<adevs::pin_t, int> pidx;
    for (int i = 0; i < np; i++) pidx[pins[i]] = i;
    std::vector<std::shared_ptr<At>> ms(nm);
    std::map<At*, int> midx;
    std::vector<int> ord(nm);
    for (int i = 0; i < nm; i++) ord[i] = i;
    r.shuffle(ord);
    for (int i : ord) { ms[i] = std::make_shared<M>(); midx[ms[i].get()] = i; }
    std::unique_ptr<G> g(new G());
    Model ref, later;              // later: with everything that is queued
    std::vector<Op> queue;
    bool prov = false;
    std::string log;
    auto show = [](Op const &o) { return std::string(names[o.op]) + " " + std::to_string(o.a) + (o.op > 2 ? "," + std::to_string(o.b) : "") + "; "; };
    auto call = [&](Op const &o) {
        switch (o.op) {
            case G::ADD_ATOMIC: g->add_atomic(ms[o.a]); break;
            case G::REMOVE_ATOMIC: g->remove_atomic(ms[o.a]); break;
            case G::REMOVE_PIN: g->remove_pin(pins[o.a]); break;
            case G::CONNECT_PIN_TO_PIN: g->connect(pins[o.a], pins[o.b]); break;
            case G::DISCONNECT_PIN_FROM_PIN: g->disconnect(pins[o.a], pins[o.b]); break;
            case G::CONNECT_PIN_TO_ATOMIC: g->connect(pins[o.a], ms[o.b]); break;
            default: g->disconnect(pins[o.a], ms[o.b]); break;
        }
    };
    u64 hist = hcomb(np, nm);
    auto verify = [&]() {
        std::vector<std::pair<int, int>> a, b;
        for (int p = 0; p < np; p++) {
            std::list<std::pair<adevs::pin_t, std::shared_ptr<At>>> out;
            ((G const &)*g).route(pins[p], out);
            a.clear(); b.clear();
            for (auto &x : out) {
                CHECK(pidx.count(x.first) && midx.count(x.second.get()), "route", "unknown pin or model in the route of pin " << p << " after " << log);
                a.push_back({pidx[x.first], midx[x.second.get()]});
            }
            ref.route(p, b);
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            if (a != b) {
                StrB s;
                for (auto &x : a) s << " p" << x.first << "->m" << x.second;
                s << ", expected";
                for (auto &x : b) s << " p" << x.first << "->m" << x.second;
                FAIL(prov ? "provisional-change-visible" : "route", "pin " << p << " routes to" << (std::string)s << " after " << log);
            }
            cx.cnt("graph_routes_compared");
            if (b.size() > 1) cx.cnt("graph_routes_to_several");
        }
        CHECK(g->get_atomics().size() == ref.inst.size(), "members", g->get_atomics().size() << " models in the graph, expected " << ref.inst.size() << " after " << log);
        for (auto &x : g->get_atomics()) CHECK(midx.count(x.get()) && ref.inst.count(midx[x.get()]), "members", "model " << midx[x.get()] << " is in the graph after " << log);
        // what waits is what was asked for, in that order
        auto &q = g->get_pending();
        CHECK(q.size() == queue.size(), "queue", q.size() << " operations queued, expected " << queue.size() << " after " << log);
        size_t k = 0;
        for (auto &o : q) {
            Op const &e = queue[k++];
            bool ok = o.op == e.op;
            if (e.op == G::ADD_ATOMIC || e.op == G::REMOVE_ATOMIC) ok = ok && o.model == ms[e.a];
            else {
                ok = ok && o.pin[0] == pins[e.a];
                if (e.op == G::CONNECT_PIN_TO_PIN || e.op == G::DISCONNECT_PIN_FROM_PIN) ok = ok && o.pin[1] == pins[e.b];
                if (e.op == G::CONNECT_PIN_TO_ATOMIC || e.op == G::DISCONNECT_PIN_FROM_ATOMIC) ok = ok && o.model == ms[e.b];
            }
            CHECK(ok, "queue", "queued operation " << k << " is not '" << show(e) << "' after " << log);
        }
    };
    int n = 10 + (int)r.below(wide ? 15 : 60);
    if (r.pct(65)) {           // start from a connected graph
        auto both = [&](Op const &o) {
            Model t = later;
            t.apply(o);
            if (t.paths(0, np) > 200) return;
            call(o);
            ref.apply(o);
            later.apply(o);
            log += show(o);
        };
        for (int i = 0; i < nm; i++) for (int k = 1 + r.pct(25); k > 0; k--) if (r.pct(90)) both({G::ADD_ATOMIC, i, 0});
        for (int i = 0; i < np; i++) {
            for (int j = i + 1; j < np; j++) if (r.pct(wide ? 2 : 35)) for (int k = 1 + r.pct(20); k > 0; k--) both({G::CONNECT_PIN_TO_PIN, i, j});
            for (int j = 0; j < nm; j++) if (ref.inst.count(j) && r.pct(wide ? 15 : 30)) for (int k = 1 + r.pct(20); k > 0; k--) both({G::CONNECT_PIN_TO_ATOMIC, i, j});
        }
        verify();
    }
    bool bursts = r.pct(10);
    int style = r.below(3);    // 0 few kinds of edges repeated, 1 mixed, 2 growing
    for (int i = 0; i < n; i++) {
        if (r.pct(12)) {
            if (!prov) { g->set_provisional(true); prov = true; log += "provisional; "; }
            else {
                // as the simulator does at the end of a cycle
                g->set_provisional(false);
                prov = false;
                log += "apply; ";
                auto &q = g->get_pending();
                CHECK(q.size() == queue.size(), "queue", q.size() << " operations queued, expected " << queue.size() << " after " << log);
                size_t k = 0;
                while (!q.empty()) {
                    auto o = q.front();
                    q.pop_front();
                    switch (o.op) {
                        case G::ADD_ATOMIC: g->add_atomic(o.model); break;
                        case G::REMOVE_ATOMIC: g->remove_atomic(o.model); break;
                        case G::REMOVE_PIN: g->remove_pin(o.pin[0]); break;
                        case G::CONNECT_PIN_TO_PIN: g->connect(o.pin[0], o.pin[1]); break;
                        case G::DISCONNECT_PIN_FROM_PIN: g->disconnect(o.pin[0], o.pin[1]); break;
                        case G::CONNECT_PIN_TO_ATOMIC: g->connect(o.pin[0], o.model); break;
                        case G::DISCONNECT_PIN_FROM_ATOMIC: g->disconnect(o.pin[0], o.model); break;
                    }
                    ref.apply(queue[k++]);
                    cx.cnt("graph_queued_applied");
                }
                queue.clear();
                later = ref;
                verify();
            }
            continue;
        }
        Op o;
        int c = (int)r.below(100);
        o.b = 0;
        int lo = style == 0 ? std::min(np, 3) : np;
        if (c < 18) { o.op = G::ADD_ATOMIC; o.a = r.below(nm); }
        else if (c < (style == 2 ? 20 : 30)) { o.op = G::REMOVE_ATOMIC; o.a = r.below(nm); }
        else if (c < (style == 2 ? 33 : 38)) { o.op = G::REMOVE_PIN; o.a = r.below(np); }
        else if (c < 72) {
            if (np < 2) continue;
            o.op = c < 60 ? G::CONNECT_PIN_TO_PIN : G::DISCONNECT_PIN_FROM_PIN;
            o.a = r.below(std::max(1, lo - 1));
            o.b = o.a + 1 + r.below(np - o.a - 1);
        } else {
            o.op = c < 88 ? G::CONNECT_PIN_TO_ATOMIC : G::DISCONNECT_PIN_FROM_ATOMIC;
            o.a = r.below(lo);
            o.b = r.below(nm);
            if (o.op == G::CONNECT_PIN_TO_ATOMIC && !later.inst.count(o.b)) { o = {G::ADD_ATOMIC, o.b, 0}; }   // models are added before they are connected
        }
        if (o.op == G::CONNECT_PIN_TO_PIN) {
            Model t = later;
            t.apply(o);
            if (t.paths(0, np) > 200) continue;
        }
        // now and then the same operation many times over
        int times = bursts && r.pct(8) && o.op != G::REMOVE_PIN ? (r.pct(50) ? 120 + (int)r.below(20) : 250 + (int)r.below(300)) : 1;
        if (times > 1) cx.cnt("graph_bursts");
        if (times > 1) log += std::to_string(times) + " times ";
        log += show(o);
        if (log.size() > 2000) log.erase(0, 500);
        hist = hcomb(hcomb(hist, (u64)o.op), (u64)o.a, hcomb((u64)o.b, times));
        for (; times > 0; times--) {
            later.apply(o);
            call(o);
            if (prov) { queue.push_back(o); cx.cnt("graph_queued"); }
            else ref.apply(o);
            cx.cnt("graph_ops");
        }
        verify();
    }
    cx.distinct.insert(hist);
    cx.sample("graph: " + std::to_string(np) + " pins, " + std::to_string(nm) + " models: " + log.substr(0, 200));
    // the graph shares the ownership of what it holds and of nothing else
    std::vector<std::weak_ptr<At>> wk(ms.begin(), ms.end());
    ms.clear();
    bool queued_refs = !queue.empty();
    if (!queued_refs)
        for (int i = 0; i < nm; i++) CHECK(wk[i].expired() == !ref.inst.count(i), "ownership", "model " << i << (wk[i].expired() ? " was destroyed while" : " is alive though not") << " in the graph after " << log);
    g.reset();
    for (int i = 0; i < nm; i++) CHECK(wk[i].expired(), "ownership", "model " << i << " outlives the graph after " << log);
}
// thousands of models on a few pins
static void crowd_case(Ctx &cx) {
    Rng r(cx.rngseed("crowd"));
    int np = 2 + (int)r.below(3), nm = r.in(2000, 9000);
    std::vector<adevs::pin_t> pins(np);
    G g;
    std::vector<std::shared_ptr<At>> ms(nm);
    std::map<At*, int> midx;
    std::vector<std::set<int>> on(np);
    int wide = (int)r.below(np);
    for (int i = 0; i + 1 < np; i++) g.connect(pins[i], pins[i + 1]);
    for (int i = 0; i < nm; i++) {
        ms[i] = std::make_shared<M>();
        midx[ms[i].get()] = i;
        g.add_atomic(ms[i]);
        int p = r.pct(95) ? wide : (int)r.below(np);
        g.connect(pins[p], ms[i]);
        on[p].insert(i);
    }
    std::set<int> in;
    for (int i = 0; i < nm; i++) in.insert(i);
    auto verify = [&](char const* what) {
        for (int p = 0; p < np; p++) {
            std::list<std::pair<adevs::pin_t, std::shared_ptr<At>>> out;
            ((G const &)g).route(pins[p], out);
            std::vector<int> a, b;
            for (auto &x : out) a.push_back(midx[x.second.get()]);
            for (int q = p; q < np; q++) b.insert(b.end(), on[q].begin(), on[q].end());
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            CHECK(a == b, "route", what << ": pin " << p << " of " << np << " routes to " << a.size() << " models, expected " << b.size() << " of " << nm);
            cx.max("models_on_one_route", (i64)b.size());
        }
        CHECK(g.get_atomics().size() == in.size(), "members", what << ": " << g.get_atomics().size() << " models in the graph, expected " << in.size());
        cx.cnt("graph_routes_compared", np);
    };
    verify("connected");
    for (int i = 0; i < 60; i++) {
        int m = (int)r.below(nm);
        if (r.pct(50)) {
            g.remove_atomic(ms[m]);
            in.erase(m);
            for (auto &s : on) s.erase(m);
        } else for (int p = 0; p < np; p++) if (on[p].count(m)) { g.disconnect(pins[p], ms[m]); on[p].erase(m); }
    }
    verify("some removed");
    cx.cnt("graph_crowds");
    cx.distinct.insert(hcomb(nm, np, wide));
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](std::string const &p) -> CaseFn { return p == "C03" ? +[](Ctx &cx) { if (Rng(cx.rngseed("kind")).below(600) == 0) crowd_case(cx); else graph_case(cx); } : nullptr; });
}
