// C16: lifetimes. Random worlds of Moore and Mealy models in graphs, coupled models or alone are simulated
// by the real engine with exceptions thrown out of every kind of callback, are torn down in random orders
// and simulated again. Instrumented models, values and listeners count themselves; the sanitizers watch the
// memory; allocation must balance to the byte after every case.
#include "common.h"
#include "adevs/adevs.h"
#include <memory>
#include <cmath>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#endif
#ifdef HAVE_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t in_use() { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t in_use() { return 0; }
#endif


namespace {
struct Boom { int where; };
struct Counters {
    long models = 0, vals = 0, lst = 0, coupled = 0;
    long throw_in = -1;    // countdown to a throw, at the callback kind below
    int throw_kind = 0;
    long val_throw = -1;
} K;
enum { CB_INT, CB_EXT, CB_CONF, CB_OUT, CB_TA, CB_LIST, CB_VAL, CB_NEG, CB_N };
void point(int kind) {
    if (K.throw_in >= 0 && K.throw_kind == kind && K.throw_in-- == 0) { K.throw_in = -1; throw Boom{kind}; }
}
// A value that owns heap memory.
struct Val {
    u64* p;
    Val() : p(new u64(0)) { K.vals++; }
    Val(u64 v) : p(new u64(v)) { K.vals++; }
    Val(Val const &o) : p(nullptr) {
        point(CB_VAL);
        p = new u64(*o.p);
        K.vals++;
    }
    Val &operator=(Val const &o) {
        point(CB_VAL);
        if (this != &o) { delete p; p = new u64(*o.p); }
        return *this;
    }
    ~Val() { *p = 0xdeadbeef; delete p; K.vals--; }
};
typedef adevs::Atomic<Val> A;
typedef adevs::MealyAtomic<Val> MA;
typedef adevs::Graph<Val> G;
typedef adevs::Coupled<Val> C;
typedef adevs::Simulator<Val> S;
typedef adevs::PinValue<Val> PV;
using adevs::pin_t;

struct World;
struct Core {    // behaviour shared by the two kinds of models
    World &w;
    int id;
    u64 h0, h;
    double last = 0, sig = 0;
    u64 canary = 0x1234567890abcdefull;
    pin_t in, out;
    Core(World &w, int id, u64 h0) : w(w), id(id), h0(h0), h(h0) { K.models++; }
    ~Core() { K.models--; canary = 0; }
    void alive() { CHECK(canary == 0x1234567890abcdefull, "dead_model_used", "a callback of a destroyed model was called"); }
};
struct Moore;
struct Mealy;
struct Child;
struct Coup : C {
    Coup() { K.coupled++; }
    ~Coup() { K.coupled--; }
};
struct List : adevs::EventListener<Val> {
    World &w;
    List(World &w) : w(w) { K.lst++; }
    ~List() { K.lst--; }
    void outputEvent(A &, PV &x, double t) override;
    void inputEvent(A &, PV &x, double t) override;
    void stateChange(A &, double t) override;
};
struct World {
    Rng r;
    bool dyn;
    u64 trace = 0;
    long events = 0, kids_checked = 0, early_checked = 0;
    std::shared_ptr<G> graph;           // the user's graph, if any
    std::shared_ptr<Coup> root;
    std::vector<std::shared_ptr<Coup>> subs;
    std::vector<int> where;             // coupled model that holds model i
    std::vector<std::shared_ptr<A>> user;
    std::vector<std::weak_ptr<A>> weak;
    std::vector<Core*> core;
    std::vector<pin_t> env;
    std::vector<std::pair<int, int>> edges;  // model to model
    std::weak_ptr<G> dyn_graph;
    u64 cycle = 0;
    bool verifier_failed = false;
    World(u64 seed) : r(seed), dyn(false) {}
    void ev(int id, int kind, u64 x) {
        events++;
        trace += hcomb(hcomb(id, kind, cycle), x);
    }
    void structure(Core &c, u64 h);
    struct KidRec { std::weak_ptr<A> w; u64 cyc; };
    std::map<int, std::weak_ptr<A>> kid;     // current child of model id
    std::vector<KidRec> gone;
    void check_gone() {
        for (auto i = gone.begin(); i != gone.end();) {
            if (i->cyc < cycle) {
                CHECK(i->w.expired(), "removed_model_kept", "a model that was removed and that nobody else owns is alive after the end of the cycle");
                kids_checked++;
                i = gone.erase(i);
            } else i++;
        }
    }
};
void List::outputEvent(A &, PV &x, double t) { w.trace += hcomb(*x.value.p, 77, (u64)(t * 8)); point(CB_LIST); }
void List::inputEvent(A &, PV &x, double t) { w.trace += hcomb(*x.value.p, 78, (u64)(t * 8)); point(CB_LIST); }
void List::stateChange(A &, double t) { w.trace += hcomb(79, (u64)(t * 8)); point(CB_LIST); }

u64 bag(std::list<PV> const &xb) {
    u64 s = 0;
    for (auto &x : xb) s += mix(*x.value.p);
    return s;
}
double advance(Core &c) {
    c.alive();
    point(CB_TA);
    if (K.throw_in >= 0 && K.throw_kind == CB_NEG && K.throw_in-- == 0) { K.throw_in = -1; return -1.0; }
    if (c.h % 7 == 0 && c.id) return adevs_inf<double>();
    return (double)(c.h % 11 % 4 + (c.h % 13 ? 1 : 0)) / 4.0 + (c.id == 0 ? 0.25 : 0);
}
void produce(Core &c, u64 x, std::list<PV> &yb) {
    c.alive();
    point(CB_OUT);
    u64 n = (hcomb(c.h, x) >> 8) % 3;
    for (u64 i = 0; i < n; i++) yb.push_back(PV(c.out, Val(hcomb(c.h, x, i))));
}
struct Moore : A, Core {
    using Core::Core;
    void delta_int() override { alive(); point(CB_INT); w.ev(id, 0, h); h = mix(h); w.structure(*this, h); }
    void delta_ext(double e, std::list<PV> const &xb) override { alive(); point(CB_EXT); w.ev(id, 1, hcomb(h, bag(xb), (u64)(e * 8))); h = hcomb(h, bag(xb)); w.structure(*this, h); }
    void delta_conf(std::list<PV> const &xb) override { alive(); point(CB_CONF); w.ev(id, 2, hcomb(h, bag(xb))); h = hcomb(h, bag(xb), 3); w.structure(*this, h); }
    void output_func(std::list<PV> &yb) override { produce(*this, 0, yb); }
    double ta() override { return advance(*this); }
};
struct Mealy : MA, Core {
    using Core::Core;
    void delta_int() override { alive(); point(CB_INT); w.ev(id, 0, h); h = mix(h); }
    void delta_ext(double e, std::list<PV> const &xb) override { alive(); point(CB_EXT); w.ev(id, 1, hcomb(h, bag(xb), (u64)(e * 8))); h = hcomb(h, bag(xb)); }
    void delta_conf(std::list<PV> const &xb) override { alive(); point(CB_CONF); w.ev(id, 2, hcomb(h, bag(xb))); h = hcomb(h, bag(xb), 3); }
    void output_func(std::list<PV> &yb) override { produce(*this, 0, yb); }
    void external_output_func(double, std::list<PV> const &xb, std::list<PV> &yb) override { produce(*this, bag(xb), yb); }
    void confluent_output_func(std::list<PV> const &xb, std::list<PV> &yb) override { produce(*this, bag(xb) + 1, yb); }
    double ta() override { return advance(*this); }
};
// Each model creates and removes children of its own, through the graph or the coupled model.
void World::structure(Core &c, u64 h) {
    if (!dyn || c.id >= 1000) return;
    if (h % 3) return;
    auto g = dyn_graph.lock();
    auto k = kid.find(c.id);
    if (k == kid.end()) {
        auto m = std::make_shared<Moore>(*this, 1000 + c.id, mix(h));
        if (g) { g->add_atomic(m); g->connect(c.out, m); g->connect(c.in, m->in); }
        else if (root) { root->add_atomic(m); root->create_coupling(c.out, m); if (h & 64) root->create_coupling(m->out, c.out); }
        else return;
        kid[c.id] = m;
    } else {
        auto m = k->second.lock();
        CHECK(m != nullptr, "owned_model_destroyed", "a model was destroyed while it was in the simulation");
        if (g) { g->remove_atomic(m); if (h & 32) g->remove_pin(static_cast<Moore*>(m.get())->in); }
        else if (root) root->remove_atomic(m);
        gone.push_back({m, cycle});
        kid.erase(k);
    }
}
enum { TOP_ATOMIC, TOP_GRAPH, TOP_COUPLED };

// Builds the same world for the same seed.
void build(World &w, int top, int n, bool loop, unsigned mealies = 35) {
    Rng &r = w.r;
    if (top == TOP_ATOMIC) n = 1;
    if (top == TOP_GRAPH) { w.graph = std::make_shared<G>(); }
    if (top == TOP_COUPLED) {
        w.root = std::make_shared<Coup>();
        int k = (int)r.below(4);
        for (int i = 0; i < k; i++) {
            w.subs.push_back(std::make_shared<Coup>());
            (i && r.pct(50) ? w.subs[r.below(i)] : w.root)->add_coupled_model(w.subs.back());
        }
    }
    for (int i = 0; i < 2; i++) w.env.push_back(pin_t());
    for (int i = 0; i < n; i++) {
        std::shared_ptr<A> a;
        u64 h0 = r.next();
        bool mealy = (i > 0 || top == TOP_ATOMIC) && r.pct(mealies);
        if (mealy) { auto m = std::make_shared<Mealy>(w, i, h0); w.core.push_back(m.get()); a = m; }
        else { auto m = std::make_shared<Moore>(w, i, h0); w.core.push_back(m.get()); a = m; }
        w.user.push_back(a);
        w.weak.push_back(a);
        int at = w.subs.empty() ? -1 : (int)r.in(-1, (int)w.subs.size() - 1);
        w.where.push_back(at);
        if (w.graph) w.graph->add_atomic(a);
        if (w.root) (at < 0 ? w.root : w.subs[at])->add_atomic(a);
    }
    if (top == TOP_ATOMIC) return;
    auto holder = [&](int i) { return w.where[i] < 0 ? w.root : w.subs[w.where[i]]; };
    for (int i = 0; i < n; i++) {
        if (w.graph) w.graph->connect(w.core[i]->in, w.user[i]);
        else holder(i)->create_coupling(w.core[i]->in, w.user[i]);
    }
    int edges = (int)r.below(3 * n + 1);
    for (int e = 0; e < edges; e++) {
        int a = (int)r.below(n), b = (int)r.below(n);
        if (a == b && !loop) continue;
        bool mm = dynamic_cast<Mealy*>(w.user[a].get()) != nullptr && dynamic_cast<Mealy*>(w.user[b].get()) != nullptr;
        if (mm && a > b && !loop) std::swap(a, b);
        w.edges.push_back({a, b});
        if (w.graph) w.graph->connect(w.core[a]->out, w.core[b]->in);
        else w.root->create_coupling(w.core[a]->out, w.core[b]->in);
    }
    for (int i = 0; i < 2; i++) {
        int b = (int)r.below(n);
        if (w.graph) w.graph->connect(w.env[i], w.core[b]->in);
        else w.root->create_coupling(w.env[i], w.core[b]->in);
    }
}
std::unique_ptr<S> start(World &w, int top) {
    if (top == TOP_ATOMIC) return std::make_unique<S>(w.user[0]);
    if (top == TOP_GRAPH) { w.dyn_graph = w.graph; return std::make_unique<S>(w.graph); }
    std::shared_ptr<C> c = w.root;
    return std::make_unique<S>(c);
}
// Runs some cycles under a random (but reproducible) drive. True if it came to the end.
bool run(World &w, S &s, Rng d, int cycles, bool peek_end, int drop, Ctx &cx) {
    for (int k = 0; k < cycles; k++) {
        w.cycle++;
        double tn = s.nextEventTime();
        if (d.pct(20) && !w.env.empty()) {
            PV x(w.env[d.below(w.env.size())], Val(d.next()));
            s.injectInput(x);
            if (tn == adevs_inf<double>()) s.setNextTime(k);
        } else if (tn == adevs_inf<double>()) return true;
        if (d.pct(15)) s.computeNextOutput();
        if (drop == k) {
            // the graph belongs to the simulator too: the user's handles are not needed
            w.graph.reset();
            for (auto &x : w.user) x.reset();
            w.user.clear();
        }
        s.execNextEvent();
        w.check_gone();
        cx.cnt("cycles");
    }
    if (peek_end && s.nextEventTime() < adevs_inf<double>()) s.computeNextOutput();
    return true;
}
struct Cfg { u64 ws, ds; int top, n, cycles; bool loop, dyn; };

void balance(size_t before, char const* what, Ctx &cx) {
    CHECK(K.models == 0, "models_leaked", what << ": " << K.models << " models were not destroyed");
    CHECK(K.vals == 0, "values_leaked", what << ": " << K.vals << " values were not destroyed");
    CHECK(K.lst == 0, "listeners_leaked", what << ": " << K.lst << " listeners were not destroyed");
    CHECK(K.coupled == 0, "coupled_leaked", what << ": " << K.coupled << " coupled models were not destroyed");
    size_t now = in_use();
    CHECK(now <= before, "memory_leaked", what << ": " << (long)(now - before) << " bytes more are allocated than before");
    cx.cnt("balances_checked");
}
// Which static models must be alive, given the handles left
void ownership(World &w, S* s, int top, bool coupled_in_sim, Ctx &cx) {
    for (size_t i = 0; i < w.weak.size(); i++) {
        bool own = i < w.user.size() && w.user[i];
        if (s) own = true;
        if (top == TOP_GRAPH && w.graph) own = true;
        if (top == TOP_COUPLED) {
            int at = w.where[i];
            // the tree of coupled models is kept by the root; sub models by their handles as well
            if (w.root || (at >= 0 && at < (int)w.subs.size() && w.subs[at])) own = true;
        }
        (void)coupled_in_sim;
        if (own) CHECK(!w.weak[i].expired(), "owned_model_destroyed", "model " << i << " was destroyed though it has an owner");
        cx.cnt("ownership_checks");
        if (!own && top != TOP_COUPLED) CHECK(w.weak[i].expired(), "model_outlives_owners", "model " << i << " is alive though its last owner is gone");
    }
}
u64 fresh_trace(Cfg const &c, int cycles, bool listener, Ctx &cx) {
    World w(c.ws);
    build(w, c.top, c.n, c.loop);
    auto s = start(w, c.top);
    auto l = std::make_shared<List>(w);
    if (listener) s->addEventListener(l);
    run(w, *s, Rng(c.ds), cycles, false, -1, cx);
    return w.trace;
}
}  // namespace

static void c16_models_once(Ctx &cx) {
    K = Counters();
    Rng r(cx.rngseed());
    size_t before;
    long ev = 0, kids = 0;
    u64 sig = 0;
    bool threw = false, ctor_threw = false;
    Cfg c;
    c.ws = r.next();
    c.ds = r.next();
    c.top = r.pct(10) ? TOP_ATOMIC : r.pct(50) ? TOP_GRAPH : TOP_COUPLED;
    c.n = r.pct(5) ? (int)r.in(100, 260) : (int)r.in(1, 8);
    c.cycles = (int)r.in(0, 25);
    c.loop = r.pct(10);
    c.dyn = c.top != TOP_ATOMIC && r.pct(40);
    int fault = r.pct(55) ? (int)r.below(CB_N) : -1;
    long when = fault == CB_NEG || fault == CB_TA ? (long)r.below(c.n * 3 + 2) : fault == CB_VAL ? (long)r.below(150) : (long)r.below(25);
    bool again = r.pct(60), peek = r.pct(40), pending = r.pct(25), inject_end = r.pct(20), listener = r.pct(60);
    std::string note;
    bool again_ran = false;
    cx.n["cycles"] += 0; cx.n["balances_checked"] += 0; cx.n["ownership_checks"] += 0; cx.n["simulated_again_equal"] += 0;
    {   // make room in the containers that survive the case
        (void)in_use();
    }
    before = in_use();
    {
        World w(c.ws);
        w.dyn = c.dyn;
        build(w, c.top, c.n, c.loop);
        auto l = std::make_shared<List>(w);
        std::unique_ptr<S> s;
        try {
            K.throw_kind = fault;
            K.throw_in = fault >= 0 ? when : -1;
            s = start(w, c.top);
            if (listener) s->addEventListener(l);
            if (r.pct(30)) l.reset();
            int drop = !c.dyn && !again && c.top == TOP_GRAPH && r.pct(50) ? (int)r.below(10) : -1;
            run(w, *s, Rng(c.ds), c.cycles, peek, drop, cx);
        } catch (Boom const &) { threw = true; }
        catch (adevs::exception const &e) {
            threw = true;
            CHECK(c.loop || fault == CB_NEG, "unexpected_exception", e.what());
        }
        ctor_threw = threw && !s;
        K.throw_in = -1;
        w.dyn = false;
        if (s && !threw) {
            if (inject_end && !w.env.empty()) { PV x(w.env[0], Val(7)); s->injectInput(x); }
            if (pending && w.graph && !w.user.empty()) {
                auto m = std::make_shared<Moore>(w, 999, 5);
                w.graph->add_atomic(m);
                w.graph->connect(w.core[0]->out, m);
            } else if (pending && w.root) {
                auto m = std::make_shared<Moore>(w, 999, 5);
                w.root->add_atomic(m);
                w.root->create_coupling(w.core[0]->out, m);
                if (r.pct(50)) w.root->remove_atomic(m);
            }
        }
        // The same models can be simulated again, as if they were new
        bool cmp = again && !c.dyn && !c.loop && (!pending || ctor_threw || threw) && !w.user.empty();
        if (cmp) {
            s.reset();
            for (auto x : w.core) x->h = x->h0;
            w.trace = 0;
            w.cycle = 0;
            ownership(w, nullptr, c.top, false, cx);
            auto l2 = std::make_shared<List>(w);
            int cyc = (int)r.in(1, 20);
            s = start(w, c.top);
            if (listener) s->addEventListener(l2);
            run(w, *s, Rng(c.ds + 1), cyc, false, -1, cx);
            Cfg c2 = c;
            c2.ds = c.ds + 1;
            u64 got = w.trace;
            u64 want = fresh_trace(c2, cyc, listener, cx);
            CHECK(got == want, "simulated_again_differs", "models simulated again after " << (ctor_threw ? "a failed construction" : threw ? "an exception" : "a simulation")
                  << " do not behave like new ones (top " << c.top << ", " << c.n << " models)");
            cx.cnt("simulated_again_equal");
            again_ran = true;
        } else if (again && !w.user.empty()) {
            s.reset();
            for (auto x : w.core) x->h = x->h0;
            try {
                s = start(w, c.top);
                run(w, *s, Rng(c.ds + 1), 10, false, -1, cx);
            } catch (adevs::exception const &e) { CHECK(c.loop, "unexpected_exception", e.what()); }
            w.gone.clear();
        }
        // Take it all apart in a random order
        std::vector<int> order = {0, 1, 2, 3, 4, 5};
        r.shuffle(order);
        for (int o : order) {
            switch (o) {
                case 0: s.reset(); break;
                case 1: w.graph.reset(); break;
                case 2: w.root.reset(); break;
                case 3: { std::vector<int> p; for (size_t i = 0; i < w.subs.size(); i++) p.push_back((int)i);
                          r.shuffle(p); for (int i : p) w.subs[i].reset(); } break;
                case 4: { std::vector<int> p; for (size_t i = 0; i < w.user.size(); i++) p.push_back((int)i);
                          r.shuffle(p); for (int i : p) w.user[i].reset(); } break;
                case 5: l.reset(); break;
            }
            ownership(w, s.get(), c.top, false, cx);
        }
        for (size_t i = 0; i < w.weak.size(); i++)
            CHECK(w.weak[i].expired(), "model_outlives_owners", "model " << i << " is alive though its last owner is gone");
        ev = w.events;
        kids = w.kids_checked;
        sig = hcomb(w.trace, c.ws);
    }
    balance(before, "models", cx);
    cx.cnt("events", ev);
    cx.cnt("removed_models_destroyed", kids);
    if (threw) cx.cnt("ended_by_exception");
    if (ctor_threw) cx.cnt("construction_failed");
    if (again_ran && threw) cx.cnt("simulated_again_after_exception");
    if (fault == CB_VAL && threw) cx.cnt("value_copy_failed");
    cx.max("models_in_a_world", c.n);
    if (ev > 3) cx.distinct.insert(sig);
    if (cx.caseno < 3) cx.sample("top=" + std::to_string(c.top) + " models=" + std::to_string(c.n) + " events=" + std::to_string(ev) + (threw ? " exception" : ""));
}
void c16_models(Ctx &cx) { unless_settles(cx, c16_models_once); }
// C05: Mealy models whose output depends on the input, in networks with and without cycles. Either the
// computation of the output ends, or the cycle is reported with one of its models; a network without
// a cycle is never reported.
void c05_loops(Ctx &cx) {
    K = Counters();
    Rng r(cx.rngseed("loops"));
    World w(r.next());
    bool loop = r.pct(80);
    int top = r.pct(50) ? TOP_GRAPH : TOP_COUPLED, n = (int)r.in(2, 9);
    build(w, top, n, loop, r.pct(60) ? 85 : 50);
    std::set<int> cyc;                          // Mealy models on a cycle of Mealy models
    for (int i = 0; i < n; i++) {
        if (!dynamic_cast<Mealy*>(w.user[i].get())) continue;
        std::set<int> seen;
        std::vector<int> todo = {i};
        while (!todo.empty()) {
            int x = todo.back();
            todo.pop_back();
            for (auto e : w.edges)
                if (e.first == x && dynamic_cast<Mealy*>(w.user[e.second].get()) && seen.insert(e.second).second) todo.push_back(e.second);
        }
        if (seen.count(i)) cyc.insert(i);
    }
    auto s = start(w, top);
    Rng d(r.next());
    try {
        run(w, *s, d, 20, false, -1, cx);
        if (!cyc.empty()) cx.cnt("cycles_that_stayed_quiet");
        else cx.cnt("networks_without_cycles");
    } catch (adevs::exception const &e) {
        CHECK(!cyc.empty(), "false-alarm", "'" << e.what() << "' for a network without cycles of Mealy models");
        int who = -1;
        for (int i = 0; i < n; i++) if ((void*)w.user[i].get() == e.who()) who = i;
        CHECK(who >= 0 && cyc.count(who), "wrong-culprit", "the model named by '" << e.what() << "' is not on a cycle of Mealy models");
        cx.cnt("revised_output_loops_detected");
    }
    if (w.events > 3) cx.distinct.insert(hcomb(w.trace, cyc.size()));
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](std::string const &p) -> CaseFn {
        if (p == "C16") return c16_models;
        if (p == "C05") return c05_loops;
        return nullptr;
    });
}
