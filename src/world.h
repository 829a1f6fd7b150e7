// Real adevs models driven by a Spec, recording everything that happens to them.
#pragma once
#include "iworld.h"
#include "adevs/adevs.h"
#include <any>

// ---------- time types: exact conversion to and from ticks ----------
template <class T> struct TT {     // floating point
    static constexpr bool sd = false;
    static T mk(RT r) { return std::ldexp((T)r.t, g_unit); }
    static RT to(T x) {
        if (!(x < adevs_inf<T>())) return RT(TINF);
        long double y = std::ldexp((long double)x, -g_unit);
        if (!(y > -1e16L && y < 1e16L)) return RT(0, INEXACT);
        i64 t = (i64)llroundl(y);
        return RT(t, (long double)t == y ? 0 : INEXACT);
    }
};
template <class T> struct TTint {
    static constexpr bool sd = false;
    static T mk(RT r) { return (T)r.t; }
    static RT to(T x) { return x == adevs_inf<T>() ? RT(TINF) : RT(x); }
};
template <> struct TT<int> : TTint<int> {};
template <> struct TT<long> : TTint<long> {};
template <> struct TT<adevs::double_fcmp> {
    typedef adevs::double_fcmp T;
    static constexpr bool sd = false;
    static T mk(RT r) {
        double d = std::ldexp((double)r.t, g_unit);
        if (g_jitter > 0) { g_jitter_state = mix(g_jitter_state); d *= 1 + g_jitter * ((double)(g_jitter_state % 2001) - 1000) / 1000; }
        return T(d);
    }
    static RT to(T x) {
        double d = (double)x;
        if (!(d < std::numeric_limits<double>::max())) return RT(TINF);
        d = std::ldexp(d, -g_unit);
        i64 t = (i64)llround(d);
        return RT(t, (g_jitter > 0 ? std::fabs(d - t) <= 1e-3 : d == t) ? 0 : INEXACT);
    }
};
template <class R> struct TT<adevs::sd_time<R>> {
    typedef adevs::sd_time<R> T;
    static constexpr bool sd = true;
    static constexpr bool whole = std::is_integral<R>::value;
    static R real(i64 t) { if constexpr (whole) return (R)t; else return std::ldexp((R)t, g_unit); }
    static T mk(RT r) { return T(real(r.t), (int)r.k); }
    static RT to(T x) {
        if (!(x.real() < std::numeric_limits<R>::max())) return RT(TINF);
        i64 t;
        if constexpr (whole) t = (i64)x.real();
        else t = (i64)llround(std::ldexp(x.real(), -g_unit));
        return RT(t, real(t) == x.real() ? (i64)x.integer() : INEXACT);
    }
};

// A negative time advance too small to change the clock (where the type has one)
static const i64 TINY = -(1ll << 50);
inline long double tiny(i64 k) {
    static long double const v[] = {-1e-300L, -1e-30L, -1e-18L, -1e-40L, -1e-12L};
    return v[k % 5];
}
template <class T> struct TN {
    static T mk(i64 k) {
        T x = (T)tiny(k);
        return x < 0 ? x : std::numeric_limits<T>::is_integer ? (T)-1 : -std::numeric_limits<T>::denorm_min();
    }
};
template <> struct TN<adevs::double_fcmp> { static adevs::double_fcmp mk(i64 k) { return (double)tiny(k); } };
template <class R> struct TN<adevs::sd_time<R>> { static adevs::sd_time<R> mk(i64 k) { return adevs::sd_time<R>(TN<R>::mk(k), (int)(k % 3)); } };

// ---------- value types ----------
struct Obj {   // counted value object with owned memory
    static inline std::atomic<i64> live{0};
    u64* p;
    Obj() : p(new u64(0)) { live++; }
    explicit Obj(u64 v) : p(new u64(v)) { live++; }
    Obj(Obj const &o) : p(new u64(*o.p)) { live++; }
    Obj &operator=(Obj const &o) { u64 v = *o.p; *p = v; return *this; }
    ~Obj() { *p = 0xdeadbeefdeadbeefull; delete p; live--; }
};
template <class V> struct VT;
template <> struct VT<u64> { static u64 mk(u64 v) { return v; } static u64 rd(u64 const &v) { return v; } };
template <> struct VT<std::any> {
    static std::any mk(u64 v) { return std::any(v); }
    static u64 rd(std::any const &v) { return v.has_value() ? std::any_cast<u64>(v) : 0xbadull; }
};
template <> struct VT<Obj> { static Obj mk(u64 v) { return Obj(v); } static u64 rd(Obj const &v) { return *v.p; } };

template <class V, class T> struct World;

template <class V, class T> struct Core {
    World<V, T>* w;
    int id;
    MState st;
    typedef std::list<adevs::PinValue<V>> L;
    Core(World<V, T>* w, int id) : w(w), id(id), st(w->sp->init(id)) { w->created++; }
    ~Core() {
        w->destroyed++;
        if (w->st[id] == &st) w->st[id] = nullptr;
        for (auto i = w->byPtr.begin(); i != w->byPtr.end();)
            if (i->second == id) i = w->byPtr.erase(i); else ++i;
    }
    void rd(L const &xb, std::vector<PV> &r) { for (auto &x : xb) r.push_back(PV(w->pin(x.pin), VT<V>::rd(x.value))); }
    void outf(int kind, RecType ty, T e, L const* xb, L &yb) {
        Rec r{ty, id, kind, kind == K_EXT ? TT<T>::to(e) : RT(0), {}, {}, !yb.empty()};
        if (xb) rd(*xb, r.in);
        r.out = w->sp->out(id, st, kind, r.e, kind == K_INT ? 0 : digest(r.in));
        for (auto &p : r.out) yb.push_back(adevs::PinValue<V>(w->pins[p.first], VT<V>::mk(p.second)));
        w->log.push_back(r);
    }
    void trans(int kind, T e, L const* xb) {
        Rec r{R_TRANS, id, kind, kind == K_EXT ? TT<T>::to(e) : RT(0), {}, {}, false};
        if (xb) rd(*xb, r.in);
        w->log.push_back(r);
        w->ntrans++;
        MSpec const &x = w->sp->m[id];
        if (x.boom_kind == kind && st.cnt[kind] + 1 == x.boom_n) throw Boom{id};
        st = w->sp->next(id, st, kind, r.e, kind == K_INT ? 0 : digest(r.in));
        int o = w->sp->op(id, st);
        if (o >= 0) w->request(o, id);
    }
    T ta() {
        w->log.push_back(Rec{R_TA, id, 0, RT(0), {}, {}, false});
        RT t = w->sp->ta(id, st);
        return t.inf() ? adevs_inf<T>() : t.t <= TINY ? TN<T>::mk(TINY - t.t) : TT<T>::mk(t);
    }
};
template <class V, class T> struct RMoore : adevs::Atomic<V, T> {
    typedef std::list<adevs::PinValue<V>> L;
    Core<V, T> c;
    RMoore(World<V, T>* w, int id) : c(w, id) {}
    void delta_int() { c.trans(K_INT, adevs_zero<T>(), nullptr); }
    void delta_ext(T e, L const &xb) { c.trans(K_EXT, e, &xb); }
    void delta_conf(L const &xb) { c.trans(K_CONF, adevs_zero<T>(), &xb); }
    void output_func(L &yb) { c.outf(K_INT, R_OUT, adevs_zero<T>(), nullptr, yb); }
    T ta() { return c.ta(); }
};
template <class V, class T> struct RMealy : adevs::MealyAtomic<V, T> {
    typedef std::list<adevs::PinValue<V>> L;
    Core<V, T> c;
    RMealy(World<V, T>* w, int id) : c(w, id) {}
    void delta_int() { c.trans(K_INT, adevs_zero<T>(), nullptr); }
    void delta_ext(T e, L const &xb) { c.trans(K_EXT, e, &xb); }
    void delta_conf(L const &xb) { c.trans(K_CONF, adevs_zero<T>(), &xb); }
    void output_func(L &yb) { c.outf(K_INT, R_OUT, adevs_zero<T>(), nullptr, yb); }
    void external_output_func(T e, L const &xb, L &yb) { c.outf(K_EXT, R_EOUT, e, &xb, yb); }
    void confluent_output_func(L const &xb, L &yb) { c.outf(K_CONF, R_COUT, adevs_zero<T>(), &xb, yb); }
    T ta() { return c.ta(); }
};

template <class V, class T> struct Lis : adevs::EventListener<V, T> {
    World<V, T>* w;
    size_t k;
    Lis(World<V, T>* w, size_t k) : w(w), k(k) {}
    void rec(int ty, adevs::Atomic<V, T> &m, T t, PV v) {
        auto i = w->byPtr.find(&m);
        LRec r{ty, i == w->byPtr.end() ? -1 : i->second, v, TT<T>::to(t), w->ntrans, 0};
        if (r.mid >= 0 && w->st[r.mid]) r.state = w->st[r.mid]->s;
        w->lis[k].push_back(r);
    }
    void outputEvent(adevs::Atomic<V, T> &m, adevs::PinValue<V> &v, T t) { rec(0, m, t, PV(w->pin(v.pin), VT<V>::rd(v.value))); }
    void inputEvent(adevs::Atomic<V, T> &m, adevs::PinValue<V> &v, T t) { rec(1, m, t, PV(w->pin(v.pin), VT<V>::rd(v.value))); }
    void stateChange(adevs::Atomic<V, T> &m, T t) { rec(2, m, t, PV(-1, 0)); }
};

template <class V, class T> struct World : IWorld {
    typedef adevs::Atomic<V, T> A;
    std::vector<adevs::pin_t> pins;
    std::map<adevs::pin_t, int> pinIdx;
    std::shared_ptr<adevs::Graph<V, T>> g;
    std::vector<std::shared_ptr<adevs::Coupled<V, T>>> c;
    std::vector<std::shared_ptr<A>> keep;
    std::vector<std::weak_ptr<A>> weak;
    std::vector<void*> garbage;
    std::shared_ptr<adevs::Simulator<V, T>> sim;

    explicit World(Spec const &s) : IWorld(s), keep(s.m.size()), weak(s.m.size()) {}
    ~World() {
        sim.reset();
        c.clear();
        g.reset();
        keep.clear();
        for (auto p : garbage) free(p);
    }
    int pin(adevs::pin_t p) const { auto i = pinIdx.find(p); return i == pinIdx.end() ? -1 : i->second; }
    std::shared_ptr<A> obj(int i, bool &fresh) {
        fresh = false;
        if (auto p = weak[i].lock()) return p;
        fresh = true;
        std::shared_ptr<A> p;
        if (sp->m[i].mealy) { auto q = std::make_shared<RMealy<V, T>>(this, i); st[i] = &q->c.st; p = q; }
        else { auto q = std::make_shared<RMoore<V, T>>(this, i); st[i] = &q->c.st; p = q; }
        byPtr[p.get()] = i;
        weak[i] = p;
        if (!sp->m[i].drop) keep[i] = p;
        return p;
    }
    std::shared_ptr<A> obj(int i) { bool f; return obj(i, f); }
    void junk(Rng &r) {   // perturb heap placement
        for (int n = r.below(6); n > 0; n--) garbage.push_back(malloc(16 + r.below(400)));
        if (garbage.size() > 3 && r.pct(40)) { size_t k = r.below(garbage.size()); free(garbage[k]); garbage[k] = garbage.back(); garbage.pop_back(); }
    }
    void make_sim() {
        if (sp->single) sim = std::make_shared<adevs::Simulator<V, T>>(keep[0]);
        else if (sp->use_coupled) sim = std::make_shared<adevs::Simulator<V, T>>(c[0]);
        else sim = std::make_shared<adevs::Simulator<V, T>>(g);
    }
    void drop_sim() { sim.reset(); }
    void add_listener() {
        lis.push_back({});
        sim->addEventListener(std::make_shared<Lis<V, T>>(this, lis.size() - 1));
    }
    RT next_time() { return TT<T>::to(sim->nextEventTime()); }
    void set_next(RT t) { sim->setNextTime(TT<T>::mk(t)); }
    void inject(PV p) {
        adevs::PinValue<V> x(pins[p.first], VT<V>::mk(p.second));
        sim->injectInput(x);
    }
    void clear_injected() { sim->clearInjectedInput(); }
    void outputs() { sim->computeNextOutput(); }
    RT states() { return TT<T>::to(sim->computeNextState()); }
    RT exec() { return TT<T>::to(sim->execNextEvent()); }
    bool has_graph() { return (bool)g; }
    std::vector<void*> graph_set() {
        std::vector<void*> r;
        for (auto &p : g->get_atomics()) r.push_back(p.get());
        return r;
    }
    bool expired(int i) { return weak[i].expired(); }
    // perform an operation through the public interface
    void request(int oi, int by) {
        Op const &o = sp->ops[oi];
        bool fresh = false, alive = true;
        auto ensure = [&](int m) { alive = !weak[m].expired(); return obj(m, fresh); };
        auto attach = [&](std::shared_ptr<A> p) { for (int q : sp->m[o.a].in) g->connect(pins[q], p); };
        switch (o.kind) {
            case O_ADD: { auto p = ensure(o.a); g->add_atomic(p); attach(p); break; }
            case O_REM: { if (auto p = weak[o.a].lock()) g->remove_atomic(p); break; }
            case O_ADDREM: { auto p = ensure(o.a); g->add_atomic(p); g->remove_atomic(p); break; }
            case O_REMADD: { auto p = ensure(o.a); g->remove_atomic(p); g->add_atomic(p); attach(p); break; }
            case O_PP: g->connect(pins[o.a], pins[o.b]); break;
            case O_DPP: g->disconnect(pins[o.a], pins[o.b]); break;
            case O_PA: g->connect(pins[o.a], obj(o.b)); break;
            case O_DPA: if (auto p = weak[o.b].lock()) g->disconnect(pins[o.a], p); break;
            case O_RPIN: g->remove_pin(pins[o.a]); break;
            case OC_ADD: { auto p = ensure(o.a); c[o.c]->add_atomic(p); for (int q : sp->m[o.a].in) c[o.c]->create_coupling(pins[q], p); break; }
            case OC_REM: { auto p = ensure(o.a); c[o.c]->remove_atomic(p); break; }
            case OC_PP: c[o.c]->create_coupling(pins[o.a], pins[o.b]); break;
            case OC_DPP: c[o.c]->remove_coupling(pins[o.a], pins[o.b]); break;
            case OC_PA: c[o.c]->create_coupling(pins[o.a], obj(o.b)); break;
            case OC_DPA: c[o.c]->remove_coupling(pins[o.a], obj(o.b)); break;
            case OC_ADDC: c[o.c]->add_coupled_model(c[o.a]); break;
            case OC_REMC: c[o.c]->remove_coupled_model(c[o.a]); break;
            case OC_MOVE: {
                auto p = ensure(o.a);
                c[o.b]->add_atomic(p);
                for (int q : sp->m[o.a].in) c[o.b]->create_coupling(pins[q], p);
                c[o.c]->remove_atomic(p);
                break;
            }
        }
        ops.push_back({oi, by, fresh, alive});
    }
    // build pins, models and structure; the order of creation is taken from r
    void build(Rng &r, bool shuffle) {
        int np = sp->np, nm = sp->m.size();
        std::vector<int> po(np), mo;
        for (int i = 0; i < np; i++) po[i] = i;
        for (int i = 0; i < nm; i++)
            if (sp->use_coupled || sp->present[i] > 0) mo.push_back(i);
        if (shuffle) { r.shuffle(po); r.shuffle(mo); }
        std::vector<adevs::pin_t> tmp(np);
        std::vector<int> rank(np);
        for (int k = 0; k < np; k++) rank[po[k]] = k;
        for (int i = 0; i < np; i++) pins.push_back(tmp[rank[i]]);
        for (int i = 0; i < np; i++) pinIdx[pins[i]] = i;
        std::map<int, std::shared_ptr<A>> hold;
        for (int i : mo) { if (shuffle) junk(r); hold[i] = obj(i); }
        if (sp->single) return;
        if (sp->use_coupled) {
            std::vector<int> co(sp->c.size());
            c.resize(sp->c.size());
            for (size_t i = 0; i < co.size(); i++) co[i] = i;
            if (shuffle) r.shuffle(co);
            for (int i : co) { if (shuffle) junk(r); c[i] = std::make_shared<adevs::Coupled<V, T>>(); }
            for (int i : co) {
                CSpec const &s = sp->c[i];
                std::vector<int> at(s.at.begin(), s.at.end()), cc(s.cc.begin(), s.cc.end());
                std::vector<std::pair<int, int>> pa(s.pa.begin(), s.pa.end()), pp(s.pp.begin(), s.pp.end());
                if (shuffle) { r.shuffle(at); r.shuffle(cc); r.shuffle(pa); r.shuffle(pp); }
                for (int a : at) c[i]->add_atomic(obj(a));
                for (auto &e : pa) c[i]->create_coupling(pins[e.first], obj(e.second));
                for (auto &e : pp) c[i]->create_coupling(pins[e.first], pins[e.second]);
                for (int d : cc) c[i]->add_coupled_model(c[d]);
            }
        } else {
            g = std::make_shared<adevs::Graph<V, T>>();
            for (int i : mo) for (int k = 0; k < sp->present[i]; k++) g->add_atomic(hold[i]);
            auto pa = sp->pa; auto pp = sp->pp;
            if (shuffle) { r.shuffle(pa); r.shuffle(pp); }
            for (auto &e : pp) g->connect(pins[e.first], pins[e.second]);
            for (auto &e : pa) g->connect(pins[e.first], obj(e.second));
        }
    }
};
