// C22: the FMI adapter against a component that checks every call made to it.
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <memory>
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/event_locators.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
#include "adevs/solvers/fmi.h"
#include "common.h"

template class adevs::ModelExchange<std::any>;
typedef adevs::ModelExchange<double> ME;
typedef adevs::Hybrid<double> Hybrid;
typedef adevs::PinValue<double> PV;
typedef std::list<PV> Bag;
enum { BIS, LIN, DISC, FAST, SPLINE, NONE };
static char const* const locs[] = {"bisection", "linear", "discontinuous", "fast", "fast+spline", "null"};
static char const* const sols[] = {"corrected_euler", "rk_45", "trap"};

// pieces with known solutions; FORCED depends on time itself
struct Blk {
    enum K { RAMP, EXPO, ROT, FORCED } k;
    double a, b, w;
    int dim() const { return k == ROT ? 2 : 1; }
    void der(double const* x, double t, double* d) const {
        switch (k) {
            case RAMP: d[0] = a; break;
            case EXPO: d[0] = a * (x[0] - b); break;
            case ROT: d[0] = a * x[1]; d[1] = -a * x[0]; break;
            case FORCED: d[0] = a + b * std::cos(w * t); break;
        }
    }
    void flow(double const* x, double t0, double t, double* r) const {
        switch (k) {
            case RAMP: r[0] = x[0] + a * t; break;
            case EXPO: r[0] = b + (x[0] - b) * std::exp(a * t); break;
            case ROT: { double c = std::cos(a * t), s = std::sin(a * t), u = x[0] * c + x[1] * s, v = x[1] * c - x[0] * s; r[0] = u; r[1] = v; break; }
            case FORCED: r[0] = x[0] + a * t + b / w * (std::sin(w * (t0 + t)) - std::sin(w * t0)); break;
        }
    }
};

// what the component is, chosen before the adapter loads it
struct Plan {
    std::vector<Blk> B;
    int M = 0;
    bool directional = false;
    int fail = 0;  // 1 wrong version, 2 no description, 3 co-simulation only
    double tol = 0;
    double hmax = 0, dstate = 0, loc_dt = 0, loc_z = 0;
    bool rough = false;  // indicators may be discontinuous
    u64 seed = 0;
    Ctx* cx = nullptr;
    std::string desc;
    int requests = 0;  // percent of steps after which the component asks for event mode
};
static Plan* g_plan = nullptr;
static int g_dirs = 0, g_contexts = 0, g_instances = 0;
static std::string g_dir, g_deferred;
static fmi2_import_t* g_last = nullptr;

struct fmi_import_context_t { jm_callbacks* cb; };
struct fmi2_import_variable_t { std::string name; fmi2_value_reference_t vr; fmi2_base_type_enu_t type; };
struct fmi2_import_variable_list_t { std::vector<fmi2_import_variable_t>* v; };

struct fmi2_import_t {
    enum Mode { LOADED, DLL, INSTANTIATED, INIT, EVENT, CONT, TERMINATED, FREED, UNLOADED } mode = LOADED;
    struct Zf { int block, var; double level, s; int shape; };  // block -1: time
    Plan p;
    Ctx &cx;
    Rng r;
    int N;
    jm_callbacks* cb = nullptr;   // of the adapter, used until the component is freed
    void* scratch = nullptr;
    std::vector<fmi2_import_variable_t> vars;
    std::vector<double> x;
    double time = 0;
    std::vector<Zf> z;
    double T = INFINITY;
    // the solution since the last event
    std::vector<double> P;
    double t0 = 0;
    double done = 0;     // time of the last completed step or event
    std::vector<double> tz;
    bool set_up = false, needed = false, dirty = false, request = false, moved = false;
    bool entered = false;  // in event mode since the last time the component was asked to continue
    int iter = 0, chain = 0;
    bool due_T = false;
    std::vector<bool> due_z;
    int count = 0, flag = 0, knob = 0;
    double pend_u = 0;
    int ublock = -1;
    bool terminating = false;
    double now = 0;      // simulation time, set by the driver
    long batches = 0, completed = 0, requests = 0;
    std::string log;
    fmi2_import_t(Plan const &q) : p(q), cx(*q.cx), r(q.seed) {
        N = 0;
        for (size_t i = 0; i < p.B.size(); i++) { if (p.B[i].k == Blk::RAMP && ublock < 0) ublock = (int)i; N += p.B[i].dim(); }
        x.assign(N, 0);
        auto add = [&](std::string n, unsigned vr, fmi2_base_type_enu_t t) { vars.push_back({n, vr, t}); };
        for (int i = 0; i < N; i++) add("x" + std::to_string(i), i, fmi2_base_type_real);
        for (int i = 0; i < N; i++) add("der(x" + std::to_string(i) + ")", N + i, fmi2_base_type_real);
        add("u", 100, fmi2_base_type_real);
        add("y", 101, fmi2_base_type_real);
        // the same number may stand for variables of different types
        add("count", 7, fmi2_base_type_int);
        add("knob", 100, fmi2_base_type_int);
        add("flag", 100, fmi2_base_type_bool);
        add("label", 3, fmi2_base_type_str);
        r.shuffle(vars);
    }
    int offset(int b) const { int o = 0; for (int i = 0; i < b; i++) o += p.B[i].dim(); return o; }
    std::vector<double> flow(double t) const {
        std::vector<double> v(N);
        int o = 0;
        for (auto &b : p.B) { b.flow(&P[o], t0, t - t0, &v[o]); o += b.dim(); }
        return v;
    }
    void der(double const* q, double t, double* d) const { for (auto &b : p.B) { b.der(q, t, d); q += b.dim(); d += b.dim(); } }
    void jac(std::vector<double> &J) const {  // column major
        J.assign(N * N, 0);
        int o = 0;
        for (auto &b : p.B) {
            if (b.k == Blk::EXPO) J[o * N + o] = b.a;
            if (b.k == Blk::ROT) { J[(o + 1) * N + o] = b.a; J[o * N + o + 1] = -b.a; }
            o += b.dim();
        }
    }
    double val(Zf const &f, double const* q, double t) const { return f.block < 0 ? t : q[f.var]; }
    double zval(Zf const &f, double const* q, double t) const {
        double v = f.s * (val(f, q, t) - f.level);
        switch (f.shape) {
            case 0: return v;
            case 1: return std::atan(v);
            case 2: return v < 0 ? -1 : v > 0 ? 1 : 0;
            default: return v < 0 ? -0.25 : 3;
        }
    }
    std::string where() const {
        static char const* const names[] = {"loaded", "dll", "instantiated", "initialization", "event", "continuous", "terminated", "freed", "unloaded"};
        std::ostringstream o;
        o.precision(17);
        o << p.desc << ": " << names[mode] << " mode at " << time << " (last completed " << done << ", simulation " << now << ") states";
        for (double v : x) o << " " << v;
        o << " event at " << t0 << " next " << T << " crossings";
        for (double v : tz) o << " " << v;
        o << " history" << (log.size() > 300 ? log.substr(log.size() - 300) : log);
        return o.str();
    }
    void bad(char const* key, std::string const &text) {
        if (terminating || mode >= TERMINATED) { if (g_deferred.empty()) g_deferred = std::string(key) + "\t" + text + ": " + where(); return; }
        FAIL(key, text << ": " << where());
    }
    void allow(char const* fn, std::initializer_list<Mode> ms) {
        for (Mode m : ms) if (m == mode) { cx.cnt("calls_checked"); return; }
        bad("call-not-allowed", std::string(fn) + " not allowed in this mode");
    }
    double eps() const { return 1e-9 * (1 + std::fabs(time)); }
    double speed(Zf const &f, double c) const {
        if (f.block < 0) return 1;
        Blk const &b = p.B[f.block];
        if (b.k == Blk::RAMP) return std::fabs(b.a);
        std::vector<double> v = flow(c);
        return std::fabs(b.a * (v[f.var] - b.b));
    }
    double late(int i) const {
        if (std::isinf(tz[i])) return 0;
        double v = speed(z[i], tz[i]);
        return p.loc_dt + (p.loc_z > 0 ? 1.5 * p.loc_z / (std::fabs(z[i].s) * v) : 0) + early(i);
    }
    double early(int i) const {
        if (std::isinf(tz[i])) return 0;
        return 1e-9 * (1 + tz[i]) + (z[i].block < 0 ? 0 : 2 * p.dstate / speed(z[i], tz[i])) + (p.loc_z > 0 ? 1.5 * p.loc_z / (std::fabs(z[i].s) * speed(z[i], tz[i])) : 0);
    }
    double crossing(Zf const &f) const {  // from the state P at t0
        double v = f.block < 0 ? t0 : P[f.var], L = f.level;
        if (f.block < 0) return L > v ? L : INFINITY;
        Blk const &b = p.B[f.block];
        if (b.k == Blk::RAMP) { double d = b.a != 0 ? (L - v) / b.a : -1; return d > 0 ? t0 + d : INFINITY; }
        double u = (L - b.b) / (v - b.b);
        if (u > 0 && u < 1) return t0 + std::log(u) / b.a;
        return INFINITY;
    }
    // the component's states follow its equations, and nothing that was due has been passed over
    void on_course(char const* what) {
        std::vector<double> f = flow(time);
        for (int i = 0; i < N; i++)
            if (!(std::fabs(x[i] - f[i]) <= p.dstate)) bad("wrong-state", (std::string)(StrB() << what << ": state " << i << " is " << x[i] << ", the solution is " << f[i]));
        if (!(std::fabs(time - now) <= 1e-9 * (1 + now))) bad("wrong-time", std::string(what) + ": not the time of the simulation");
        if (!(time <= T + eps())) bad("time-event-missed", what);
        for (size_t i = 0; i < z.size(); i++) if (!(time <= tz[i] + late((int)i))) bad("state-event-missed", (std::string)(StrB() << what << ": indicator " << i));
        cx.cnt("states_checked");
    }
    bool crossing_now(int i) const { return !std::isinf(tz[i]) && time >= tz[i] - early(i) && time <= tz[i] + late(i); }
    void predict() {
        P = x;
        t0 = time;
        tz.clear();
        for (auto &f : z) tz.push_back(crossing(f));
    }
    void levels(bool all) {
        for (size_t i = 0; i < z.size(); i++) {
            Zf &f = z[i];
            double v = val(f, x.data(), time);
            if (f.block >= 0) f.var = offset(f.block);
            bool close = std::fabs(v - f.level) < 0.02;
            if (f.block >= 0 && p.B[f.block].k == Blk::EXPO && std::fabs(f.level - p.B[f.block].b) < 0.1) close = true;
            if (!all && !close && !r.pct(40)) continue;
            if (f.block < 0) f.level = time + r.real(0.02, 4) * (r.pct(30) ? p.hmax : 1);
            else if (p.B[f.block].k == Blk::RAMP) f.level = v + (r.pct(80) ? 1 : -1) * (p.B[f.block].a < 0 ? -1 : 1) * r.real(0.03, 2);
            else f.level = v + (p.B[f.block].b - v) * (r.pct(85) ? r.real(0.1, 0.7) : r.real(1.1, 2));
            if (f.block < 0 && f.level < time + 0.02) f.level = time + 0.02;
            if (i > 0 && f.block == z[i - 1].block && r.pct(30)) f.level = z[i - 1].level;
        }
    }
    void next_T() {
        int c = (int)r.below(8);
        if (c == 0) T = INFINITY;
        else if (c == 1 && chain < 2) { T = time; chain++; }
        else { T = c == 2 ? time + p.hmax : time + p.hmax * std::pow(10.0, r.real(-2, 1.3)); chain = 0; }
    }
    void initial() {
        int o = 0;
        for (auto &b : p.B) {
            if (b.k == Blk::EXPO) x[o] = b.b + (r.pct(50) ? 1 : -1) * r.real(0.5, 1.5);
            else { x[o] = r.real(-1, 1); if (b.k == Blk::ROT) x[o + 1] = r.real(-1, 1); }
            o += b.dim();
        }
        if (ublock >= 0) pend_u = p.B[ublock].a;
        for (int i = 0; i < p.M; i++) {
            std::vector<int> c = {-1};
            for (size_t k = 0; k < p.B.size(); k++) if (p.B[k].k <= Blk::EXPO) c.push_back((int)k);
            int b = r.pick(c);
            z.push_back({b, b < 0 ? 0 : offset(b), 0, (r.pct(50) ? 1 : -1) * r.real(0.3, 2), (int)r.below(p.rough ? 4 : 2)});
        }
        levels(true);
        next_T();
        predict();
    }
    // one event: what is due happens and new events are planned
    void happen() {
        if (dirty && ublock >= 0) p.B[ublock].a = pend_u;
        bool ev = due_T;
        for (bool d : due_z) ev |= d;
        if (ev || request || r.pct(30)) {
            int o = 0;
            for (auto &b : p.B) {
                if (b.k == Blk::EXPO && (r.pct(30) || std::fabs(x[o] - b.b) < 0.3)) b.b = x[o] + (r.pct(50) ? 1 : -1) * r.real(0.5, 2);
                if ((b.k == Blk::RAMP || b.k == Blk::FORCED) && r.pct(15)) { x[o] = r.real(-1, 1); moved = true; }
                if (b.k == Blk::ROT && r.pct(15)) { x[o] = r.real(-1, 1); x[o + 1] = r.real(-1, 1); moved = true; }
                o += b.dim();
            }
        }
        levels(false);
        if (due_T || r.pct(20)) next_T();
        if (r.pct(50)) flag = !flag;
        count++;
        batches++;
        if (due_T) cx.cnt("time_events");
        for (bool d : due_z) if (d) cx.cnt("state_events");
        if (request) cx.cnt("requested_events");
        dirty = request = false;
        predict();
    }
};

// the library
#define IN(...) f->allow(__func__, {__VA_ARGS__})
#define M_(m) fmi2_import_t::m
extern "C" {
void jm_default_logger(jm_callbacks*, jm_string, jm_log_level_enu_t, jm_string) {}
char* fmi_import_mk_temp_dir(jm_callbacks* cb, const char* dir, const char*) {
    g_dirs++;
    g_dir = std::string(dir) + "/fmi" + std::to_string(g_dirs);
    char* s = (char*)(cb ? cb->malloc(g_dir.size() + 1) : malloc(g_dir.size() + 1));
    strcpy(s, g_dir.c_str());
    return s;
}
jm_status_enu_t fmi_import_rmdir(jm_callbacks*, const char* dir) {
    CHECK(g_dir == dir, "wrong-directory", "removes " << dir << ", made " << g_dir);
    CHECK(!g_dir.empty(), "directory-removed-twice", dir);
    g_dir.clear();
    return jm_status_success;
}
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks* cb) {
    g_contexts++;
    auto c = (fmi_import_context_t*)cb->calloc(1, sizeof(fmi_import_context_t));
    c->cb = cb;
    return c;
}
void fmi_import_free_context(fmi_import_context_t* c) { g_contexts--; c->cb->free(c); }
fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t*, const char* file, const char* dir) {
    CHECK(std::string(file) == "component.fmu" && g_dir == dir, "wrong-file", file << " " << dir);
    return g_plan->fail == 1 ? fmi_version_1_enu : fmi_version_2_0_enu;
}
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t* c, const char* dir, fmi2_xml_callbacks_t*) {
    CHECK(g_dir == dir, "wrong-directory", dir);
    if (g_plan->fail == 2) return nullptr;
    g_instances++;
    g_last = new fmi2_import_t(*g_plan);
    g_last->cb = c->cb;
    g_last->scratch = c->cb->realloc(c->cb->malloc(8), 64);
    if (c->cb->log_level >= jm_log_level_warning) c->cb->logger(c->cb, "component", jm_log_level_warning, "parsed");
    return g_last;
}
void fmi2_import_free(fmi2_import_t* f) {
    if (f->mode != M_(UNLOADED) && f->mode != M_(LOADED)) { f->terminating = true; f->bad("call-not-allowed", "freed while in use"); }
    f->cx.cnt("components_freed");
    g_instances--;
    f->cb->free(f->scratch);
    delete f;
}
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t* f) { return f->p.fail == 3 ? fmi2_fmu_kind_cs : f->r.pct(30) ? fmi2_fmu_kind_me_and_cs : fmi2_fmu_kind_me; }
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* f, fmi2_fmu_kind_enu_t k, const fmi2_callback_functions_t*) {
    IN(M_(LOADED));
    CHECK(k == fmi2_fmu_kind_me, "wrong-kind", k);
    f->mode = M_(DLL);
    return jm_status_success;
}
void fmi2_import_destroy_dllfmu(fmi2_import_t* f) {
    f->terminating = true;
    IN(M_(FREED), M_(DLL));
    f->mode = M_(UNLOADED);
}
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* f, fmi2_string_t, fmi2_type_t t, fmi2_string_t, fmi2_boolean_t) {
    IN(M_(DLL));
    CHECK(t == fmi2_model_exchange, "wrong-kind", t);
    f->mode = M_(INSTANTIATED);
    return jm_status_success;
}
void fmi2_import_free_instance(fmi2_import_t* f) {
    f->terminating = true;
    IN(M_(INSTANTIATED), M_(TERMINATED));
    f->mode = M_(FREED);
}
size_t fmi2_import_get_number_of_continuous_states(fmi2_import_t* f) { return f->N; }
size_t fmi2_import_get_number_of_event_indicators(fmi2_import_t* f) { return f->p.M; }
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t* f, int) { return new fmi2_import_variable_list_t{&f->vars}; }
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t* l) { return l->v->size(); }
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t* l, size_t i) { return &l->v->at(i); }
void fmi2_import_free_variable_list(fmi2_import_variable_list_t* l) { delete l; }
const char* fmi2_import_get_variable_name(fmi2_import_variable_t* v) { return v->name.c_str(); }
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t* v) { return v->vr; }
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t* v) { return v->type; }
fmi2_status_t fmi2_import_set_debug_logging(fmi2_import_t* f, fmi2_boolean_t, size_t, fmi2_string_t*) {
    IN(M_(INSTANTIATED), M_(INIT), M_(EVENT), M_(CONT), M_(TERMINATED));
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t* f, fmi2_boolean_t td, fmi2_real_t tol, fmi2_real_t start, fmi2_boolean_t, fmi2_real_t) {
    IN(M_(INSTANTIATED));
    CHECK(td && tol == f->p.tol && start == 0.0, "wrong-experiment", "tolerance " << tol << " given " << f->p.tol << " start " << start);
    CHECK(!f->set_up, "experiment-set-up-twice", "");
    f->set_up = true;
    return fmi2_status_ok;
}
unsigned int fmi2_import_get_capability(fmi2_import_t* f, fmi2_capabilities_enu_t id) { return id == fmi2_me_providesDirectionalDerivatives && f->p.directional; }
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t* f) {
    IN(M_(INSTANTIATED));
    CHECK(f->set_up, "experiment-not-set-up", "");
    f->mode = M_(INIT);
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* f) {
    IN(M_(INIT));
    f->mode = M_(EVENT);
    f->needed = f->entered = true;
    f->initial();
    // nothing is due before the first iteration
    f->due_z.assign(f->z.size(), false);
    f->iter = (int)f->r.below(3);
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_enter_event_mode(fmi2_import_t* f) {
    IN(M_(CONT));
    f->mode = M_(EVENT);
    f->entered = true;
    f->needed = true;
    f->on_course("enter event mode");
    f->done = f->time;
    f->due_T = f->time >= f->T - f->eps();
    f->due_z.clear();
    for (size_t i = 0; i < f->z.size(); i++) f->due_z.push_back(f->crossing_now((int)i));
    f->iter = f->r.pct(50) ? 0 : (int)f->r.below(4);
    f->log += " e" + std::to_string(f->time);
    f->cx.cnt("event_modes");
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_new_discrete_states(fmi2_import_t* f, fmi2_event_info_t* e) {
    IN(M_(EVENT));
    f->cx.cnt("event_iterations");
    e->terminateSimulation = e->nominalsOfContinuousStatesChanged = e->valuesOfContinuousStatesChanged = 0;
    if (f->iter > 0) {
        f->iter--;
        f->needed = true;
        // not in a consistent state yet
        e->newDiscreteStatesNeeded = 1;
        e->nextEventTimeDefined = f->r.pct(50);
        if (e->nextEventTimeDefined) e->nextEventTime = f->time + f->r.real(0, 3);
        f->cx.cnt("event_iterations_repeated");
        return fmi2_status_ok;
    }
    f->moved = false;
    if (f->needed || f->dirty) {
        if (f->needed && f->batches > 0 && !f->dirty && f->r.pct(20) && !f->due_T && !f->request && std::none_of(f->due_z.begin(), f->due_z.end(), [](bool b) { return b; })) f->cx.cnt("event_modes_without_event");
        else f->happen();
    }
    f->due_T = false;
    std::fill(f->due_z.begin(), f->due_z.end(), false);
    f->needed = false;
    f->iter = f->r.pct(70) ? 0 : (int)f->r.below(3);  // for a further call
    e->newDiscreteStatesNeeded = 0;
    e->valuesOfContinuousStatesChanged = f->moved;
    e->nextEventTimeDefined = !std::isinf(f->T);
    if (e->nextEventTimeDefined) e->nextEventTime = f->T;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_enter_continuous_time_mode(fmi2_import_t* f) {
    IN(M_(EVENT));
    if (f->needed) f->bad("event-iteration-incomplete", "continues while new discrete states are needed");
    if (f->dirty) f->bad("event-iteration-incomplete", "continues after variables were set, without an iteration");
    f->mode = M_(CONT);
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_completed_integrator_step(fmi2_import_t* f, fmi2_boolean_t, fmi2_boolean_t* ev, fmi2_boolean_t* term) {
    IN(M_(CONT));
    if (f->request) f->bad("event-mode-request-ignored", "completes another step");
    if (f->time < f->done) f->bad("time-backwards", "completes a step that ends before the last one");
    f->on_course("completed step");
    f->done = f->time;
    f->completed++;
    *term = 0;
    *ev = f->r.pct(f->p.requests);
    if (*ev) { f->request = true; f->log += " r" + std::to_string(f->time); }
    f->cx.cnt("steps_completed");
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_time(fmi2_import_t* f, fmi2_real_t t) {
    IN(M_(EVENT), M_(CONT));
    if (!(t >= f->done - 1e-12 * (1 + std::fabs(t)))) f->bad("time-backwards", (std::string)(StrB() << "set_time " << t));
    if (f->mode == M_(EVENT) && t != f->time) f->bad("time-changed-in-event-mode", (std::string)(StrB() << "set_time " << t));
    f->time = t;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_continuous_states(fmi2_import_t* f, const fmi2_real_t x[], size_t n) {
    IN(M_(CONT));
    CHECK((int)n == f->N, "wrong-size", n << " " << f->N);
    for (int i = 0; i < f->N; i++) { if (!std::isfinite(x[i])) f->bad("wrong-state", "set_continuous_states"); f->x[i] = x[i]; }
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_continuous_states(fmi2_import_t* f, fmi2_real_t x[], size_t n) {
    IN(M_(INIT), M_(EVENT), M_(CONT), M_(TERMINATED));
    CHECK((int)n == f->N, "wrong-size", n << " " << f->N);
    // until the iteration is over the states mean nothing
    for (int i = 0; i < f->N; i++) x[i] = f->mode == M_(EVENT) && f->needed ? 1e300 : f->x[i];
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_derivatives(fmi2_import_t* f, fmi2_real_t d[], size_t n) {
    IN(M_(INIT), M_(EVENT), M_(CONT), M_(TERMINATED));
    CHECK((int)n == f->N, "wrong-size", n << " " << f->N);
    f->der(f->x.data(), f->time, d);
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_event_indicators(fmi2_import_t* f, fmi2_real_t z[], size_t n) {
    IN(M_(INIT), M_(EVENT), M_(CONT), M_(TERMINATED));
    CHECK(n == f->z.size(), "wrong-size", n << " " << f->z.size());
    for (size_t i = 0; i < n; i++) z[i] = f->zval(f->z[i], f->x.data(), f->time);
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_directional_derivative(fmi2_import_t* f, const fmi2_value_reference_t v[], size_t nv, const fmi2_value_reference_t z[], size_t nz, const fmi2_real_t dv[], fmi2_real_t dz[]) {
    IN(M_(INIT), M_(EVENT), M_(CONT), M_(TERMINATED));
    CHECK(f->p.directional, "call-not-allowed", "directional derivatives are not provided");
    std::vector<double> J;
    f->jac(J);
    for (size_t k = 0; k < nz; k++) {
        CHECK((int)z[k] >= f->N && (int)z[k] < 2 * f->N, "wrong-reference", "derivative " << z[k] << " of " << f->N);
        double s = 0;
        for (size_t i = 0; i < nv; i++) {
            CHECK((int)v[i] < f->N, "wrong-reference", "state " << v[i] << " of " << f->N);
            s += J[v[i] * f->N + (z[k] - f->N)] * dv[i];
        }
        dz[k] = s;
    }
    return fmi2_status_ok;
}
#define ANYMODE IN(M_(INSTANTIATED), M_(INIT), M_(EVENT), M_(CONT), M_(TERMINATED))
fmi2_status_t fmi2_import_get_real(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, fmi2_real_t v[]) {
    ANYMODE;
    CHECK(n == 1, "wrong-size", n);
    std::vector<double> d(f->N);
    f->der(f->x.data(), f->time, d.data());
    if ((int)vr[0] < f->N) v[0] = f->x[vr[0]];
    else if ((int)vr[0] < 2 * f->N) v[0] = d[vr[0] - f->N];
    else if (vr[0] == 100) v[0] = f->pend_u;
    else if (vr[0] == 101) v[0] = f->time * 3 + (f->N ? f->x[0] : 0);
    else FAIL("wrong-reference", "real " << vr[0]);
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_real(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, const fmi2_real_t v[]) {
    IN(M_(INSTANTIATED), M_(INIT), M_(EVENT));
    CHECK(n == 1 && vr[0] == 100, "wrong-reference", "set real " << vr[0]);
    f->pend_u = v[0];
    f->dirty = true;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_integer(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, fmi2_integer_t v[]) {
    ANYMODE;
    CHECK(n == 1 && (vr[0] == 7 || vr[0] == 100), "wrong-reference", "integer " << vr[0]);
    v[0] = vr[0] == 7 ? f->count : f->knob;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_integer(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, const fmi2_integer_t v[]) {
    IN(M_(INSTANTIATED), M_(INIT), M_(EVENT));
    CHECK(n == 1 && vr[0] == 100, "wrong-reference", "set integer " << vr[0]);
    f->knob = v[0];
    f->dirty = true;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_boolean(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, fmi2_boolean_t v[]) {
    ANYMODE;
    CHECK(n == 1 && vr[0] == 100, "wrong-reference", "boolean " << vr[0]);
    v[0] = f->flag;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_boolean(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, const fmi2_boolean_t v[]) {
    IN(M_(INSTANTIATED), M_(INIT), M_(EVENT));
    CHECK(n == 1 && vr[0] == 100, "wrong-reference", "set boolean " << vr[0]);
    f->flag = v[0];
    f->dirty = true;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_terminate(fmi2_import_t* f) {
    f->terminating = true;
    IN(M_(EVENT), M_(CONT));
    f->mode = M_(TERMINATED);
    f->cx.cnt("terminated");
    return fmi2_status_ok;
}
}

// a user's model: reads and writes variables as the documentation tells

struct Mon : public ME {
    fmi2_import_t* f;
    Ctx &cx;
    Rng r;
    adevs::pin_t in, out;
    double bag_n = 0;
    bool used = false;
    long outs = 0;
    Mon(Plan* p, u64 seed) : ME((g_plan = p, "component.fmu"), p->tol), f(nullptr), cx(*p->cx), r(seed) {}
    void read(char const* what, double const* q) {
        int N = f->N;
        std::vector<double> d(N);
        f->der(q, q[N], d.data());
        for (int i = 0; i < N; i++) {
            double v = std::any_cast<double>(get_variable("x" + std::to_string(i)));
            if (v != q[i]) f->bad("wrong-variable", (std::string)(StrB() << what << ": x" << i << " reads " << v << ", the state is " << q[i]));
            v = std::any_cast<double>(get_variable("der(x" + std::to_string(i) + ")"));
            if (v != d[i]) f->bad("wrong-variable", (std::string)(StrB() << what << ": der(x" << i << ") reads " << v << ", should be " << d[i]));
        }
        if (std::any_cast<int>(get_variable("count")) != f->count || std::any_cast<int>(get_variable("knob")) != f->knob || std::any_cast<int>(get_variable("flag")) != f->flag)
            f->bad("wrong-variable", what);
        double y = std::any_cast<double>(get_variable("y")), w = q[N] * 3 + (N ? q[0] : 0);
        if (y != w || std::any_cast<double>(get_variable("u")) != f->pend_u) f->bad("wrong-variable", (std::string)(StrB() << what << ": y reads " << y << ", should be " << w));
        cx.cnt("variables_read", 2 * N + 5);
    }
    void write() {
        int n = 1 + (int)r.below(2);
        for (int i = 0; i < n; i++) {
            switch (r.below(3)) {
                case 0: { double v = (r.pct(50) ? 1 : -1) * r.real(0.2, 2); set_variable("u", v); if (f->pend_u != v) f->bad("wrong-variable", "set u"); break; }
                case 1: { int v = (int)r.in(-9, 9); set_variable("knob", v); if (f->knob != v) f->bad("wrong-variable", "set knob"); break; }
                default: { fmi2_boolean_t v = (int)r.below(2); set_variable("flag", v); if (f->flag != v) f->bad("wrong-variable", "set flag"); break; }
            }
            cx.cnt("variables_set");
        }
    }
    void cause(char const* what, bool const* ev) {
        int M = numEvents();
        if (ev[M] && !(std::fabs(f->time - f->T) <= f->eps()) && !f->request) f->bad("event-without-cause", std::string(what) + ": time event");
        for (int i = 0; i < M; i++) if (ev[i] && !f->crossing_now(i)) f->bad("event-without-cause", (std::string)(StrB() << what << ": indicator " << i));
    }
    void step(char const* what, double* q, std::function<void()> base) {
        int N = f->N;
        if (f->mode != M_(CONT)) f->bad("wrong-mode", what);
        // before the event the component is where the simulation is
        if (f->time != q[N]) f->bad("wrong-time", (std::string)(StrB() << what << ": simulation has " << q[N]));
        for (int i = 0; i < N; i++) if (f->x[i] != q[i]) f->bad("wrong-state", (std::string)(StrB() << what << ": state " << i << " of the simulation is " << q[i]));
        long b = f->batches;
        base();
        (void)b;
        if (f->mode != M_(EVENT)) f->bad("wrong-mode", std::string(what) + ": event mode not entered");
        if (f->needed) f->bad("event-iteration-incomplete", what);
        read(what, q);
        int more = r.pct(50) ? 1 + (int)r.below(2) : 0;
        for (int i = 0; i < more; i++) {
            write();
            base();
            if (f->dirty || f->needed) f->bad("event-iteration-incomplete", what);
            read(what, q);
            cx.cnt("events_with_variables_set");
        }
        for (int i = 0; i < N; i++) if (f->x[i] != q[i]) f->bad("wrong-state", (std::string)(StrB() << what << ": state " << i << " is " << q[i] << " after the event"));
        if (q[N] != f->time) f->bad("wrong-time", (std::string)(StrB() << what << ": clock " << q[N] << " after the event"));
        if (!(std::fabs(get_time() - f->now) <= f->eps())) f->bad("wrong-time", (std::string)(StrB() << what << ": get_time gives " << get_time()));
        // the component can be asked for its Jacobian before anything else
        if (!f->dirty && !f->needed && r.pct(12)) { check_jac(q); cx.cnt("jacobians_after_events"); }
    }
    void der_func(double const* q, double* dq) override {
        ME::der_func(q, dq);
        std::vector<double> d(f->N);
        f->der(q, q[f->N], d.data());
        for (int i = 0; i < f->N; i++) if (dq[i] != d[i]) f->bad("wrong-derivative", (std::string)(StrB() << "state " << i << " " << dq[i] << ", should be " << d[i]));
        if (dq[f->N] != 1.0) f->bad("wrong-derivative", (std::string)(StrB() << "clock " << dq[f->N]));
        cx.cnt("derivatives_checked");
    }
    void state_event_func(double const* q, double* v) override {
        ME::state_event_func(q, v);
        for (size_t i = 0; i < f->z.size(); i++) {
            double w = f->zval(f->z[i], q, q[f->N]);
            if (v[i] != w) f->bad("wrong-indicator", (std::string)(StrB() << "indicator " << i << " " << v[i] << ", should be " << w));
        }
        cx.cnt("indicators_checked", (i64)f->z.size());
    }
    double time_event_func(double const* q) override {
        double t = ME::time_event_func(q);
        double T = f->request ? f->done : f->T;
        if (!(t >= 0)) f->bad("negative-time-to-event", (std::string)(StrB() << t << " at clock " << q[f->N]));
        if (std::isinf(T) ? t < adevs_inf<double>() : !(std::fabs(t - std::max(0.0, T - q[f->N])) <= f->eps())) f->bad("wrong-time-event", (std::string)(StrB() << t << " to the next event, should be " << T - q[f->N]));
        cx.cnt("time_events_checked");
        return t;
    }
    void postStep(double* q) override {
        ME::postStep(q);
        if (!(std::fabs(get_time() - f->now) <= 1e-9 * (1 + f->now))) f->bad("wrong-time", (std::string)(StrB() << "postStep: get_time gives " << get_time()));
        if (f->done != f->time || f->mode != M_(CONT)) f->bad("step-not-completed", (std::string)(StrB() << "clock " << q[f->N]));
        if (r.pct(30)) read("postStep", q);
    }
    void check_jac(double const* q) {
        int N = f->N, D = N + 1;
        std::vector<double> J(D * D, 7.0), A;
        bool ok = get_jacobian(q, J.data());
        CHECK(ok == f->p.directional, "wrong-jacobian", "availability");
        if (!ok) return;
        f->jac(A);
        for (int c = 0; c < D; c++)
            for (int w = 0; w < D; w++) {
                double e = c < N && w < N ? A[c * N + w] : 0;
                if (J[c * D + w] != e) f->bad("wrong-jacobian", (std::string)(StrB() << "row " << w << " column " << c << " of " << D << " is " << J[c * D + w] << ", should be " << e));
            }
        cx.cnt("jacobians_checked");
    }
    void internal_event(double* q, bool const* ev) override {
        cause("internal_event", ev);
        if (!used && bag_n > 0) f->bad("input-lost", "internal_event");
        step("internal_event", q, [&] { ME::internal_event(q, ev); });
        cx.cnt("internal_events");
    }
    void external_event(double* q, double e, Bag const &xb) override {
        used = true;
        step("external_event", q, [&] { ME::external_event(q, e, xb); });
        cx.cnt("external_events");
    }
    void confluent_event(double* q, bool const* ev, Bag const &xb) override {
        used = true;
        cause("confluent_event", ev);
        step("confluent_event", q, [&] { ME::confluent_event(q, ev, xb); });
        cx.cnt("confluent_events");
    }
    void output_func(double const* q, bool const* ev, Bag &yb) override {
        cause("output_func", ev);
        read("output_func", q);
        ME::output_func(q, ev, yb);
        if (++outs % 3) yb.push_back(PV(out, std::any_cast<double>(get_variable("y"))));
        cx.cnt("outputs");
    }
};
struct Obs : public adevs::EventListener<double> {
    std::set<void*> changed;
    void outputEvent(adevs::Atomic<double> &, PV &, double) override {}
    void inputEvent(adevs::Atomic<double> &, PV &, double) override {}
    void stateChange(adevs::Atomic<double> &m, double) override { changed.insert(&m); }
};

#ifdef __SANITIZE_ADDRESS__
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t in_use() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t in_use() { return 0; }
#endif
static void balance(char const* what) {
    CHECK(g_contexts == 0, "context-leaked", what);
    CHECK(g_dir.empty(), "directory-left", what << ": " << g_dir);
    CHECK(g_instances == 0, "component-leaked", what << ": " << g_instances);
    if (!g_deferred.empty()) { std::string d = g_deferred; g_deferred.clear(); size_t p = d.find('\t'); FAIL(d.substr(0, p), what << ": " << d.substr(p + 1)); }
}

static void simulate(Ctx &cx, Rng &r) {
    int const K = r.pct(30) ? 2 : 1;
    double hmax = std::pow(10.0, r.real(-2, -0.3));
    std::vector<std::shared_ptr<Hybrid>> hs;
    std::vector<Mon*> ms;
    auto g = std::make_shared<adevs::Graph<double>>();
    for (int k = 0; k < K; k++) {
        Plan p;
        p.cx = &cx;
        p.seed = r.next();
        p.tol = std::pow(10.0, r.real(-9, -3));
        p.directional = r.pct(60);
        int lk = (int)r.below(6), sk = (int)r.below(3);
        p.M = lk == NONE ? 0 : r.pct(6) ? 4 + (int)r.below(60) : (int)r.below(4);
        p.rough = lk == DISC || lk == FAST || lk == SPLINE;
        p.requests = r.pct(50) ? 0 : 1 + (int)r.below(12);
        int nb = r.pct(5) ? 4 + (int)r.below(20) : (int)r.below(4);
        cx.max("functions", p.M);
        cx.max("blocks", nb);
        for (int i = 0; i < nb; i++) switch (r.below(5)) {
            case 0: p.B.push_back({Blk::EXPO, -r.real(0.4, 1.2), r.real(-2, 2), 0}); break;
            case 1: p.B.push_back({Blk::ROT, r.real(0.3, 1), 0, 0}); break;
            case 2: p.B.push_back({Blk::FORCED, r.real(-1, 1), r.real(-0.5, 0.5), r.real(0.3, 1)}); break;
            default: p.B.push_back({Blk::RAMP, (r.pct(50) ? 1 : -1) * r.real(0.2, 2), 0, 0}); break;
        }
        if (sk == 2) hmax = std::min(hmax, 0.03);
        p.hmax = hmax;
        double err_tol = std::pow(10.0, r.pct(50) ? r.real(-3.5, -2) : r.real(-7, -2.5));
        if (err_tol > hmax / 10) err_tol = hmax / 10;
        p.dstate = sk == 1 ? 1e-6 : 1e-3;
        if (lk == SPLINE) p.dstate += 1.5e-2 * std::pow(hmax, 4) + 1e-9;
        if (lk == BIS || lk == LIN) p.loc_z = err_tol;
        else p.loc_dt = err_tol;
        std::ostringstream o;
        o.precision(17);
        o << "component " << k << " (" << sols[sk] << ", " << locs[lk] << " " << err_tol << ", h_max " << hmax << ", blocks " << nb << ", indicators " << p.M << (p.directional ? ", jacobian)" : ")");
        p.desc = o.str();
        cx.sample(p.desc);
        Mon* m = new Mon(&p, r.next());
        m->f = g_last;
        adevs::ode_solver<double>* so = nullptr;
        switch (sk) {
            case 0: so = new adevs::corrected_euler<double>(m, 1e-6, hmax); break;
            case 1: so = new adevs::rk_45<double>(m, 1e-9, hmax); break;
            default: so = new adevs::trap<double>(m, 1e-6, hmax, r.pct(50)); break;
        }
        adevs::event_locator<double>* lo = nullptr;
        switch (lk) {
            case BIS: lo = new adevs::bisection_event_locator<double>(m, err_tol); break;
            case LIN: lo = new adevs::linear_event_locator<double>(m, err_tol); break;
            case DISC: lo = new adevs::discontinuous_event_locator<double>(m, err_tol); break;
            case NONE: lo = new adevs::null_event_locator<double>(); break;
            default: lo = new adevs::fast_event_locator<double>(m, err_tol, lk == SPLINE); break;
        }
        hs.push_back(std::make_shared<Hybrid>(m, so, lo));
        ms.push_back(m);
        g->add_atomic(hs.back());
        g->connect(m->in, hs.back());
        if (k > 0) g->connect(ms[k - 1]->out, hs[k]);
        CHECK(m->numVars() == m->f->N + 1 && m->numEvents() == p.M, "wrong-size", m->numVars() << " " << m->numEvents());
        CHECK(m->get_time() == 0, "wrong-time", "initial " << m->get_time());
    }
    {
        adevs::Simulator<double> sim(g);
        auto obs = std::make_shared<Obs>();
        sim.addEventListener(obs);
        double last = 0, tend = std::min(hmax * r.real(5, 80), r.real(1, 8)), rate = r.pct(20) ? 0 : r.real(0.05, 0.6);
        int inputs = (int)r.below(40), repeat = 0;
        long cycles = 0;
        u64 hist = 0;
        while (true) {
            for (size_t k = 0; k < ms.size(); k++) {
                fmi2_import_t* f = ms[k]->f;
                double const* q = hs[k]->getState();
                if (f->mode != M_(CONT)) f->bad("wrong-mode", "between events of the simulation");
                if (f->time != q[f->N]) f->bad("wrong-time", (std::string)(StrB() << "after the cycle at " << last << " the simulation has " << q[f->N]));
                for (int i = 0; i < f->N; i++) if (f->x[i] != q[i]) f->bad("wrong-state", (std::string)(StrB() << "after the cycle at " << last << " state " << i << " of the simulation is " << q[i]));
                if (!(std::fabs(ms[k]->get_time() - q[f->N]) <= 1e-9 * (1 + last))) f->bad("wrong-time", (std::string)(StrB() << "get_time gives " << ms[k]->get_time()));
                if ((cycles == 0 || obs->changed.count(hs[k].get())) && !(std::fabs(q[f->N] - last) <= 1e-9 * (1 + last))) f->bad("wrong-time", (std::string)(StrB() << "clock " << q[f->N] << " after the cycle at " << last));
                if (r.pct(10)) { ms[k]->read("between", q); }
                if (r.pct(10)) {
                    ms[k]->check_jac(q);
                    ms[k]->postTrialStep(const_cast<double*>(q));
                }
            }
            double tn = sim.nextEventTime();
            CHECK(tn >= last, "time-backwards", tn << " " << last);
            if (tn > tend || std::isinf(tn)) break;
            double t = tn;
            bool inject = false;
            if (inputs > 0 && r.unit() < rate) {
                inject = true;
                inputs--;
                fmi2_import_t* f = r.pick(ms)->f;
                double c = f->T;
                for (double v : f->tz) c = std::min(c, v);
                switch (r.below(5)) {
                    case 0: t = tn; break;
                    case 1: t = last; break;
                    case 2: t = c > last && c < tn ? c + (tn - c) * r.unit() : tn - (tn - last) * std::pow(10.0, r.real(-9, 0)); break;
                    case 3: t = last + (tn - last) * std::pow(10.0, r.real(-9, 0)); break;
                    default: t = last + (tn - last) * r.unit(); break;
                }
                if (r.pct(8)) {   // some representable numbers away from the step's end or start
                    bool up = r.pct(40);
                    t = up ? last : tn;
                    for (int k = 1 + (int)r.below(4); k > 0; k--) t = std::nextafter(t, up ? tn : last);
                    cx.cnt("inputs_ulps_from_step");
                }
                if (!(t >= last)) t = last;
                if (!(t <= tn)) t = tn;
                if (t == last) { if (++repeat > 4) t = tn; } else repeat = 0;
            }
            for (auto m : ms) { m->f->now = t; m->bag_n = 0; m->used = false; }
            std::vector<long> batch;
            if (inject) {
                sim.setNextTime(t);
                Mon* m = r.pick(ms);
                int n = 1 + (int)r.below(2);
                for (int i = 0; i < n; i++) { PV v(m->in, r.unit()); sim.injectInput(v); }
                m->bag_n = n;
                cx.cnt("inputs");
            }
            obs->changed.clear();
            sim.computeNextOutput();
            double ret = sim.computeNextState();
            CHECK(ret == t, "time-returned", ret << " for " << t);
            for (auto m : ms) {
                CHECK(m->bag_n == 0 || m->used, "input-lost", m->f->where());
                hist = hcomb(hist, std::hash<double>()(t), m->f->count);
            }
            last = t;
            CHECK(++cycles < 100000, "no-progress", ms[0]->f->where());
        }
        cx.cnt("cycles", cycles);
        cx.distinct.insert(hist);
    }
}
static void c22(Ctx &cx) {
    Rng r(cx.rngseed());
    g_contexts = g_instances = 0;
    g_dir.clear();
    g_deferred.clear();
    if (r.pct(6)) {
        // the file cannot be used
        Plan p;
        p.cx = &cx;
        p.fail = 1 + (int)r.below(3);
        p.tol = 1e-4;
        p.directional = r.pct(50);
        g_plan = &p;
        bool thrown = false;
        try { ME me("component.fmu", 1e-4); } catch (adevs::exception const &) { thrown = true; }
        CHECK(thrown, "bad-file-accepted", p.fail);
        balance("file rejected");
        cx.cnt("files_rejected");
        return;
    }
    if (r.pct(4)) {
        // loaded and closed again
        Plan p;
        p.cx = &cx;
        p.seed = r.next();
        p.tol = 1e-4;
        p.directional = r.pct(50);
        p.B.push_back({Blk::RAMP, 1, 0, 0});
        size_t bytes = 0;
        for (int i = 0; i < 4; i++) {
            { Mon m(&p, 1); m.f = g_last; }
            balance("closed without being simulated");
            // the third and fourth time nothing is new
            if (i == 2) bytes = in_use();
            if (i == 3) CHECK(in_use() == bytes, "memory-leaked", (long)(in_use() - bytes) << " bytes, " << (p.directional ? "with" : "without") << " Jacobian");
        }
        cx.cnt("closed_unused");
        return;
    }
    simulate(cx, r);
    balance("closed");
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](std::string const &p) -> CaseFn { return p == "C22" ? c22 : nullptr; });
}
