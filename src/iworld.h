// Time-type independent view of a simulated world: what the checker sees and may do.
#pragma once
#include "spec.h"
#include <memory>

enum RecType { R_OUT, R_EOUT, R_COUT, R_TRANS, R_TA };
struct Rec {
    RecType type;
    int model, kind;
    RT e;
    std::vector<PV> in, out;
    bool dirty_yb;
};
struct LRec {
    int type;           // 0 out, 1 in, 2 state
    int mid;
    PV v;
    RT t;
    size_t pos;         // number of state changes made when notified
    u64 state;          // model state when notified
};
struct OpReq { int op; int by; bool fresh; bool was_alive; };
struct Boom { int who; };

struct TypeInfo {
    char const *name;
    bool sd;
    i64 big, tmax;
};

static const i64 INEXACT = 1ll << 60;   // integer part marking a time that is not a whole number of ticks

struct IWorld {
    Spec const* sp;
    std::vector<MState*> st;            // state of the live object of each model
    std::map<void*, int> byPtr;         // live objects
    std::vector<Rec> log;
    std::vector<std::vector<LRec>> lis; // per listener
    std::vector<OpReq> ops;
    size_t ntrans = 0;
    i64 created = 0, destroyed = 0;
    explicit IWorld(Spec const &s) : sp(&s), st(s.m.size(), nullptr) {}
    virtual ~IWorld() {}
    virtual void build(Rng &r, bool shuffle) = 0;
    virtual void make_sim() = 0;
    virtual void drop_sim() = 0;
    virtual void add_listener() = 0;
    virtual RT next_time() = 0;
    virtual void set_next(RT t) = 0;
    virtual void inject(PV p) = 0;
    virtual void clear_injected() = 0;
    virtual void outputs() = 0;
    virtual RT states() = 0;
    virtual RT exec() = 0;
    virtual void request(int op, int by) = 0;
    virtual bool has_graph() = 0;
    virtual std::vector<void*> graph_set() = 0;
    virtual bool expired(int i) = 0;
};
inline int g_unit = -4;              // a tick of floating point time is 2^g_unit
inline double g_jitter = 0;         // relative perturbation of time advances (tolerance time only)
inline u64 g_jitter_state = 1;
