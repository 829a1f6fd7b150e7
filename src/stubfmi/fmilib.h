// A small stand-in for the FMI library for C17: one component per thread, whose behaviour is set by the program.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
typedef unsigned fmi2_value_reference_t; typedef double fmi2_real_t; typedef int fmi2_integer_t; typedef int fmi2_boolean_t; typedef char const* fmi2_string_t;
enum fmi2_status_t { fmi2_status_ok, fmi2_status_warning, fmi2_status_discard, fmi2_status_error, fmi2_status_fatal, fmi2_status_pending };
enum fmi2_base_type_enu_t { fmi2_base_type_real, fmi2_base_type_int, fmi2_base_type_bool, fmi2_base_type_str, fmi2_base_type_enum };
enum jm_status_enu_t { jm_status_error = -1, jm_status_success = 0, jm_status_warning = 1 };
enum jm_log_level_enu_t { jm_log_level_nothing, jm_log_level_fatal };
enum fmi_version_enu_t { fmi_version_unknown_enu, fmi_version_1_enu, fmi_version_2_0_enu, fmi_version_3_0_enu, fmi_version_unsupported_enu };
enum fmi2_fmu_kind_enu_t { fmi2_fmu_kind_unknown, fmi2_fmu_kind_me, fmi2_fmu_kind_cs, fmi2_fmu_kind_me_and_cs };
enum fmi2_type_t { fmi2_model_exchange, fmi2_cosimulation };
enum fmi2_capabilities_enu_t { fmi2_me_needsExecutionTool, fmi2_me_canBeInstantiatedOnlyOncePerProcess, fmi2_me_providesDirectionalDerivatives, fmi2_me_completedIntegratorStepNotNeeded };
struct jm_callbacks;
typedef char const* jm_string;
typedef void (*jm_logger_f)(jm_callbacks*, jm_string, jm_log_level_enu_t, jm_string);
struct jm_callbacks { void* (*malloc)(size_t); void* (*calloc)(size_t, size_t); void* (*realloc)(void*, size_t); void (*free)(void*); jm_logger_f logger; jm_log_level_enu_t log_level; void* context; char errMessageBuffer[2000]; };
struct fmi2_event_info_t { fmi2_boolean_t newDiscreteStatesNeeded, terminateSimulation, nominalsOfContinuousStatesChanged, valuesOfContinuousStatesChanged, nextEventTimeDefined; fmi2_real_t nextEventTime; };
struct fmi2_callback_functions_t; struct fmi_import_context_t; struct fmi2_import_variable_t; struct fmi2_import_variable_list_t; struct fmi2_xml_callbacks_t;
struct fmi2_import_t {
    int n = 1, m = 0;            // states, indicators
    bool directional = false;
    double t = 0;
    std::vector<double> x, u{0};
    bool event_mode = false;
    int passes = 0;              // calls of new discrete states in this event mode
    std::function<void(fmi2_import_t &, fmi2_event_info_t &)> discrete;
    std::function<void(fmi2_import_t &, double*)> der, ind, jac;   // jac: one column for the state in `col`
    unsigned col = 0;
    bool ask = false;            // ask for event mode after a step
    int terminated = 0, freed = 0;
};
inline thread_local fmi2_import_t* the_fmu = nullptr;
#define F fmi2_import_t* f
inline void jm_default_logger(jm_callbacks*, jm_string, jm_log_level_enu_t, jm_string) {}
inline char* fmi_import_mk_temp_dir(jm_callbacks*, char const*, char const*) { return strdup("none"); }
inline jm_status_enu_t fmi_import_rmdir(jm_callbacks*, char const*) { return jm_status_success; }
inline fmi_import_context_t* fmi_import_allocate_context(jm_callbacks*) { return nullptr; }
inline void fmi_import_free_context(fmi_import_context_t*) {}
inline fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t*, char const*, char const*) { return fmi_version_2_0_enu; }
inline fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t*, char const*, fmi2_xml_callbacks_t*) { return the_fmu; }
inline void fmi2_import_free(F) { f->freed++; }
inline fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(F) { return fmi2_fmu_kind_me; }
inline jm_status_enu_t fmi2_import_create_dllfmu(F, fmi2_fmu_kind_enu_t, fmi2_callback_functions_t const*) { return jm_status_success; }
inline void fmi2_import_destroy_dllfmu(F) {}
inline jm_status_enu_t fmi2_import_instantiate(F, fmi2_string_t, fmi2_type_t, fmi2_string_t, fmi2_boolean_t) { return jm_status_success; }
inline void fmi2_import_free_instance(F) {}
inline size_t fmi2_import_get_number_of_continuous_states(F) { return f->n; }
inline size_t fmi2_import_get_number_of_event_indicators(F) { return f->m; }
inline fmi2_import_variable_list_t* fmi2_import_get_variable_list(F, int) { return nullptr; }
inline size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t*) { return 1; }
inline fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t*, size_t) { return nullptr; }
inline void fmi2_import_free_variable_list(fmi2_import_variable_list_t*) {}
inline char const* fmi2_import_get_variable_name(fmi2_import_variable_t*) { return "u"; }
inline fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t*) { return 0; }
inline fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t*) { return fmi2_base_type_real; }
inline fmi2_status_t fmi2_import_set_debug_logging(F, fmi2_boolean_t, size_t, fmi2_string_t*) { return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_setup_experiment(F, fmi2_boolean_t, fmi2_real_t, fmi2_real_t, fmi2_boolean_t, fmi2_real_t) { return fmi2_status_ok; }
inline unsigned fmi2_import_get_capability(F, fmi2_capabilities_enu_t) { return f->directional; }
inline fmi2_status_t fmi2_import_enter_initialization_mode(F) { f->x.resize(f->n); return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_exit_initialization_mode(F) { f->event_mode = true; return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_enter_event_mode(F) { f->event_mode = true; f->passes = 0; return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_new_discrete_states(F, fmi2_event_info_t* e) { f->passes++; if (f->discrete) f->discrete(*f, *e); return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_enter_continuous_time_mode(F) { f->event_mode = false; return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_completed_integrator_step(F, fmi2_boolean_t, fmi2_boolean_t* en, fmi2_boolean_t* te) { *en = f->ask; *te = 0; return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_set_time(F, fmi2_real_t t) { f->t = t; return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_set_continuous_states(F, fmi2_real_t const* x, size_t n) { f->x.assign(x, x + n); return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_get_continuous_states(F, fmi2_real_t* x, size_t n) { for (size_t i = 0; i < n; i++) x[i] = f->x[i]; return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_get_derivatives(F, fmi2_real_t* d, size_t n) { for (size_t i = 0; i < n; i++) d[i] = 1; if (f->der) f->der(*f, d); return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_get_event_indicators(F, fmi2_real_t* z, size_t) { f->ind(*f, z); return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_get_directional_derivative(F, fmi2_value_reference_t const* v, size_t, fmi2_value_reference_t const*, size_t, fmi2_real_t const*, fmi2_real_t* dz) { f->col = *v; f->jac(*f, dz); return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_get_real(F, fmi2_value_reference_t const* r, size_t, fmi2_real_t* v) { *v = f->u[*r]; return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_set_real(F, fmi2_value_reference_t const* r, size_t, fmi2_real_t const* v) { f->u[*r] = *v; return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_get_integer(F, fmi2_value_reference_t const*, size_t, fmi2_integer_t*) { return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_set_integer(F, fmi2_value_reference_t const*, size_t, fmi2_integer_t const*) { return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_get_boolean(F, fmi2_value_reference_t const*, size_t, fmi2_boolean_t*) { return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_set_boolean(F, fmi2_value_reference_t const*, size_t, fmi2_boolean_t const*) { return fmi2_status_ok; }
inline fmi2_status_t fmi2_import_terminate(F) { f->terminated++; return fmi2_status_ok; }
#undef F
