/* Declarations of the FMI Library (https://github.com/modelon-community/fmi-library, FMI 2.0 import) as far as
   adevs/solvers/fmi.h uses them; the library is not installed in this sandbox. Types and signatures follow its headers. */
#ifndef FMILIB_STUB_H
#define FMILIB_STUB_H
#include <any>
#include <cstddef>
#include <cstdlib>
#include <list>
#include <map>
#include <string>
typedef struct fmi2_import_t fmi2_import_t;
typedef struct fmi_import_context_t fmi_import_context_t;
typedef struct fmi2_import_variable_t fmi2_import_variable_t;
typedef struct fmi2_import_variable_list_t fmi2_import_variable_list_t;
typedef unsigned int fmi2_value_reference_t;
typedef double fmi2_real_t;
typedef int fmi2_integer_t;
typedef int fmi2_boolean_t;
typedef const char* fmi2_string_t;
typedef enum { fmi2_status_ok, fmi2_status_warning, fmi2_status_discard, fmi2_status_error, fmi2_status_fatal, fmi2_status_pending } fmi2_status_t;
typedef enum { fmi2_base_type_real, fmi2_base_type_int, fmi2_base_type_bool, fmi2_base_type_str, fmi2_base_type_enum } fmi2_base_type_enu_t;
typedef enum { jm_status_error = -1, jm_status_success = 0, jm_status_warning = 1 } jm_status_enu_t;
typedef enum { jm_log_level_nothing, jm_log_level_fatal, jm_log_level_error, jm_log_level_warning, jm_log_level_info, jm_log_level_verbose, jm_log_level_debug, jm_log_level_all } jm_log_level_enu_t;
typedef enum { fmi_version_unknown_enu = 0, fmi_version_1_enu, fmi_version_2_0_enu, fmi_version_unsupported_enu } fmi_version_enu_t;
typedef enum { fmi2_fmu_kind_unknown = 0, fmi2_fmu_kind_me, fmi2_fmu_kind_cs, fmi2_fmu_kind_me_and_cs } fmi2_fmu_kind_enu_t;
typedef enum { fmi2_model_exchange, fmi2_cosimulation } fmi2_type_t;
typedef enum { fmi2_me_needsExecutionTool, fmi2_me_completedIntegratorStepNotNeeded, fmi2_me_canBeInstantiatedOnlyOncePerProcess, fmi2_me_canNotUseMemoryManagementFunctions,
               fmi2_me_canGetAndSetFMUstate, fmi2_me_canSerializeFMUstate, fmi2_me_providesDirectionalDerivatives, fmi2_me_completedEventIterationIsProvided } fmi2_capabilities_enu_t;
typedef struct jm_callbacks jm_callbacks;
typedef const char* jm_string;
typedef void (*jm_logger_f)(jm_callbacks* c, jm_string module, jm_log_level_enu_t log_level, jm_string message);
struct jm_callbacks {
    void* (*malloc)(size_t);
    void* (*calloc)(size_t, size_t);
    void* (*realloc)(void*, size_t);
    void (*free)(void*);
    jm_logger_f logger;
    jm_log_level_enu_t log_level;
    void* context;
    char errMessageBuffer[2000];
};
typedef struct {
    fmi2_boolean_t newDiscreteStatesNeeded;
    fmi2_boolean_t terminateSimulation;
    fmi2_boolean_t nominalsOfContinuousStatesChanged;
    fmi2_boolean_t valuesOfContinuousStatesChanged;
    fmi2_boolean_t nextEventTimeDefined;
    fmi2_real_t nextEventTime;
} fmi2_event_info_t;
extern "C" {
void jm_default_logger(jm_callbacks* c, jm_string module, jm_log_level_enu_t log_level, jm_string message);
char* fmi_import_mk_temp_dir(jm_callbacks* cb, const char* systemTempDir, const char* tempPrefix);
jm_status_enu_t fmi_import_rmdir(jm_callbacks* cb, const char* path);
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks* cb);
void fmi_import_free_context(fmi_import_context_t* c);
fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t* c, const char* fileName, const char* dirName);
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t* context, const char* dirPath, void* xml_callbacks);
void fmi2_import_free(fmi2_import_t* fmu);
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t* fmu);
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* fmu, fmi2_fmu_kind_enu_t fmuKind, const void* callBackFunctions);
void fmi2_import_destroy_dllfmu(fmi2_import_t* fmu);
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* fmu, fmi2_string_t instanceName, fmi2_type_t fmuType, fmi2_string_t fmuResourceLocation, fmi2_boolean_t visible);
void fmi2_import_free_instance(fmi2_import_t* fmu);
size_t fmi2_import_get_number_of_continuous_states(fmi2_import_t* fmu);
size_t fmi2_import_get_number_of_event_indicators(fmi2_import_t* fmu);
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t* fmu, int sortOrder);
void fmi2_import_free_variable_list(fmi2_import_variable_list_t* vl);
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t* vl);
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t* vl, size_t index);
const char* fmi2_import_get_variable_name(fmi2_import_variable_t* v);
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t* v);
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t* v);
fmi2_status_t fmi2_import_set_debug_logging(fmi2_import_t* fmu, fmi2_boolean_t loggingOn, size_t nCategories, fmi2_string_t categories[]);
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t* fmu, fmi2_boolean_t tolerance_defined, fmi2_real_t tolerance, fmi2_real_t start_time, fmi2_boolean_t stop_time_defined, fmi2_real_t stop_time);
unsigned int fmi2_import_get_capability(fmi2_import_t* fmu, fmi2_capabilities_enu_t id);
fmi2_status_t fmi2_import_get_real(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, fmi2_real_t value[]);
fmi2_status_t fmi2_import_get_integer(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, fmi2_integer_t value[]);
fmi2_status_t fmi2_import_get_boolean(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, fmi2_boolean_t value[]);
fmi2_status_t fmi2_import_set_real(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, const fmi2_real_t value[]);
fmi2_status_t fmi2_import_set_integer(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, const fmi2_integer_t value[]);
fmi2_status_t fmi2_import_set_boolean(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t nvr, const fmi2_boolean_t value[]);
fmi2_status_t fmi2_import_get_directional_derivative(fmi2_import_t* fmu, const fmi2_value_reference_t v_ref[], size_t nv, const fmi2_value_reference_t z_ref[], size_t nz, const fmi2_real_t dv[], fmi2_real_t dz[]);
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_enter_event_mode(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_new_discrete_states(fmi2_import_t* fmu, fmi2_event_info_t* eventInfo);
fmi2_status_t fmi2_import_enter_continuous_time_mode(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_set_time(fmi2_import_t* fmu, fmi2_real_t time);
fmi2_status_t fmi2_import_set_continuous_states(fmi2_import_t* fmu, const fmi2_real_t x[], size_t nx);
fmi2_status_t fmi2_import_completed_integrator_step(fmi2_import_t* fmu, fmi2_boolean_t noSetFMUStatePriorToCurrentPoint, fmi2_boolean_t* enterEventMode, fmi2_boolean_t* terminateSimulation);
fmi2_status_t fmi2_import_get_derivatives(fmi2_import_t* fmu, fmi2_real_t derivatives[], size_t nx);
fmi2_status_t fmi2_import_get_event_indicators(fmi2_import_t* fmu, fmi2_real_t eventIndicators[], size_t ni);
fmi2_status_t fmi2_import_get_continuous_states(fmi2_import_t* fmu, fmi2_real_t states[], size_t nx);
fmi2_status_t fmi2_import_terminate(fmi2_import_t* fmu);
}
#endif
