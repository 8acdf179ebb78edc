// Replay for the FMU wrapper: ModelExchange runs on a stand-in for the FMI Library that follows the state machine of FMI 2.0 and
// objects to calls in the wrong mode; its answers, and where it leaves the FMU, are compared with what the FMU is defined to be.
// flags: -I$ROOT/drivers/stub
#include "common.h"
#include "adevs/adevs.h"
#include "adevs/solvers/fmi.h"
#include <cmath>
#include <memory>
#include <string>
#include <vector>
using namespace rp;
typedef std::vector<double> Vec;
typedef std::list<adevs::PinValue<int>> IO;
static double uni(double a, double b) { return a + (b - a) * (double)(rnd() >> 11) / 9007199254740992.0; }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
enum { PARSED, LOADED, READY, INITM, EVENT, CONT, ENDED };
static const char *modes[] = {"parsed", "loaded", "instantiated", "initialization", "event", "continuous time", "terminated"};
struct fmi2_import_variable_t { std::string name; fmi2_value_reference_t ref; fmi2_base_type_enu_t type; };
struct fmi2_import_variable_list_t { fmi2_import_t *fmu; };
struct fmi_import_context_t { int x; };
struct fmi2_import_t {
    int mode = PARSED, nx, nz, kind = fmi2_fmu_kind_me, cfg = 0, iter = 0, steps = 0, busy = 0, timed = 0;
    bool jac, need = false, nxd = false, ask = false, first = true;
    double t = -99, nxt = 0, tol = -1, start = -1;
    Vec x;
    std::vector<fmi2_import_variable_t> var;
    Vec real; std::vector<int> in, bo;
    unsigned salt;
    double coef(int a, int b) const { unsigned h = salt + 7919u * (unsigned)cfg + 104729u * (unsigned)a + 1299709u * (unsigned)b; h ^= h >> 13; h *= 2654435761u; h ^= h >> 15; return (double)(h % 2001) / 1000 - 1; }
    double der(Vec const &y, double s, int j) const { double r = coef(j, 99) * s + coef(j, 98); for (int k = 0; k < nx; k++) r += coef(j, k) * y[k]; return r; }
    double ind(Vec const &y, double s, int j) const { double r = coef(200 + j, 99) * s + coef(200 + j, 98); for (int k = 0; k < nx; k++) r += coef(200 + j, k) * y[k]; return r; }
};
static fmi2_import_t *F, *next_fmu;         // the FMU at hand, the one the next parse finds
static int open_things = 0, version = fmi_version_2_0_enu, missing = 0;
static std::vector<std::string> tmp;
static void need_mode(const char *who, fmi2_import_t *f, unsigned ok) {
    CHECK(f == F && f != nullptr, "%s is called for something else than the FMU", who);
    CHECK((ok >> f->mode) & 1, "%s is called in %s mode", who, modes[f->mode]);
}
#define IN(...) do { unsigned m_ = 0; for (int k_ : {__VA_ARGS__}) m_ |= 1u << k_; need_mode(__func__, f, m_); } while (0)
extern "C" {
void jm_default_logger(jm_callbacks *, jm_string, jm_log_level_enu_t, jm_string) {}
char *fmi_import_mk_temp_dir(jm_callbacks *, const char *, const char *) { char *s = (char *)malloc(8); strcpy(s, "scratch"); return s; }
jm_status_enu_t fmi_import_rmdir(jm_callbacks *, const char *p) { CHECK(!strcmp(p, "scratch"), "the directory %s is removed", p); return jm_status_success; }
fmi_import_context_t *fmi_import_allocate_context(jm_callbacks *) { open_things++; return new fmi_import_context_t; }
void fmi_import_free_context(fmi_import_context_t *c) { open_things--; delete c; }
fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t *, const char *, const char *) { return (fmi_version_enu_t)version; }
fmi2_import_t *fmi2_import_parse_xml(fmi_import_context_t *, const char *, void *) { if (missing) return nullptr; open_things++; F = next_fmu; return F; }
void fmi2_import_free(fmi2_import_t *f) { IN(PARSED); open_things--; F = nullptr; }
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t *f) { return (fmi2_fmu_kind_enu_t)f->kind; }
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t *f, fmi2_fmu_kind_enu_t k, const void *) { IN(PARSED); CHECK(k == fmi2_fmu_kind_me, "not loaded for model exchange"); f->mode = LOADED; return jm_status_success; }
void fmi2_import_destroy_dllfmu(fmi2_import_t *f) { IN(LOADED); f->mode = PARSED; }
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t *f, fmi2_string_t, fmi2_type_t k, fmi2_string_t, fmi2_boolean_t) { IN(LOADED); CHECK(k == fmi2_model_exchange, "not instantiated for model exchange"); f->mode = READY; return jm_status_success; }
void fmi2_import_free_instance(fmi2_import_t *f) { IN(READY, ENDED); f->mode = LOADED; }
size_t fmi2_import_get_number_of_continuous_states(fmi2_import_t *f) { return f->nx; }
size_t fmi2_import_get_number_of_event_indicators(fmi2_import_t *f) { return f->nz; }
fmi2_import_variable_list_t *fmi2_import_get_variable_list(fmi2_import_t *f, int) { open_things++; return new fmi2_import_variable_list_t{f}; }
void fmi2_import_free_variable_list(fmi2_import_variable_list_t *l) { open_things--; delete l; }
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t *l) { return l->fmu->var.size(); }
fmi2_import_variable_t *fmi2_import_get_variable(fmi2_import_variable_list_t *l, size_t i) { CHECK(i < l->fmu->var.size(), "variable %d of %d is asked for", (int)i, (int)l->fmu->var.size()); return &l->fmu->var[i]; }
const char *fmi2_import_get_variable_name(fmi2_import_variable_t *v) { return v->name.c_str(); }
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t *v) { return v->ref; }
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t *v) { return v->type; }
fmi2_status_t fmi2_import_set_debug_logging(fmi2_import_t *, fmi2_boolean_t, size_t, fmi2_string_t *) { return fmi2_status_ok; }
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t *f, fmi2_boolean_t d, fmi2_real_t tol, fmi2_real_t t0, fmi2_boolean_t s, fmi2_real_t) { IN(READY); f->tol = d ? tol : 0; f->start = f->t = t0; CHECK(!s, "a stop time is set"); return fmi2_status_ok; }
unsigned int fmi2_import_get_capability(fmi2_import_t *f, fmi2_capabilities_enu_t c) { return c == fmi2_me_providesDirectionalDerivatives ? (f->jac ? 1 + f->salt % 3 : 0) : f->salt % 2; }
#define GETSET(N, T, V) \
    fmi2_status_t fmi2_import_get_##N(fmi2_import_t *f, const fmi2_value_reference_t *r, size_t n, T *v) { IN(READY, INITM, EVENT, CONT, ENDED); CHECK(n == 1 && *r < f->V.size(), "get of an unknown reference"); *v = f->V[*r]; return fmi2_status_ok; } \
    fmi2_status_t fmi2_import_set_##N(fmi2_import_t *f, const fmi2_value_reference_t *r, size_t n, const T *v) { IN(READY, INITM, EVENT, CONT); CHECK(n == 1 && *r < f->V.size(), "set of an unknown reference"); f->V[*r] = *v; return fmi2_status_ok; }
GETSET(real, fmi2_real_t, real)
GETSET(integer, fmi2_integer_t, in)
GETSET(boolean, fmi2_boolean_t, bo)
fmi2_status_t fmi2_import_get_directional_derivative(fmi2_import_t *f, const fmi2_value_reference_t *v, size_t nv, const fmi2_value_reference_t *z, size_t nz, const fmi2_real_t *dv, fmi2_real_t *dz) {
    IN(INITM, EVENT, CONT);
    CHECK(f->jac, "partial derivatives are asked for that the FMU does not provide");
    for (size_t j = 0; j < nz; j++) {
        CHECK((int)z[j] >= f->nx && (int)z[j] < 2 * f->nx, "the derivative with reference %u is asked for", z[j]);
        dz[j] = 0;
        for (size_t k = 0; k < nv; k++) { CHECK((int)v[k] < f->nx, "the state with reference %u is asked for", v[k]); dz[j] += f->coef(z[j] - f->nx, v[k]) * dv[k]; }
    }
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t *f) { IN(READY); f->mode = INITM; return fmi2_status_ok; }
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t *f) { IN(INITM); f->mode = EVENT; f->need = f->first = true; f->busy = pick(4); return fmi2_status_ok; }
fmi2_status_t fmi2_import_enter_event_mode(fmi2_import_t *f) { IN(CONT); f->mode = EVENT; f->need = f->first = true; f->busy = pick(4); return fmi2_status_ok; }
fmi2_status_t fmi2_import_new_discrete_states(fmi2_import_t *f, fmi2_event_info_t *e) {
    IN(EVENT);
    f->iter++;
    bool had = f->first;
    f->first = false;
    f->need = f->busy > 0;
    if (f->need) f->busy--; else if (!had) f->busy = pick(3);     // an event after this one has iterations of its own
    f->nxd = f->timed == 1 || (f->timed == 2 && pick(2));
    f->nxt = f->t + uni(0.05, 1.5);
    if (f->need) { f->cfg++; if (pick(2)) for (auto &v : f->x) v = uni(-2, 2); }
    if (had && !f->need && !f->nxd && pick(2)) return fmi2_status_ok;   // nothing happened: the library may leave its answers alone
    e->newDiscreteStatesNeeded = f->need ? 1 + pick(2) : 0;
    e->nextEventTimeDefined = f->nxd ? 1 + pick(2) : 0;
    e->nextEventTime = f->nxd ? f->nxt : -5;
    e->terminateSimulation = pick(2); e->nominalsOfContinuousStatesChanged = pick(2); e->valuesOfContinuousStatesChanged = pick(2);
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_enter_continuous_time_mode(fmi2_import_t *f) { IN(EVENT); CHECK(!f->need, "continuous time is entered while discrete states are still to be updated"); f->mode = CONT; return fmi2_status_ok; }
fmi2_status_t fmi2_import_set_time(fmi2_import_t *f, fmi2_real_t t) { IN(EVENT, CONT); f->t = t; return fmi2_status_ok; }
fmi2_status_t fmi2_import_set_continuous_states(fmi2_import_t *f, const fmi2_real_t *x, size_t n) { IN(CONT); CHECK((int)n == f->nx, "%d states are set, the FMU has %d", (int)n, f->nx); f->x.assign(x, x + n); return fmi2_status_ok; }
fmi2_status_t fmi2_import_completed_integrator_step(fmi2_import_t *f, fmi2_boolean_t, fmi2_boolean_t *e, fmi2_boolean_t *t) { IN(CONT); f->steps++; f->ask = pick(4) == 0; *e = f->ask ? 1 + pick(2) : 0; *t = pick(2); return fmi2_status_ok; }
fmi2_status_t fmi2_import_get_derivatives(fmi2_import_t *f, fmi2_real_t *d, size_t n) { IN(INITM, EVENT, CONT); CHECK((int)n == f->nx, "%d derivatives are asked for, the FMU has %d", (int)n, f->nx); for (int j = 0; j < f->nx; j++) d[j] = f->der(f->x, f->t, j); return fmi2_status_ok; }
fmi2_status_t fmi2_import_get_event_indicators(fmi2_import_t *f, fmi2_real_t *z, size_t n) { IN(INITM, EVENT, CONT); CHECK((int)n == f->nz, "%d indicators are asked for, the FMU has %d", (int)n, f->nz); for (int j = 0; j < f->nz; j++) z[j] = f->ind(f->x, f->t, j); return fmi2_status_ok; }
fmi2_status_t fmi2_import_get_continuous_states(fmi2_import_t *f, fmi2_real_t *x, size_t n) { IN(INITM, EVENT, CONT, ENDED); CHECK((int)n == f->nx, "%d states are asked for, the FMU has %d", (int)n, f->nx); for (int j = 0; j < f->nx; j++) x[j] = f->x[j]; return fmi2_status_ok; }
fmi2_status_t fmi2_import_terminate(fmi2_import_t *f) { IN(READY, EVENT, CONT); f->mode = ENDED; return fmi2_status_ok; }
}
typedef adevs::ModelExchange<int> ME;

static long arrays = 0;
void *operator new[](size_t n) { arrays++; return malloc(n); }
void operator delete[](void *p) noexcept { if (p) arrays--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) arrays--; free(p); }
static void describe(fmi2_import_t &f) {
    f.nx = pick(5) ? pick(5) : 0; f.nz = pick(4); f.jac = pick(3) > 0; f.timed = pick(3); f.salt = (unsigned)rnd();
    f.x.clear();
    for (int i = 0; i < f.nx; i++) f.x.push_back(uni(-2, 2));
    int nr = 1 + pick(4), ni = 1 + pick(4), nb = 1 + pick(4);
    for (int i = 0; i < nr; i++) { f.var.push_back({"r" + std::to_string(i), (unsigned)i, fmi2_base_type_real}); f.real.push_back(uni(-9, 9)); }
    for (int i = 0; i < ni; i++) { f.var.push_back({"i" + std::to_string(i), (unsigned)i, fmi2_base_type_int}); f.in.push_back((int)pick(99) - 50); }
    for (int i = 0; i < nb; i++) { f.var.push_back({"b" + std::to_string(i), (unsigned)i, fmi2_base_type_bool}); f.bo.push_back(pick(2)); }
    for (size_t i = f.var.size(); i > 1; i--) std::swap(f.var[i - 1], f.var[pick(i)]);
    begin("FMU with %d states, %d indicators, %d variables%s, time events %s:", f.nx, f.nz, (int)f.var.size(), f.jac ? ", partial derivatives" : "", f.timed == 0 ? "never" : f.timed == 1 ? "always" : "at times");
}
static void load_fails() {
    fmi2_import_t f;
    describe(f);
    next_fmu = &f;
    int how = pick(3);
    version = how == 0 ? fmi_version_1_enu : fmi_version_2_0_enu;
    missing = how == 1;
    if (how == 2) f.kind = fmi2_fmu_kind_cs;
    note(" %s", how == 0 ? "of version 1" : how == 1 ? "that cannot be parsed" : "for cosimulation");
    bool thrown = false;
    try { ME m("x.fmu", 1e-3); F->mode = READY; } catch (adevs::exception &) { thrown = true; }
    CHECK(thrown, "it is loaded without complaint");
    version = fmi_version_2_0_enu; missing = 0;
    F = nullptr;
}

static void direct() {
    fmi2_import_t f;
    describe(f);
    next_fmu = &f;
    open_things = 0; arrays = 0;
    double tol = uni(1e-6, 1e-2);
    std::unique_ptr<ME> mp(new ME("x.fmu", tol));
    ME &m = *mp;
    int N = f.nx, n = N + 1;
    CHECK(f.mode == READY, "the constructor leaves the FMU in %s mode", modes[f.mode]);
    CHECK(open_things == 1, "%d things of the library are left open besides the FMU", open_things - 1);
    CHECK(m.numVars() == n && m.numEvents() == f.nz, "%d variables and %d events, not %d and %d", m.numVars(), m.numEvents(), n, f.nz);
    CHECK(f.tol == tol && f.start == 0, "the experiment has tolerance %g and starts at %g", f.tol, f.start);
    CHECK(m.get_time() == 0, "time starts at %g", m.get_time());
    double nte = adevs_inf<double>();
    Vec q(n + 2, 77), d(n + 2, 77), J(n * n + 2, 77);
    auto guard = [&](Vec const &v, int k, const char *who) { CHECK((int)v.size() == k + 2 && v[k] == 77 && v[k + 1] == 77, "%s writes past the end of its answer", who); };
    auto vars = [&] {
        for (auto &v : f.var) {
            std::any a = m.get_variable(v.name);
            if (v.type == fmi2_base_type_real) { auto p = std::any_cast<double>(&a); CHECK(p && *p == f.real[v.ref], "get_variable(%s) is wrong", v.name.c_str()); }
            else if (v.type == fmi2_base_type_int) { auto p = std::any_cast<int>(&a); CHECK(p && *p == f.in[v.ref], "get_variable(%s) is wrong", v.name.c_str()); }
            else { auto p = std::any_cast<int>(&a); CHECK(p && *p == f.bo[v.ref], "get_variable(%s) is wrong", v.name.c_str()); }
        }
    };
    auto set = [&] {
        auto &v = f.var[pick(f.var.size())];
        Vec r = f.real; std::vector<int> in = f.in, bo = f.bo;
        note(" set(%s)", v.name.c_str());
        if (v.type == fmi2_base_type_real) { r[v.ref] = uni(-5, 5); m.set_variable(v.name, r[v.ref]); }
        else if (v.type == fmi2_base_type_int) { in[v.ref] = (int)pick(100) - 50; m.set_variable(v.name, in[v.ref]); }
        else { bo[v.ref] = !bo[v.ref]; m.set_variable(v.name, bo[v.ref]); }
        CHECK(r == f.real && in == f.in && bo == f.bo, "set_variable(%s) sets something else", v.name.c_str());
    };
    vars();
    if (pick(2)) set();
    if (pick(8) == 0) { mp.reset(); CHECK(open_things == 0, "the FMU is not released"); cases++; return; }
    note(" init");
    m.init(q.data());
    guard(q, n, "init");
    auto copied = [&](const char *who) { for (int j = 0; j < N; j++) CHECK(q[j] == f.x[j], "%s: variable %d is %.17g, in the FMU %.17g", who, j, q[j], f.x[j]); };
    auto is_at = [&](Vec const &p, const char *who) {
        CHECK(f.mode == CONT, "%s leaves the FMU in %s mode", who, modes[f.mode]);
        CHECK(f.t == p[N], "%s leaves the FMU at time %.17g, not %.17g", who, f.t, p[N]);
        for (int j = 0; j < N; j++) CHECK(f.x[j] == p[j], "%s leaves state %d of the FMU at %.17g, not %.17g", who, j, f.x[j], p[j]);
    };
    auto upcoming = [&] { nte = f.nxd ? f.nxt : adevs_inf<double>(); };
    copied("init");
    CHECK(q[N] == 0 && f.t == 0 && f.mode == CONT && f.iter > 0 && !f.need, "init leaves the FMU at %g in %s mode, the time variable at %g", f.t, modes[f.mode], q[N]);
    upcoming();
    auto any = [&] { Vec p(q); for (int j = 0; j < N; j++) p[j] = uni(-2, 2); p[N] = q[N] + (pick(4) ? uni(0, 1) : 0); return p; };
    for (int k = 0; k < 25; k++) {
        Vec was = q;
        int it = f.iter, st = f.steps;
        double te = m.time_event_func(q.data());
        CHECK(nte == adevs_inf<double>() ? te == nte : near(te, nte - q[N]), "the next time event is in %.17g, due is %.17g at time %.17g", te, nte, q[N]);
        Vec o = any();
        double to = m.time_event_func(o.data());
        CHECK(nte == adevs_inf<double>() ? to == nte : near(to, nte - o[N]), "the next time event is in %.17g, due is %.17g at time %.17g", to, nte, o[N]);
        switch (pick(9)) {
        case 0: {
            Vec p = any(), p0 = p;
            note(" der");
            m.der_func(p.data(), d.data());
            guard(d, n, "der_func");
            for (int j = 0; j < N; j++) CHECK(near(d[j], f.der(p, p[N], j)), "derivative %d is %.17g, should be %.17g", j, d[j], f.der(p, p[N], j));
            CHECK(d[N] == 1, "time has derivative %g", d[N]);
            CHECK(p == p0, "der_func changes the state");
            is_at(p, "der_func");
            break;
        }
        case 1: {
            Vec p = any(), z(f.nz + 2, 77);
            note(" indicators");
            m.state_event_func(p.data(), z.data());
            guard(z, f.nz, "state_event_func");
            for (int j = 0; j < f.nz; j++) CHECK(near(z[j], f.ind(p, p[N], j)), "indicator %d is %.17g, should be %.17g", j, z[j], f.ind(p, p[N], j));
            break;
        }
        case 2: case 3: {
            if (f.mode != CONT) break;
            Vec p = any();
            if (pick(6) == 0) p[N] = q[N] - uni(0, 1);
            double now = m.get_time();
            note(" step(to %.17g)", p[N]);
            m.postTrialStep(p.data());
            is_at(p, "postTrialStep");
            Vec p0 = p;
            m.postStep(p.data());
            CHECK(p == p0, "postStep changes the state");
            if (p[N] > now) {
                CHECK(f.steps == st + 1, "postStep completes %d steps", f.steps - st);
                CHECK(m.get_time() == p[N], "time is %.17g after a step to %.17g", m.get_time(), p[N]);
                is_at(p, "postStep");
                if (f.ask) nte = p[N];
                q = p;
            } else {
                CHECK(f.steps == st && m.get_time() == now, "a step of no length is completed");
                m.postTrialStep(q.data());
            }
            break;
        }
        case 4: {
            Vec p = any();
            note(" trial");
            m.postTrialStep(p.data());
            is_at(p, "postTrialStep");
            break;
        }
        case 5: case 6: {
            m.postTrialStep(q.data());
            int what = pick(3);
            IO x;
            adevs::pin_t pin;
            x.emplace_back(pin, 1);
            bool ev[9] = {};
            for (int i = 0; i <= f.nz; i++) ev[i] = pick(2);
            note(what == 0 ? " internal" : what == 1 ? " external" : " confluent");
            double ft = f.t;
            for (int again = pick(3); again >= 0; again--) {
                it = f.iter;
                if (what == 0) m.internal_event(q.data(), ev); else if (what == 1) m.external_event(q.data(), uni(0, 1), x); else m.confluent_event(q.data(), ev, x);
                guard(q, n, "the event");
                CHECK(f.iter > it && !f.need, "the event leaves discrete states to be updated");
                CHECK(f.mode == EVENT, "the event leaves the FMU in %s mode", modes[f.mode]);
                CHECK(q[N] == was[N] && f.t == ft, "the event changes time");
                copied("event");
                upcoming();
            }
            break;
        }
        case 7: {
            Vec p = any(), p0 = p;
            note(" jacobian");
            CHECK(m.get_jacobian(p.data(), nullptr) == f.jac, "get_jacobian(null) is not %d", f.jac);
            std::fill(J.begin(), J.end(), 77);
            CHECK(m.get_jacobian(p.data(), J.data()) == f.jac, "get_jacobian is not %d", f.jac);
            if (!f.jac) { for (double v : J) CHECK(v == 77, "an unknown Jacobian is written"); break; }
            guard(J, n * n, "get_jacobian");
            for (int r = 0; r < n; r++)
                for (int c = 0; c < n; c++) {
                    double e = r < N && c < N ? f.coef(r, c) : r == N && c == N ? 1 : 0;
                    CHECK(near(J[c * n + r], e), "the derivative of %d with respect to %d is %.17g, should be %.17g", r, c, J[c * n + r], e);
                }
            CHECK(p == p0, "get_jacobian changes the state");
            is_at(p, "get_jacobian");
            break;
        }
        default:
            if (pick(2)) set(); else vars();
            IO y;
            bool ev[9] = {};
            m.output_func(q.data(), ev, y);
            CHECK(y.empty(), "output_func produces output of its own");
        }
    }
    mp.reset();
    CHECK(open_things == 0, "the FMU is not released");
    CHECK(arrays == 0, "%ld arrays are left after destruction", arrays);
    cases++;
}
static void hybrid() {
    fmi2_import_t f;
    describe(f);
    next_fmu = &f;
    open_things = 0;
    {
        std::unique_ptr<ME> mp(new ME("x.fmu", 1e-6));
        ME *m = mp.get();
        adevs::ode_solver<int> *s = pick(2) ? (adevs::ode_solver<int> *)new adevs::rk_45<int>(m, 1e-4, 0.1) : new adevs::corrected_euler<int>(m, 1e-3, 0.1);
        adevs::event_locator<int> *l = pick(2) ? (adevs::event_locator<int> *)new adevs::bisection_event_locator<int>(m, 1e-4) : new adevs::linear_event_locator<int>(m, 1e-4);
        std::unique_ptr<adevs::ode_solver<int>> sp(s);
        std::unique_ptr<adevs::event_locator<int>> lp(l);
        adevs::Hybrid<int> h(m, s, l);
        double t = 0;
        adevs::pin_t pin;
        for (int k = 0; k < 25; k++) {
            double ta = h.ta();
            CHECK(ta >= 0, "ta is %g", ta);
            int it = f.iter;
            if (pick(3) == 0) {
                double e = pick(4) ? uni(0, ta < 3 ? ta : 3) : 0;
                note(" external(%g)", e);
                IO x; x.emplace_back(pin, 1);
                h.delta_ext(e, x);
                t += e;
                CHECK(f.iter > it, "the input is not an event for the FMU");
            } else if (ta < adevs_inf<double>()) {
                note(" internal(%g)", ta);
                IO y;
                h.output_func(y);
                if (pick(4) == 0) { IO x; x.emplace_back(pin, 1); h.delta_conf(x); CHECK(f.iter > it, "the input is not an event for the FMU"); }
                else h.delta_int();
                t += ta;
            }
            CHECK(std::fabs(h.getState(f.nx) - t) <= 1e-6 * (1 + t), "the time variable is %.12g at time %.12g", h.getState(f.nx), t);
        }
    }
    CHECK(open_things == 0, "the FMU is not released");
    cases++;
}
int main(int argc, char **argv) {
    init(argc, argv);
    for (unsigned i = 0; !timeup() && i < 20000; i++) {
        seed(rnd() + i);
        if (i % 4 == 3) hybrid(); else if (i % 16 == 0) load_fails(); else direct();
    }
    return done();
}
