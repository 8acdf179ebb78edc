// Replay for the CVODE wrapper: a model with an integrator whose solution is known is driven through the DEVS protocol with random
// inputs; every call the wrapper makes to the model is checked for kind, time, state and input.
// flags: -lsundials_nvecserial -lsundials_generic
#include "common.h"
#include "adevs/adevs.h"
#include "adevs/solvers/cvode.h"
#include <nvector/nvector_serial.h>
#include <cmath>
#include <memory>
#include <vector>
using namespace rp;
typedef std::vector<double> Vec;
typedef std::list<adevs::PinValue<int>> IO;
static double uni(double a, double b) { return a + (b - a) * (double)(rnd() >> 11) / 9007199254740992.0; }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b)); }
static bool same(IO const &a, IO const &b) {
    if (a.size() != b.size()) return false;
    auto i = a.begin();
    for (auto &x : b) { if (!(x.pin == i->pin) || x.value != i->value) return false; ++i; }
    return true;
}
static int alive = 0;                   // clones of the state vector, and one for the run
static void gone(N_Vector v) { alive--; N_VDestroy_Serial(v); }
static N_Vector made(N_Vector v) { alive++; N_Vector r = N_VClone_Serial(v); r->ops->nvclone = made; r->ops->nvdestroy = gone; return r; }
enum { INT, EXT, CONF, OUTP, REINIT, STEP, UNTIL };
static const char *kinds[] = {"cvode_delta_int", "cvode_delta_ext", "cvode_delta_conf", "cvode_output_func", "cvode_reinit", "cvode_integrate", "cvode_integrate_until"};
struct Call { int kind; double t; Vec q, res; IO io; bool ev; };
#if SUNDIALS_VERSION_MAJOR >= 6
static SUNContext ctx() { static SUNContext c = [] { SUNContext x; SUNContext_Create(nullptr, &x); return x; }(); return c; }
static N_Vector mkvec(int n) { return N_VNew_Serial(n, ctx()); }
#else
static N_Vector mkvec(int n) { return N_VNew_Serial(n); }
#endif

struct Model : adevs::CVODE<int> {
    int n;
    N_Vector y;
    double clk = 0;
    Vec rate;
    std::vector<Call> calls;
    int next = 1, shape;
    adevs::pin_t pin;
    Model(int n, int shape) : n(n), y(mkvec(n)), shape(shape) { for (int i = 0; i < n; i++) { NV_Ith_S(y, i) = uni(-2, 2); rate.push_back(uni(-3, 3)); } }
    ~Model() { N_VDestroy(y); }
    Vec vec(N_Vector v) { return Vec(NV_DATA_S(v), NV_DATA_S(v) + n); }
    void jump() { for (int i = 0; i < n; i++) { if (pick(2)) NV_Ith_S(y, i) = uni(-3, 3); if (pick(2)) rate[i] = uni(-3, 3); } }
    void log(int k, double t, Vec q, IO const &io, bool ev) { calls.push_back({k, t, q, vec(y), io, ev}); }
    void run(double t) { for (int i = 0; i < n; i++) NV_Ith_S(y, i) += rate[i] * (t - clk); clk = t; }
    bool answer() { return shape == 0 ? false : shape == 1 ? true : pick(2); }
    void cvode_delta_int() { Vec q = vec(y); jump(); log(INT, 0, q, {}, false); }
    void cvode_delta_ext(double t, IO const &x) { Vec q = vec(y); jump(); log(EXT, t, q, x, false); }
    void cvode_delta_conf(IO const &x) { Vec q = vec(y); jump(); log(CONF, 0, q, x, false); }
    void cvode_output_func(IO &yb) {
        IO out;
        for (int i = pick(3); i > 0; i--) { out.emplace_back(pin, next++); yb.push_back(out.back()); }
        log(OUTP, 0, vec(y), out, false);
    }
    N_Vector cvode_get_state() { return y; }
    void cvode_integrate(double &tf, bool &event) {
        Vec q = vec(y);
        double t = clk + (pick(6) ? uni(0.01, 2) : 0);
        run(t);
        tf = t;
        event = answer();
        log(STEP, t, q, {}, event);
    }
    void cvode_integrate_until(double tf, bool &event) { Vec q = vec(y); run(tf); event = answer(); log(UNTIL, tf, q, {}, event); }
    void cvode_reinit(N_Vector v, double t) { Vec q = vec(v); if (v != y) for (int i = 0; i < n; i++) NV_Ith_S(y, i) = q[i]; clk = t; log(REINIT, t, q, {}, false); }
};

static void run() {
    int n = 1 + pick(4), shape = pick(4);
    begin("CVODE model with %d variables, events %s:", n, shape == 0 ? "never" : shape == 1 ? "always" : "at random");
    std::unique_ptr<Model> mp(new Model(n, shape));
    Model &m = *mp;
    alive = 1;
    m.y->ops->nvclone = made;
    Vec mark = m.vec(m.y);               // state at the last event
    double t = 0;
    auto expect = [&](size_t i, int kind, Vec const &q, const char *who) -> Call & {
        CHECK(i < m.calls.size(), "%s: %s is not called", who, kinds[kind]);
        Call &c = m.calls[i];
        CHECK(c.kind == kind, "%s: call %d is %s, not %s", who, (int)i, kinds[c.kind], kinds[kind]);
        for (int j = 0; j < n; j++) CHECK(near(c.q[j], q[j]), "%s: %s finds variable %d at %.12g, not %.12g", who, kinds[kind], j, c.q[j], q[j]);
        return c;
    };
    auto count = [&](size_t k, const char *who) {
        if (m.calls.size() > k) fail("%s: %s is called although it should not", who, kinds[m.calls[k].kind]);
    };
    auto input = [&] { IO x; for (int i = 1 + pick(2); i > 0; i--) x.emplace_back(m.pin, m.next++); return x; };
    auto given = [&](Call &c, IO const &x, const char *who) { CHECK(same(c.io, x), "%s: %s gets a different input", who, kinds[c.kind]); };
    for (int k = 0; k < 30; k++) {
        m.calls.clear();
        double ta = m.ta();
        note(" ta=%g", ta);
        Call step = expect(0, STEP, mark, "ta");
        count(1, "ta");
        CHECK(near(ta, step.t - t), "ta is %.12g, the step ends after %.12g", ta, step.t - t);
        Vec end = step.res;
        m.calls.clear();
        int what = ta > 0 ? pick(3) : 2 * pick(2);
        if (what != 1) {
            IO y, old;
            for (int i = pick(3); i > 0; i--) y.emplace_back(m.pin, m.next++);
            old = y;
            m.output_func(y);
            if (step.ev) { Call &c = expect(0, OUTP, end, "output_func"); old.insert(old.end(), c.io.begin(), c.io.end()); }
            count(step.ev ? 1 : 0, "output_func");
            CHECK(same(y, old), "output_func: the output is not what the model answered");
            m.calls.clear();
        }
        if (what == 0) {
            note(" internal");
            m.delta_int();
            mark = end;
            if (step.ev) mark = expect(0, INT, end, "delta_int").res;
            count(step.ev ? 1 : 0, "delta_int");
            t = step.t;
        } else if (what == 1) {
            double e = pick(6) == 0 ? 0 : pick(6) == 0 ? ta : uni(0, ta);
            note(" external(%g)", e);
            IO x = input();
            m.delta_ext(e, x);
            Call &r = expect(0, REINIT, mark, "delta_ext");
            CHECK(near(r.t, t), "delta_ext: the integrator restarts at %.12g, not %.12g", r.t, t);
            t += e;
            Call &u = expect(1, UNTIL, mark, "delta_ext");
            CHECK(near(u.t, t), "delta_ext: the integrator runs to %.12g, not %.12g", u.t, t);
            Call &c = expect(2, u.ev ? CONF : EXT, u.res, "delta_ext");
            given(c, x, "delta_ext");
            if (!u.ev) CHECK(near(c.t, t), "delta_ext: the input comes at %.12g, not %.12g", c.t, t);
            count(3, "delta_ext");
            mark = c.res;
        } else {
            note(" confluent");
            IO x = input();
            m.delta_conf(x);
            Call &c = expect(0, step.ev ? CONF : EXT, end, "delta_conf");
            given(c, x, "delta_conf");
            if (!step.ev) CHECK(near(c.t, step.t), "delta_conf: the input comes at %.12g, not %.12g", c.t, step.t);
            count(1, "delta_conf");
            t = step.t;
            mark = c.res;
        }
        for (int j = 0; j < n; j++) CHECK(NV_Ith_S(m.y, j) == mark[j], "variable %d is not left as the model left it", j);
    }
    mp.reset();
    CHECK(alive == 1, "%d vectors made by the wrapper and its model are left after destruction", alive - 1);
    alive = 0;
    cases++;
}
int main(int argc, char **argv) {
    init(argc, argv);
    for (unsigned i = 0; !timeup() && i < 20000; i++) { seed(rnd() + i); run(); }
    return done();
}
