// Replay for Hybrid: systems whose solution is known (one variable is a clock) driven through the DEVS protocol with random
// inputs; every callback of the model is checked for the right kind, time, state, flags and elapsed time.
// flags: -fno-access-control
#include "common.h"
#include "adevs/adevs.h"
#include "adevs/solvers/hybrid.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/event_locators.h"
#include <cmath>
#include <memory>
#include <vector>
using namespace rp;
typedef std::vector<double> Vec;
typedef std::list<adevs::PinValue<int>> IO;
static double uni(double a, double b) { return a + (b - a) * (double)(rnd() >> 11) / 9007199254740992.0; }
static double lg(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b)); }
static std::string show(IO const &l) {
    std::string s;
    for (auto &x : l) s += std::to_string(x.value) + " ";
    return s;
}
static bool same(IO const &a, IO const &b) {
    if (a.size() != b.size()) return false;
    auto i = a.begin();
    for (auto &x : b) { if (!(x.pin == i->pin) || x.value != i->value) return false; ++i; }
    return true;
}
enum { INT, EXT, CONF, OUTP };
struct Call { int kind; Vec q; std::vector<bool> f; double e; IO in, out; Vec res; };

struct Sys : adevs::ode_system<int> {
    Vec a, b, scale, level, wl, start;
    std::vector<int> kind, comp;
    double due;                       // clock at which the next time event is due
    std::vector<Call> calls;
    int next = 1;
    bool quiet, smooth;
    adevs::pin_t pin;
    Sys(int n, int m, bool smooth) : ode_system<int>(n, m), quiet(pick(4) == 0), smooth(smooth) {
        for (int i = 0; i < n; i++) { a.push_back(uni(-3, 3)); b.push_back(pick(3) ? uni(-4, 4) : 0); start.push_back(uni(-2, 2)); }
        for (int i = 0; i < m; i++) { kind.push_back(pick(4)); comp.push_back(pick(n)); scale.push_back(uni(0.3, 3) * (pick(2) ? 1 : -1)); level.push_back(uni(-2, 4)); wl.push_back(uni(0.5, 6)); }
        start[0] = 0;
        plan(0);
    }
    void plan(double t) {
        switch (pick(8)) {
            case 0: due = t; break;
            case 1: case 2: due = t + 1e3; break;
            default: due = t + lg(0.05, 4);
        }
    }
    void init(double *q) { for (int i = 0; i < numVars(); i++) q[i] = start[i]; }
    void der_func(double const *q, double *dq) { for (int i = 0; i < numVars(); i++) dq[i] = i == 0 ? 1.0 : a[i] + b[i] * q[0]; }
    Vec solution(Vec const &q, double h) const {
        Vec r(q);
        for (int i = 0; i < numVars(); i++) r[i] = i == 0 ? q[0] + h : q[i] + a[i] * h + b[i] * (q[0] * h + h * h / 2);
        return r;
    }
    double zf(double const *q, int i) const {
        switch (kind[i]) {
            case 0: return scale[i] * (q[0] - level[i]);
            case 1: return scale[i] * (q[comp[i]] - level[i]);
            case 2: return scale[i] * std::sin(wl[i] * q[0] + level[i]);
            default: return smooth ? scale[i] * (q[0] - level[i]) * (q[0] - level[i] - 0.3) : q[0] < level[i] || q[0] > level[i] + 0.4 ? -scale[i] : scale[i];
        }
    }
    void state_event_func(double const *q, double *z) { for (int i = 0; i < numEvents(); i++) z[i] = zf(q, i); }
    double time_event_func(double const *q) { return std::max(0.0, due - q[0]); }
    Vec vec(double const *q) { return Vec(q, q + numVars()); }
    std::vector<bool> flg(bool const *f) {
        std::vector<bool> r;
        for (int i = 0; i <= numEvents(); i++) { unsigned char c; memcpy(&c, f + i, 1); CHECK(c < 2, "flag %d is not initialised", i); r.push_back(c); }
        return r;
    }
    void jump(double *q) {
        for (int i = 1; i < numVars(); i++) {
            if (pick(3) == 0) q[i] = uni(-3, 3);
            if (pick(3) == 0) a[i] = uni(-3, 3);
        }
        if (due <= q[0] || pick(2)) { plan(q[0]); if (due <= q[0] && pick(2)) due = q[0] + uni(0.1, 2); }
    }
    void internal_event(double *q, bool const *f) { Call c{INT, vec(q), flg(f), 0}; jump(q); c.res = vec(q); calls.push_back(c); }
    void external_event(double *q, double e, IO const &x) { Call c{EXT, vec(q), {}, e, x}; jump(q); c.res = vec(q); calls.push_back(c); }
    void confluent_event(double *q, bool const *f, IO const &x) { Call c{CONF, vec(q), flg(f), 0, x}; jump(q); c.res = vec(q); calls.push_back(c); }
    void output_func(double const *q, bool const *f, IO &y) {
        Call c{OUTP, vec(q), flg(f), 0};
        int n = quiet ? pick(2) : 1 + pick(2);
        for (int i = 0; i < n; i++) { adevs::PinValue<int> v(pin, next++); c.out.push_back(v); y.push_back(v); }
        calls.push_back(c);
    }
};
static const char *kinds[] = {"internal_event", "external_event", "confluent_event", "output_func"};

static void run() {
    int lk = pick(6), n = 1 + pick(4), m = lk == 5 ? 0 : pick(6) == 0 ? 0 : 1 + pick(3), sk = pick(2);
    static const char *nm[] = {"bisection", "linear", "discontinuous", "fast", "fast with interpolation", "null"};
    Sys s(n, m, lk < 2);
    double tol = lg(1e-7, 1e-2), hmax = lg(0.05, 3);
    begin("Hybrid with %s, %s event locator, %d variables, %d event functions, tolerance %g, largest step %g:", sk ? "corrected_euler" : "rk_45", nm[lk], n, m, tol, hmax);
    std::unique_ptr<adevs::ode_solver<int>> sol;
    if (sk) sol.reset(new adevs::corrected_euler<int>(&s, 1e-3, hmax)); else sol.reset(new adevs::rk_45<int>(&s, 1e-6, hmax));
    std::unique_ptr<adevs::event_locator<int>> f;
    if (lk == 0) f.reset(new adevs::bisection_event_locator<int>(&s, tol));
    else if (lk == 1) f.reset(new adevs::linear_event_locator<int>(&s, tol));
    else if (lk == 2) f.reset(new adevs::discontinuous_event_locator<int>(&s, tol));
    else if (lk <= 4) f.reset(new adevs::fast_event_locator<int>(&s, tol, lk == 4));
    else f.reset(new adevs::null_event_locator<int>());
    char hy[sizeof(adevs::Hybrid<int>) + 64];
    memset(hy, pick(2) ? 0x5a : 0, sizeof hy);
    typedef adevs::Hybrid<int> HY;
    HY *hp = new ((void *)(((size_t)hy + 15) / 16 * 16)) HY(&s, sol.get(), f.get());
    HY &h = *hp;
    CHECK(s.calls.empty(), "a transition during construction");
    auto vec = [&](HY &x) { return Vec(x.getState(), x.getState() + n); };
    for (int i = 0; i < n; i++) CHECK(h.getState(i) == s.start[i], "initial state of variable %d is %g, not %g", i, h.getState(i), s.start[i]);
    { unsigned char c; memcpy(&c, &h.event_happened, 1); CHECK(c == 0, "an event is said to have happened before any"); }
    double t = 0, last = 0, lag = 0;
    IO missed;                          // output due at once because its event came to light with an input
    bool pending = false;
    auto fl = [&](std::vector<bool> const &x) { std::string r; for (bool y : x) r += y ? '1' : '0'; return r; };
    // the flags must be those of the events between state q0 and q1
    auto flags = [&](Call const &c, Vec const &q0, const char *who) {
        bool any = false;
        for (int j = 0; j < m; j++) any |= c.f[j];
        for (int j = 0; j < m && any; j++) {
            double z0 = s.zf(q0.data(), j), z1 = s.zf(c.q.data(), j);
            bool want = lk >= 3 ? z0 * z1 <= 0 : (z0 < 0) != (z1 < 0) || (z0 > 0) != (z1 > 0);
            if (std::fabs(z1) >= 1e-9 && std::fabs(z0) >= 1e-9) CHECK(c.f[j] == want, "%s: flags are %s but event function %d goes from %g to %g", who, fl(c.f).c_str(), j, z0, z1);
        }
        CHECK(any || c.f[m], "%s without a cause", who);
    };
    auto unnoticed = [&](Vec const &q0, Vec const &q1, const char *who) {
        for (int j = 0; j < m; j++) {
            double z0 = s.zf(q0.data(), j), z1 = s.zf(q1.data(), j);
            if (std::fabs(z0) > 1e-9 && std::fabs(z1) > 1e-9) CHECK(z0 * z1 > 0, "%s: event function %d went from %g to %g unnoticed", who, j, z0, z1);
        }
    };
    auto state = [&](Vec const &q, Vec const &want, const char *who) {
        for (int i = 0; i < n; i++) CHECK(near(q[i], want[i]), "%s: variable %d is %.12g at time %.12g, the solution is %.12g", who, i, q[i], t, want[i]);
    };
    for (int it = 0; it < 25; it++) {
        Vec q0(h.getState(), h.getState() + n);
        CHECK(near(q0[0], t - lag), "the clock of the state is %.12g at time %.12g", q0[0], t - lag);
        const Sys before(s);
        double ta = h.ta();
        bool late = pending && !missed.empty();
        CHECK(ta >= 0, "negative time advance %g", ta);
        if (late) CHECK(ta == 0, "output is due at once but the time advance is %g", ta);
        else CHECK(ta <= std::max(0.0, before.due - q0[0]) * (1 + 1e-12), "time advance %g although the time event is due in %g", ta, before.due - q0[0]);
        if (ta > 1e2) { note(" nothing more;"); break; }
        int act = pick(4);
        IO in;
        for (int i = pick(3); i >= 0; i--) in.push_back(adevs::PinValue<int>(s.pin, s.next++));
        s.calls.clear();
        if (act >= 2 && ta > 0) {
            bool searched = h.event_exists;
            double e = pick(8) == 0 ? 0 : ta * uni(0, 0.999);
            t += e;
            note(" input at %.17g;", t);
            h.delta_ext(e, in);
            CHECK(h.eventHappened(), "no event is said to have happened at an input");
            CHECK(!s.calls.empty(), "nothing was called at an input");
            Call &c = s.calls.back();
            CHECK(same(c.in, in), "the input was %s but the model got %s", show(in).c_str(), show(c.in).c_str());
            state(c.q, before.solution(q0, c.q[0] - q0[0]), "input");
            if (s.calls.size() == 1) {
                CHECK(c.kind == EXT, "%s at an input between events", kinds[c.kind]);
                CHECK(near(c.q[0], t - lag), "the clock of the model is %.12g at an input at time %.12g", c.q[0], t - lag);
                CHECK(near(c.e, t - last), "elapsed time %.12g passed at time %.12g, the last event was at %.12g", c.e, t, last);
                if (searched) unnoticed(q0, c.q, "input");
                pending = false;
            } else {
                note(" (event found late)");
                CHECK(s.calls.size() == 2 && s.calls[0].kind == OUTP && c.kind == CONF, "%d calls at an input", (int)s.calls.size());
                Call &o = s.calls[0];
                CHECK(o.q == c.q && o.f == c.f, "output was asked for another event than the one handled");
                CHECK(c.q[0] >= q0[0] && c.q[0] <= t - lag + 1e-9, "event located at %.12g, outside of %.12g to %.12g", c.q[0], q0[0], t - lag);
                flags(c, q0, "event found late");
                CHECK(!c.f[m], "event found late is said to be a time event");
                lag = t - c.q[0];
                missed = o.out;
                pending = true;
            }
            last = t;
            for (int i = 0; i < n; i++) CHECK(h.getState(i) == c.res[i], "the model left variable %d at %g but the state has %g", i, c.res[i], h.getState(i));
            continue;
        }
        IO out;
        t += ta;
        bool conf = act == 1;
        note(" %s at %.17g;", conf ? "input with internal event" : "internal event", t);
        h.output_func(out);
        CHECK(s.calls.size() <= 1 && (s.calls.empty() || s.calls[0].kind == OUTP), "%s called for output", s.calls.empty() ? "nothing" : kinds[s.calls.back().kind]);
        IO want;
        if (late) want = missed;
        bool ev = !s.calls.empty();
        Call o;
        Vec q1 = before.solution(q0, late ? 0 : ta);
        if (ev) {
            o = s.calls[0];
            want.insert(want.end(), o.out.begin(), o.out.end());
            state(o.q, q1, "output");
            flags(o, q0, "output");
        } else if (!late) unnoticed(q0, q1, "no event");
        bool te = before.due - q1[0] <= 0;
        if (std::fabs(before.due - q1[0]) > 1e-9) CHECK((ev && o.f[m]) == te, "time event in %g but its flag is %d", before.due - q1[0], (int)(ev && o.f[m]));
        else CHECK(ev && o.f[m], "time event is due but not handled");
        CHECK(same(out, want), "output is %s, not %s", show(out).c_str(), show(want).c_str());
        s.calls.clear();
        if (conf) h.delta_conf(in); else h.delta_int();
        if (!ev && !conf) {
            CHECK(s.calls.empty(), "%s called without an event", kinds[s.calls[0].kind]);
            state(vec(h), q1, "no event");
            if (!late) CHECK(!h.eventHappened(), "an event is said to have happened");
        } else {
            CHECK(s.calls.size() == 1, "%d calls at an event", (int)s.calls.size());
            Call &c = s.calls[0];
            int k = !conf ? INT : ev ? CONF : EXT;
            CHECK(c.kind == k, "%s called instead of %s", kinds[c.kind], kinds[k]);
            if (conf) CHECK(same(c.in, in), "the input was %s but the model got %s", show(in).c_str(), show(c.in).c_str());
            if (ev) CHECK(o.q == c.q && o.f == c.f, "output was asked for another event than the one handled");
            else CHECK(near(c.e, t - last), "elapsed time %.12g passed at time %.12g, the last event was at %.12g", c.e, t, last);
            state(c.q, q1, kinds[k]);
            for (int i = 0; i < n; i++) CHECK(h.getState(i) == c.res[i], "the model left variable %d at %g but the state has %g", i, c.res[i], h.getState(i));
            CHECK(h.eventHappened(), "no event is said to have happened");
            last = t;
        }
        pending = false;
    }
    hp->~HY();
}
int main(int argc, char **argv) {
    init(argc, argv);
    while (!timeup() || cases < 300) {
        run();
        if (++cases > 200000) break;
    }
    return done();
}
