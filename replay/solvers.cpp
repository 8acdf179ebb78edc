// Replay for the integrators and event locators: free steps against the method's formula, exact intervals and events
// on systems whose solution is known, storage by counting.
// flags: -fno-access-control
#include "common.h"
#include "adevs/adevs.h"
#include "adevs/solvers/hybrid.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/event_locators.h"
#include "adevs/solvers/spline.h"
#include <cmath>
#include <memory>
#include <new>
#include <vector>
using namespace rp;
static long live = 0;
void *operator new[](size_t n) { live++; return malloc(n ? n : 1); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) live--; free(p); }
typedef std::vector<double> Vec;
static double uni(double a, double b) { return a + (b - a) * (double)(rnd() >> 11) / 9007199254740992.0; }
static double lg(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }

struct Sys : adevs::ode_system<int> {
    bool exact;                       // q[0] is a clock, the others integrate a + b*clock
    Vec a, b, c, w;
    std::vector<int> kind, comp;
    Vec scale, level;
    std::vector<std::pair<double, Vec>> log;
    Sys(int n, int m, bool ex) : ode_system<int>(n, m), exact(ex) {
        for (int i = 0; i < n; i++) { a.push_back(uni(-3, 3)); b.push_back(pick(3) ? uni(-4, 4) : 0); c.push_back(pick(2) ? uni(-2, 2) : 0); w.push_back(uni(0.1, 3)); }
        for (int i = 0; i < m; i++) { kind.push_back(pick(4)); comp.push_back(pick(n)); scale.push_back(uni(0.2, 3) * (pick(2) ? 1 : -1)); level.push_back(uni(-2, 2)); }
    }
    void init(double *) {}
    void der_func(double const *q, double *dq) {
        int n = numVars();
        for (int i = 0; i < n; i++) {
            if (exact) dq[i] = i == 0 ? 1.0 : a[i] + b[i] * q[0];
            else dq[i] = a[i] + b[i] * q[(i + 1) % n] - w[i] * q[i] + c[i] * std::sin(q[i] + i);
        }
    }
    Vec solution(Vec const &q, double h) const {
        Vec r(q);
        for (int i = 0; i < numVars(); i++) r[i] = i == 0 ? q[0] + h : q[i] + a[i] * h + b[i] * (q[0] * h + h * h / 2);
        return r;
    }
    double zf(double const *q, int i) const {
        switch (kind[i]) {
            case 0: return scale[i] * (q[0] - level[i]);
            case 1: return scale[i] * (q[comp[i]] - level[i]);
            case 2: return scale[i] * std::sin(2 * q[0] + level[i]);
            default: return jump ? (q[0] < level[i] ? -scale[i] : scale[i]) : scale[i] * (q[0] - level[i]) * (q[0] - level[i] - 0.3);
        }
    }
    bool jump = false;
    void state_event_func(double const *q, double *z) {
        Vec v;
        for (int i = 0; i < numEvents(); i++) { z[i] = zf(q, i); v.push_back(z[i]); }
        log.push_back({q[0], v});
    }
    double time_event_func(double const *) { return 1e9; }
    void internal_event(double *, bool const *) {}
    void external_event(double *, double, std::list<adevs::PinValue<int>> const &) {}
    void confluent_event(double *, bool const *, std::list<adevs::PinValue<int>> const &) {}
    void output_func(double const *, bool const *, std::list<adevs::PinValue<int>> &) {}
};

struct Method { int s; double A[6][6]; double b[6], e[6]; };
static const Method RK = {6, {{0}, {1.0 / 2}, {1.0 / 4, 1.0 / 4}, {0, -1, 2}, {7.0 / 27, 10.0 / 27, 0, 1.0 / 27}, {28.0 / 625, -1.0 / 5, 546.0 / 625, 54.0 / 625, -378.0 / 625}},
    {1.0 / 24, 0, 0, 5.0 / 48, 27.0 / 56, 125.0 / 336}, {1.0 / 8, 0, 2.0 / 3, 1.0 / 16, -27.0 / 56, -125.0 / 336}};
static const Method CE = {2, {{0}, {1.0 / 2}}, {0, 1}, {1, -1}};

static Vec step(Method const &m, Sys &s, Vec const &q, double h, double &err, double &mag) {
    int n = s.numVars();
    std::vector<Vec> k;
    mag = 1;
    for (int i = 0; i < m.s; i++) {
        Vec t(q), d(n);
        for (int j = 0; j < n; j++) for (int l = 0; l < i; l++) t[j] += m.A[i][l] * k[l][j];
        s.der_func(t.data(), d.data());
        for (int j = 0; j < n; j++) { d[j] *= h; mag = std::max({mag, std::fabs(d[j]), std::fabs(t[j])}); }
        k.push_back(d);
    }
    Vec r(q);
    err = 0;
    for (int j = 0; j < n; j++) {
        double e = 0;
        for (int i = 0; i < m.s; i++) { r[j] += m.b[i] * k[i][j]; e += m.e[i] * k[i][j]; }
        err = std::max(err, std::fabs(e));
    }
    return r;
}
template <class S> static void integrator(const char *name, Method const &m) {
    int n = pick(6);
    Sys s(n, 0, false);
    double tol = lg(1e-7, 1), hmax = lg(1e-3, 5);
    begin("%s, %d variables, tolerance %g, largest step %g:", name, n, tol, hmax);
    long l0 = live;
    {
        S sol(&s, tol, hmax);
        double hc = hmax;
        for (int i = 0; i < 6; i++) {
            Vec q(n);
            for (auto &x : q) x = uni(-3, 3);
            Vec q0(q);
            double lim = pick(8) == 0 ? 0 : lg(1e-4, 10);
            note(" integrate up to %g;", lim);
            double h = sol.integrate(q.data(), lim), err, mag;
            CHECK(h >= 0 && h <= lim, "step of %g where at most %g was asked", h, lim);
            CHECK(h <= hmax, "step of %g where the largest step is %g", h, hmax);
            CHECK(lim == 0 || h > 0, "no progress");
            CHECK(h <= hc * 1.1 * (1 + 1e-12), "step of %g after one of %g", h, hc);
            Vec r = step(m, s, q0, h, err, mag);
            for (int j = 0; j < n; j++) CHECK(std::fabs(q[j] - r[j]) <= 1e-9 * mag, "variable %d is %.12g after a step of %g from %.12g, the method gives %.12g", j, q[j], h, q0[j], r[j]);
            CHECK(err <= tol * (1 + 1e-6) + 1e-12 * mag, "accepted a step with error estimate %g, tolerance %g", err, tol);
            hc = sol.h_cur;
        }
    }
    CHECK(live == l0, "%ld arrays are not released on destruction", live - l0);
    // exact interval
    n = 1 + pick(5);
    Sys x(n, 0, true);
    tol = lg(1e-5, 1);
    hmax = lg(1e-2, 5);
    begin("%s, %d variables, tolerance %g, largest step %g:", name, n, tol, hmax);
    S sol(&x, tol, hmax);
    for (int i = 0; i < 4; i++) {
        Vec q(n);
        for (auto &y : q) y = uni(-3, 3);
        double h = pick(8) == 0 ? 0 : lg(1e-3, 8);
        Vec r = x.solution(q, h);
        note(" advance by %g from time %g;", h, q[0]);
        sol.advance(q.data(), h);
        for (int j = 0; j < n; j++) CHECK(std::fabs(q[j] - r[j]) <= 1e-7 * (1 + std::fabs(r[j]) + h), "variable %d is %.12g after advancing by %g, not %.12g", j, q[j], h, r[j]);
    }
}
static int sgn(double x) { return x < 0 ? -1 : x > 0; }
static void locator() {
    int kind = pick(6), n = 1 + pick(4), m = kind == 5 ? 0 : pick(8) == 0 ? 0 : 1 + pick(4);
    static const char *nm[] = {"bisection", "linear", "discontinuous", "fast", "fast with interpolation", "null"};
    Sys s(n, m, true);
    s.jump = kind >= 2;
    double tol = lg(1e-6, 1e-1);
    begin("%s event locator, %d variables, %d event functions, tolerance %g:", nm[kind], n, m, tol);
    long l0 = live;
    {
        adevs::rk_45<int> sol(&s, 1e-6, uni(0.05, 2));
        std::unique_ptr<adevs::event_locator<int>> f;
        if (kind == 0) f.reset(new adevs::bisection_event_locator<int>(&s, tol));
        else if (kind == 1) f.reset(new adevs::linear_event_locator<int>(&s, tol));
        else if (kind == 2) f.reset(new adevs::discontinuous_event_locator<int>(&s, tol));
        else if (kind <= 4) f.reset(new adevs::fast_event_locator<int>(&s, tol, kind == 4));
        else f.reset(new adevs::null_event_locator<int>());
        for (int it = 0; it < 5; it++) {
            Vec q0(n);
            for (auto &x : q0) x = uni(-3, 3);
            double h0 = lg(1e-3, 2), h = h0;
            if (kind != 0 && kind != 1 && m && pick(6) == 0) q0[0] = s.level[0];
            Vec qs(q0), qe = s.solution(q0, h0), qe0(qe);
            note(" find_events from time %.17g over %.17g;", q0[0], h0);
            std::unique_ptr<bool[]> ev(new bool[m + 1]);
            for (int i = 0; i <= m; i++) ev[i] = pick(2);
            bool last = ev[m];
            s.log.clear();
            bool r = f->find_events(ev.get(), qs.data(), qe.data(), &sol, h);
            CHECK(qs == q0, "the state at the start was changed");
            CHECK(ev[m] == last, "the flag behind the last event was changed");
            CHECK(h <= h0 && h > 0, "step of %g became %g", h0, h);
            Vec z0(m), z1(m);
            for (int i = 0; i < m; i++) { z0[i] = s.zf(q0.data(), i); z1[i] = s.zf(qe.data(), i); }
            if (kind != 4) {
                Vec e = s.solution(q0, h);
                for (int j = 0; j < n; j++) CHECK(std::fabs(qe[j] - e[j]) <= 1e-6 * (1 + std::fabs(e[j])), "variable %d is %.12g for a step of %.12g, the solution is %.12g", j, qe[j], h, e[j]);
            } else if (r) {
                Vec d0(n), d1(n);
                s.der_func(q0.data(), d0.data()); s.der_func(qe0.data(), d1.data());
                double t = h / h0;
                for (int j = 0; j < n; j++) {
                    double e = (1 + 2 * t) * (1 - t) * (1 - t) * q0[j] + t * (1 - t) * (1 - t) * h0 * d0[j] + t * t * (3 - 2 * t) * qe0[j] + t * t * (t - 1) * h0 * d1[j];
                    CHECK(std::fabs(qe[j] - e) <= 1e-6 * (1 + std::fabs(e)), "variable %d is %.12g for a step of %.12g, interpolation gives %.12g", j, qe[j], h, e);
                }
            }
            if (kind == 5 || m == 0) {
                CHECK(!r && h == h0 && qe == qe0, "something located without event functions");
                continue;
            }
            if (kind >= 3) {
                if (!r) {
                    CHECK(h == h0 && qe == qe0, "no event reported but the step or state changed");
                    for (int i = 0; i < m; i++) CHECK(z0[i] * z1[i] > 0 && !ev[i], "no event reported but event function %d goes from %g to %g, flag %d", i, z0[i], z1[i], (int)ev[i]);
                } else {
                    bool any = false;
                    for (int i = 0; i < m; i++) {
                        CHECK(ev[i] == (z0[i] * z1[i] <= 0), "event function %d goes from %g to %g but its flag is %d", i, z0[i], z1[i], (int)ev[i]);
                        any |= ev[i];
                    }
                    CHECK(any, "event reported but none marked");
                    bool ok = h < tol * (1 + 1e-9);
                    for (auto &l : s.log) {
                        double t = l.first - q0[0];
                        bool clear = t >= -1e-9 && t <= h + 1e-9 && h - t < tol + 1e-9;
                        for (int i = 0; i < m && clear; i++) clear = z0[i] * l.second[i] > 0;
                        ok |= clear;
                    }
                    CHECK(ok, "event reported at %.12g but no instant within %g before it is known to be before the event", h, tol);
                }
            } else {
                for (int i = 0; i < m; i++) {
                    bool ch = sgn(z0[i]) != sgn(z1[i]);
                    if (!r) CHECK(!ch, "no event reported over %g but event function %d goes from %g to %g", h, i, z0[i], z1[i]);
                    if (r) CHECK(ev[i] == ch, "event function %d goes from %g to %g but its flag is %d", i, z0[i], z1[i], (int)ev[i]);
                    if (r && ch) {
                        if (kind == 2) CHECK(h <= tol, "event of a discontinuous function reported after %g, tolerance %g", h, tol);
                        else CHECK(std::fabs(z1[i]) <= tol, "event function %d is reported at %g, tolerance %g", i, z1[i], tol);
                    }
                }
                bool any = false;
                for (int i = 0; i < m; i++) any |= r && ev[i];
                CHECK(!r || any, "event reported but none marked");
            }
        }
    }
    l0 -= 0;
    if (want("C18")) {
        long l1 = live;
        { adevs::fast_event_locator<int> a(&s, tol, true); adevs::bisection_event_locator<int> b(&s, tol); adevs::fast_event_locator<int> c(&s, tol, false); }
        CHECK(live == l1, "%ld arrays of event locators are not released", live - l1);
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    while (!timeup() || cases < 300) {
        if (want("C17")) { integrator<adevs::rk_45<int>>("rk_45", RK); integrator<adevs::corrected_euler<int>>("corrected_euler", CE); }
        if (want("C18")) locator();
        if (++cases > 200000) break;
    }
    return done();
}
