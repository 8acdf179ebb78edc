// Replay for the implicit trapezoidal integrator: steps against the equation of the rule, the matrix handed to KINSOL against
// finite differences, exact intervals on systems whose solution the rule reproduces.
// flags: -fno-access-control -lsundials_kinsol -lsundials_nvecserial -lsundials_sunlinsoldense -lsundials_sunmatrixdense -lsundials_generic
#include "common.h"
#include "adevs/adevs.h"
#include "adevs/solvers/trap.h"
#include <cmath>
#include <memory>
#include <new>
#include <vector>
using namespace rp;
static long live = 0;
void *operator new[](size_t n) { live++; return malloc(n ? n : 1); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) live--; free(p); }
typedef std::vector<double> Vec;
static double uni(double a, double b) { return a + (b - a) * (double)(rnd() >> 11) / 9007199254740992.0; }
static double lg(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
struct Sys : adevs::ode_system<int> {
    bool lines, known;                 // lines: q[0] is a clock, the others have a derivative linear in it
    Vec A, b, c;
    Sys(int n, bool l, bool k) : ode_system<int>(n, 0), lines(l), known(k) {
        for (int i = 0; i < n * n; i++) A.push_back(pick(3) ? uni(-1.5, 1.5) : 0);
        for (int i = 0; i < n; i++) { A[i * n + i] -= pick(4) ? 1 : 20; b.push_back(uni(-3, 3)); c.push_back(pick(2) ? uni(-1, 1) : 0); }
    }
    void init(double *) {}
    void der_func(double const *q, double *dq) {
        int n = numVars();
        for (int i = 0; i < n; i++) {
            if (lines) { dq[i] = i == 0 ? 1.0 : b[i] + A[i * n] * q[0]; continue; }
            dq[i] = b[i] + c[i] * std::sin(q[i]);
            for (int j = 0; j < n; j++) dq[i] += A[i * n + j] * q[j];
        }
    }
    bool get_jacobian(double const *q, double *J) {
        if (!known) return false;
        if (!J) return true;
        int n = numVars();
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                J[j * n + i] = lines ? (i && j == 0 ? A[i * n] : 0) : A[i * n + j] + (i == j ? c[i] * std::cos(q[i]) : 0);
        return true;
    }
    Vec solution(Vec const &q, double h) const {
        Vec r(q);
        int n = (int)q.size();
        for (int i = 0; i < n; i++) r[i] = i == 0 ? q[0] + h : q[i] + b[i] * h + A[i * n] * (q[0] * h + h * h / 2);
        return r;
    }
    void state_event_func(double const *, double *) {}
    double time_event_func(double const *) { return 1e9; }
    void internal_event(double *, bool const *) {}
    void external_event(double *, double, std::list<adevs::PinValue<int>> const &) {}
    void confluent_event(double *, bool const *, std::list<adevs::PinValue<int>> const &) {}
    void output_func(double const *, bool const *, std::list<adevs::PinValue<int>> &) {}
};
typedef adevs::trap<int> T;
// KINSOL accepts a residual below the cube root of the machine precision (scaled steps below its 2/3 power end it, too)
static const double RTOL = 1e-5;
static Vec residual(Sys &s, Vec const &q, Vec const &w, double h) {
    int n = s.numVars();
    Vec d0(n), d1(n), r(n);
    Vec a(q), b(w);
    s.der_func(a.data(), d0.data());
    s.der_func(b.data(), d1.data());
    for (int i = 0; i < n; i++) r[i] = q[i] + h / 2 * (d0[i] + d1[i]) - w[i];
    return r;
}
static void steps() {
    int n = 1 + pick(5);
    Sys s(n, false, pick(3) > 0);
    double tol = lg(1e-6, 1), hmax = lg(1e-2, 2);
    begin("trap, %d variables, %s, tolerance %g, largest step %g:", n, s.known ? "derivatives known" : "derivatives approximated", tol, hmax);
    long l0 = live;
    {
        T sol(&s, tol, hmax, true);
        CHECK(sol.h_cur == hmax, "the first planned step is %g, not %g", sol.h_cur, hmax);
        CHECK(sol.kinsol_data.self == &sol, "not registered");
        for (int i = 0; i < n; i++) CHECK(N_VGetArrayPointer(sol.scale)[i] == 1.0, "scale of variable %d is %g", i, N_VGetArrayPointer(sol.scale)[i]);
        for (int it = 0; it < 6; it++) {
            Vec q(n);
            for (auto &x : q) x = uni(-3, 3);
            Vec q0(q), d0(n);
            double plan = sol.h_cur, lim = pick(8) == 0 ? 0 : lg(1e-3, 4);
            note(" integrate up to %g;", lim);
            double h = sol.integrate(q.data(), lim);
            CHECK(h >= 0 && h <= lim && h <= hmax && h <= plan, "step of %.17g where %g was asked, %g is allowed and %g planned", h, lim, hmax, plan);
            CHECK(lim == 0 || h > 0, "no progress");
            if (h == 0) { CHECK(q == q0, "state changed in no time"); continue; }
            Vec r = residual(s, q0, q, h);
            for (int i = 0; i < n; i++) CHECK(std::fabs(r[i]) <= RTOL, "after a step of %g the equation of the trapezoidal rule is off by %g in variable %d", h, r[i], i);
            s.der_func(q0.data(), d0.data());
            CHECK(sol.h_cur > 0 && sol.h_cur <= hmax, "next planned step is %g, the largest %g", sol.h_cur, hmax);
            for (int i = 0; i < n; i++) {
                double e = std::fabs(q0[i] + h * d0[i] - q[i]);
                CHECK(e / (h * h) < 2.5e-38 || sol.h_cur * sol.h_cur * e <= tol * h * h * (1 + 1e-9), "next planned step is %g, which gives an error of %g in variable %d; the limit is %g", sol.h_cur, sol.h_cur * sol.h_cur * e / (h * h), i, tol);
            }
        }
    }
    CHECK(live == l0, "%ld arrays are not released on destruction", live - l0);
}
// a step that cannot be solved leaves the state alone; integrate goes on with a smaller one
struct Wall : Sys {
    double hard;
    T *t = nullptr;
    int failed = 0;
    Wall(int n, double h) : Sys(n, false, true), hard(h) {}
    Vec start;                         // here the derivative is the usual one
    bool plain(double const *q) const { return !t || t->kinsol_data.h <= hard || (start.size() == (size_t)numVars() && std::equal(start.begin(), start.end(), q)); }
    void der_func(double const *q, double *dq) {
        Sys::der_func(q, dq);
        double h = t ? t->kinsol_data.h : 0;
        if (!plain(q)) dq[0] = (2 / h) * (q[0] - t->k[0] + 2 + q[0] * q[0]);    // the residual is 2 + q0^2
    }
    bool get_jacobian(double const *q, double *J) {
        bool r = Sys::get_jacobian(q, J);
        double h = t ? t->kinsol_data.h : 0;
        if (J && !plain(q)) for (int j = 0; j < numVars(); j++) J[j * numVars()] = j ? 0 : (2 / h) * (1 + 2 * q[0]);
        return r;
    }
};
static void wall() {
    int n = 1 + pick(4);
    Wall s(n, lg(1e-2, 0.5));
    double tol = lg(1e-3, 1);
    begin("trap, %d variables, tolerance %g, no solution for steps above %g:", n, tol, s.hard);
    T sol(&s, tol, 1, true);
    s.t = &sol;
    for (int it = 0; it < 3; it++) {
        Vec q(n), d(n);
        for (auto &x : q) x = uni(-3, 3);
        Vec q0(q);
        s.start = q0;
        s.der_func(q.data(), d.data());
        double h = s.hard * uni(1.01, 4);
        note(" step of %g;", h);
        CHECK(!sol.step(q.data(), h, d.data()), "a step that has no solution reports success");
        for (int i = 0; i < n; i++) CHECK(q[i] == q0[i], "variable %d changed from %g to %g by a failed step", i, q0[i], q[i]);
        double lim = s.hard * lg(1.01, pick(2) ? 4 : 60);
        sol.h_cur = 1;   // the largest step
        note(" integrate up to %g;", lim);
        double h1 = sol.integrate(q.data(), lim);
        CHECK(h1 > 0 && h1 <= s.hard, "step of %g", h1);
        CHECK(sol.h_cur <= h1 && sol.h_cur > 0, "next planned step is %g after %g was needed to find a solution", sol.h_cur, h1);
        double save = s.hard;
        s.hard = 100;
        Vec r = residual(s, q0, q, h1);
        s.hard = save;
        for (int i = 0; i < n; i++) CHECK(std::fabs(r[i]) <= RTOL, "after a step of %g the equation of the trapezoidal rule is off by %g in variable %d", h1, r[i], i);
    }
}
static void equation() {
    int n = 1 + pick(5);
    Sys s(n, false, true);
    begin("trap, %d variables:", n);
    T sol(&s, 0.1, 1, true);
    sol.kinsol_data.h = lg(1e-2, 3);
    double h = sol.kinsol_data.h;
    N_Vector y = N_VClone(sol.y), f0 = N_VClone(sol.y), f1 = N_VClone(sol.y);
    double *yd = N_VGetArrayPointer(y), *a = N_VGetArrayPointer(f0), *b = N_VGetArrayPointer(f1);
    for (int i = 0; i < n; i++) { yd[i] = uni(-3, 3); sol.k[i] = uni(-3, 3); }
    Vec y0(yd, yd + n), d(n);
    note(" equation and its derivative for a step of %g;", h);
    CHECK(T::func(y, f0, &sol.kinsol_data) == 0, "the equation reports a failure");
    s.der_func(y0.data(), d.data());
    for (int i = 0; i < n; i++) {
        CHECK(yd[i] == y0[i], "variable %d changed by evaluating the equation", i);
        double e = sol.k[i] + d[i] * h / 2 - y0[i];
        CHECK(std::fabs(a[i] - e) <= 1e-9 * (1 + std::fabs(e)), "the equation gives %.12g in variable %d, not %.12g", a[i], i, e);
    }
    SUNMatrix J = SUNDenseMatrix(n, n, sol.sunctx);
    CHECK(T::jac(y, f0, J, &sol.kinsol_data, f1, f1) == 0, "the derivative reports a failure");
    double eps = 1e-6;
    for (int j = 0; j < n; j++) {
        yd[j] = y0[j] + eps; T::func(y, f0, &sol.kinsol_data);
        yd[j] = y0[j] - eps; T::func(y, f1, &sol.kinsol_data);
        yd[j] = y0[j];
        for (int i = 0; i < n; i++) {
            double e = (a[i] - b[i]) / (2 * eps), x = SUNDenseMatrix_Data(J)[j * n + i];
            CHECK(std::fabs(e - x) <= 1e-5 * (1 + std::fabs(e)), "derivative of equation %d by variable %d is given as %.9g, it is %.9g", i, j, x, e);
        }
    }
    SUNMatDestroy(J);
    N_VDestroy(y); N_VDestroy(f0); N_VDestroy(f1);
}
static void interval() {
    int n = 1 + pick(4);
    Sys x(n, true, pick(2));
    double tol = lg(1e-4, 1), hmax = lg(2e-2, 3);
    begin("trap, %d variables, tolerance %g, largest step %g:", n, tol, hmax);
    T sol(&x, tol, hmax, true);
    for (int i = 0; i < 3; i++) {
        Vec q(n);
        for (auto &y : q) y = uni(-3, 3);
        double h = pick(8) == 0 ? 0 : lg(1e-2, 4);
        Vec r = x.solution(q, h);
        note(" advance by %g from time %g;", h, q[0]);
        sol.advance(q.data(), h);
        CHECK(std::fabs(q[0] - r[0]) <= 1e-3, "advanced to %.9g, not %.9g", q[0], r[0]);
        for (int j = 0; j < n; j++) CHECK(std::fabs(q[j] - r[j]) <= 1e-3 * (1 + std::fabs(r[j]) + h), "variable %d is %.9g after advancing by %g, not %.9g", j, q[j], h, r[j]);
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    while (!timeup() || cases < 200) {
        steps(); equation(); interval(); wall();
        if (++cases > 100000) break;
    }
    return done();
}
