// Replay for the time types, the time constants and pins.
#include "common.h"
#include "adevs/adevs.h"
#include <cmath>
#include <limits>
#include <set>
#include <thread>
#include <vector>
using namespace rp;
using adevs::sd_time;
double adevs::double_fcmp::epsilon = 0.0;

template <class T> void sd() {
    std::vector<T> ts = {T(0), T(1), T(2), T(7), T(-1), T(1000000)};
    std::vector<int> ks = {0, 1, 2, 5, 100, -1};
    std::vector<sd_time<T>> v;
    for (T t : ts) for (int k : ks) v.push_back(sd_time<T>(t, k));
    for (int i = 0; i < 30; i++) v.push_back(sd_time<T>(T(pick(50)), pick(50)));
    begin("sd_time");
    sd_time<T> z;
    CHECK(z.real() == 0 && z.integer() == 0, "default sd_time is not (0,0)");
    for (auto &a : v) for (auto &b : v) {
        begin("sd_time (%g,%g) and (%g,%g)", (double)a.real(), a.integer(), (double)b.real(), b.integer());
        bool lt = a.real() < b.real() || (a.real() == b.real() && a.integer() < b.integer());
        bool eq = a.real() == b.real() && a.integer() == b.integer();
        CHECK((a < b) == lt, "<"); CHECK((a == b) == eq, "=="); CHECK((a != b) == !eq, "!=");
        CHECK((a <= b) == (lt || eq), "<="); CHECK((a > b) == (!lt && !eq), ">"); CHECK((a >= b) == !lt, ">=");
        sd_time<T> s = a + b, d = a - b, s2 = a, d2 = a, c(a), as;
        const sd_time<T> &r1 = (s2 += b);
        const sd_time<T> &r2 = (d2 -= b);
        as = b;
        T et = b.real() == 0 ? a.real() : a.real() + b.real();
        double ek = b.real() == 0 ? a.integer() + b.integer() : b.integer();
        CHECK(s.real() == et && s.integer() == ek, "+ gives (%g,%g)", (double)s.real(), s.integer());
        T dt = a.real() == b.real() ? T(0) : a.real() - b.real();
        double dk = a.real() == b.real() ? a.integer() - b.integer() : a.integer();
        CHECK(d.real() == dt && d.integer() == dk, "- gives (%g,%g)", (double)d.real(), d.integer());
        CHECK(s2 == s && d2 == d && r1 == s && r2 == d && &r1 == &s2 && &r2 == &d2, "compound assignment differs");
        CHECK(c == a && as == b, "copy or assignment");
        sd_time<T> x = a; x += x; CHECK(x == a + a, "x += x");
        sd_time<T> z = a; z = z; CHECK(z == a, "x = x"); z -= z; CHECK(z == a - a, "x -= x");
        x = a; x -= x; CHECK(x == a - a, "x -= x");
        if (a <= b) CHECK(a + (b - a) == b, "a + (b - a) is not b");
        sd_time<T> e = adevs_epsilon<sd_time<T>>();
        CHECK(a < a + e, "epsilon does not advance time");
        if (a < b) CHECK(a + e <= b, "epsilon is not the least step");
        cases++;
    }
}
int ref_fcmp(double a, double b, double eps) {
    double m = std::fabs(a) > std::fabs(b) ? a : b;
    int e; std::frexp(m, &e);
    double d = std::ldexp(eps, e), x = a - b;
    return x > d ? 1 : x < -d ? -1 : 0;
}
void fc() {
    using D = adevs::double_fcmp;
    std::vector<double> v = {0, 1, -1, 1.0000001, 0.9999999, 2, 1e10, 1e10 + 1, -1e10, 1e-10, 1.5, 2.5, 3, 4, 4.0001, -4, 1e300, 1e-300, 0.1, 0.2, 0.3, 0.1 + 0.2};
    for (int i = 0; i < 40; i++) v.push_back((pick(2) ? 1 : -1) * std::ldexp(1 + pick(1000) / 1000.0, (int)pick(12) - 6));
    for (double eps : {0.0, 1e-12, 1e-6, 1e-3, 0.1, 0.5}) {
        D::epsilon = eps;
        for (double a : v) for (double b : v) {
            begin("double_fcmp a=%.17g b=%.17g epsilon=%g", a, b, eps);
            int r = ref_fcmp(a, b, eps);
            CHECK(D::fcmp(a, b, eps) == r, "fcmp gives %d, expected %d", D::fcmp(a, b, eps), r);
            CHECK(D::fcmp(b, a, eps) == -r, "fcmp is not antisymmetric");
            D x(a), y(b);
            const D &cx = x;
            CHECK((cx < y) == (r < 0) && (cx <= y) == (r <= 0) && (cx > y) == (r > 0) && (cx >= y) == (r >= 0) && (cx == y) == (r == 0), "comparison operators");
            CHECK((cx.operator<(b)) == (r < 0) && (cx.operator==(b)) == (r == 0), "comparison with double");
            CHECK(double(x + y) == a + b && double(x - y) == a - b, "sum or difference");
            D p(a), q(a); p += y; q -= y;
            CHECK(double(p) == a + b && double(q) == a - b, "compound assignment");
            D c(x), w; w = y; CHECK(double(c) == a && double(w) == b, "copy");
            w = a; CHECK(double(w) == a, "assignment from double");
            cases++;
        }
    }
}
template <class T> void con(const char *n, T inf, T zero, T sent, T eps) {
    begin("time constants of %s", n);
    CHECK(adevs_inf<T>() == inf, "infinity"); CHECK(adevs_zero<T>() == zero, "zero");
    CHECK(adevs_sentinel<T>() == sent, "sentinel"); CHECK(adevs_epsilon<T>() == eps, "epsilon");
    cases++;
}
template <class T> using lim = std::numeric_limits<T>;
void pins() {
    begin("pins");
    std::vector<adevs::pin_t> p(300);
    std::set<adevs::pin_t> s(p.begin(), p.end());
    CHECK(s.size() == p.size(), "two pins with the same identity");
    for (int i = 0; i < 60; i++) for (int j = 0; j < 60; j++) {
        CHECK((p[i] == p[j]) == (i == j) && (p[i] != p[j]) == (i != j), "pin equality %d %d", i, j);
        CHECK((p[i] < p[j]) == (i < j) && (p[i] > p[j]) == (i > j) && (p[i] <= p[j]) == (i <= j) && (p[i] >= p[j]) == (i >= j), "pin order %d %d", i, j);
        adevs::pin_t c(p[i]), a; a = p[j];
        CHECK(c == p[i] && a == p[j], "copy loses identity");
        cases++;
    }
    adevs::PinValue<int> v(p[3], 42), w(v), x;
    x = w;
    CHECK(v.pin == p[3] && v.value == 42 && w.pin == p[3] && w.value == 42 && x.pin == p[3] && x.value == 42, "PinValue copy");
    for (int rep = 0; rep < 6; rep++) {
        begin("pins created by 4 threads");
        std::vector<std::vector<adevs::pin_t>> per(4);
        std::vector<std::thread> th;
        for (int i = 0; i < 4; i++) th.emplace_back([&per, i] { for (int k = 0; k < 20000; k++) per[i].emplace_back(); });
        for (auto &t : th) t.join();
        std::set<adevs::pin_t> all;
        for (auto &l : per) all.insert(l.begin(), l.end());
        CHECK(all.size() == 80000, "threads received the same pin identity");
        cases++;
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    if (want("C12")) { sd<double>(); sd<int>(); sd<long>(); }
    if (want("C13")) fc();
    if (want("C14")) {
        con<float>("float", lim<float>::max(), 0, -1, 0); con<double>("double", lim<double>::max(), 0, -1, 0);
        con<long double>("long double", lim<long double>::max(), 0, -1, 0);
        con<int>("int", lim<int>::max(), 0, -1, 0); con<long>("long", lim<long>::max(), 0, -1, 0);
        con<sd_time<double>>("sd_time<double>", {lim<double>::max(), lim<int>::max()}, {0, 0}, {-1, 0}, {0, 1});
        con<sd_time<int>>("sd_time<int>", {lim<int>::max(), lim<int>::max()}, {0, 0}, {-1, 0}, {0, 1});
        con<sd_time<long>>("sd_time<long>", {lim<long>::max(), lim<int>::max()}, {0, 0}, {-1, 0}, {0, 1});
        adevs::double_fcmp::epsilon = 0;
        con<adevs::double_fcmp>("double_fcmp", lim<double>::max(), 0, -1, 0);
    }
    if (want("C15")) pins();
    return done();
}
