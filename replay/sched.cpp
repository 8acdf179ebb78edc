// Replay for the schedule: every public operation against a map from model to time.
#include "common.h"
#include "adevs/adevs.h"
#include <algorithm>
#include <map>
#include <set>
#include <vector>
using namespace rp;

template <class T> struct M : adevs::Atomic<int, T> {
    void delta_int() {}
    void delta_ext(T, std::list<adevs::PinValue<int>> const &) {}
    void delta_conf(std::list<adevs::PinValue<int>> const &) {}
    void output_func(std::list<adevs::PinValue<int>> &) {}
    T ta() { return adevs_inf<T>(); }
};

template <class T> struct World {
    std::vector<M<T>> ms;
    adevs::Schedule<int, T> s;
    std::map<adevs::Atomic<int, T> *, T> ref;
    World(int n, unsigned cap) : ms(n), s(cap) {}
    void check() {
        CHECK(s.empty() == ref.empty(), "empty() disagrees with the scheduled models");
        CHECK(s.getSize() == ref.size(), "getSize() is %u, %zu models are scheduled", s.getSize(), ref.size());
        if (ref.empty()) {
            CHECK(!(s.minPriority() < adevs_inf<T>()), "empty schedule, finite minimum");
        } else {
            T mn = adevs_inf<T>();
            for (auto &p : ref) if (p.second < mn) mn = p.second;
            CHECK(s.minPriority() == mn, "minPriority() is not the least time");
            CHECK(ref.count(s.getMinimum()) && ref[s.getMinimum()] == mn, "getMinimum() is not a model of least time");
        }
    }
    void imminent() {
        auto l = s.visitImminent();
        std::vector<adevs::Atomic<int, T> *> got(l.begin(), l.end()), want;
        T mn = adevs_inf<T>();
        for (auto &p : ref) if (p.second < mn) mn = p.second;
        for (auto &p : ref) if (p.second == mn) want.push_back(p.first);
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        CHECK(got == want, "imminent set: got %zu models, expected %zu (or different ones)", got.size(), want.size());
    }
    void sched(int m, T t) {
        s.schedule(&ms[m], t);
        if (t < adevs_inf<T>()) ref[&ms[m]] = t; else ref.erase(&ms[m]);
    }
    void remove() {
        if (!ref.empty()) {
            auto m = s.getMinimum();
            ref.erase(m);
        }
        s.removeMinimum();
    }
};

template <class T> T mk(int k) { return k < 0 ? adevs_inf<T>() : T(k); }
template <> adevs::sd_time<double> mk(int k) {
    return k < 0 ? adevs_inf<adevs::sd_time<double>>() : adevs::sd_time<double>(k / 3, k % 3);
}

template <class T> void random_run(const char *tn, int n, unsigned cap, int span, int steps, bool drain) {
    begin("Schedule<%s>(%u) with %d models:", tn, cap, n);
    World<T> w(n, cap);
    for (int i = 0; i < steps; i++) {
        unsigned r = pick(100);
        if (r < 75) {
            int m = pick(n), t = pick(100) < 18 ? -1 : (int)pick(span);
            note(" schedule(m%d,%d)", m, t);
            w.sched(m, mk<T>(t));
        } else if (r < 90) {
            note(" removeMinimum()");
            w.remove();
        } else {
            note(" visitImminent()");
            w.imminent();
        }
        w.check();
    }
    w.imminent();
    if (drain) {
        note(" then removeMinimum() until empty");
        while (!w.ref.empty()) { w.remove(); w.check(); if (w.ref.size() % 7 == 0) w.imminent(); }
    }
    cases++;
}

// every sequence of operations up to a length over few models and times
template <class T> void exhaustive(const char *tn, int n, int times, int len) {
    int ops = n * (times + 1) + 1;
    long total = 1;
    for (int i = 0; i < len; i++) total *= ops;
    for (long c = 0; c < total; c++) {
        begin("Schedule<%s>(2) with %d models:", tn, n);
        World<T> w(n, 2);
        long x = c;
        for (int i = 0; i < len; i++) {
            int o = x % ops;
            x /= ops;
            if (o == ops - 1) { note(" removeMinimum()"); w.remove(); }
            else { int m = o / (times + 1), t = o % (times + 1) - 1; note(" schedule(m%d,%d)", m, t); w.sched(m, mk<T>(t)); }
            w.check();
            w.imminent();
        }
        cases++;
        if (timeup()) return;
    }
}

int main(int argc, char **argv) {
    init(argc, argv);
    double b = budget;
    budget = b * 0.4;
    exhaustive<double>("double", 3, 3, 4);
    exhaustive<int>("int", 2, 2, 5);
    budget = b;
    while (!timeup() || cases < 200) {
        int n = 1 + pick(pick(4) == 0 ? 400 : 25);
        unsigned cap = pick(3) == 0 ? 100 : 2 + pick(5);
        int span = 1 + pick(pick(2) ? 4 : 2000);
        int steps = 20 + pick(300) + (n > 100 ? 3 * n : 0);
        switch (pick(3)) {
            case 0: random_run<double>("double", n, cap, span, steps, pick(2)); break;
            case 1: random_run<int>("int", n, cap, span, steps, pick(2)); break;
            default: random_run<adevs::sd_time<double>>("sd_time<double>", n, cap, span, steps, pick(2)); break;
        }
        if (cases > 100000) break;
    }
    return done();
}
