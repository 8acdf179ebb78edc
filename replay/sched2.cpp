// Replay for the second schedule: random histories against a plain map of times.
#include "common.h"
#include "adevs/models.h"
#include "adevs/schedule2.h"
#include <map>
#include <vector>
using namespace rp;
typedef adevs::Atomic<int> A;
struct M : A {
    double t;
    M(double t) : t(t) {}
    double ta() { return t; }
    void delta_int() {}
    void delta_ext(double, std::list<adevs::PinValue<int>> const &) {}
    void delta_conf(std::list<adevs::PinValue<int>> const &) {}
    void output_func(std::list<adevs::PinValue<int>> &) {}
};
static void run() {
    int n = 1 + pick(pick(4) ? 9 : 60), len = 10 + pick(120);
    begin("schedule with %d models:", n);
    adevs::Schedule<int> q;
    std::vector<std::shared_ptr<M>> m;
    std::map<A *, double> spec;
    auto time = [&] { return pick(8) == 0 ? adevs_inf<double>() : (double)pick(n); };
    for (int i = 0; i < n; i++) m.push_back(std::make_shared<M>(time()));
    auto idx = [&](A *x) { for (int i = 0; i < n; i++) if (m[i].get() == x) return i; return -1; };
    for (int k = 0; k < len; k++) {
        int i = pick(n), op = pick(8);
        bool in = spec.count(m[i].get()) > 0, thrown = false;
        try {
            if (op <= 1) { m[i]->t = time(); note(" add(%d,%g)", i, m[i]->t); if (in) m[i]->t = spec[m[i].get()]; q.add(m[i]); spec[m[i].get()] = m[i]->t; CHECK(!in, "an active model is added again"); }
            else if (op == 2) { note(" remove(%d)", i); q.remove(m[i]); CHECK(in, "an inactive model is removed"); spec.erase(m[i].get()); }
            else if (op <= 4) { double old = m[i]->t; m[i]->t = time(); note(" update(%d,%g)", i, m[i]->t); if (!in) m[i]->t = old; q.update(m[i]); CHECK(in, "an inactive model is updated"); spec[m[i].get()] = m[i]->t; }
            else if (op == 5 && !spec.empty()) {
                A *x = q.get_next().get();
                note(" remove_next(%d)", idx(x));
                q.remove_next();
                spec.erase(x);
            } else if (op == 7) { note(" update_all"); q.update_all(); }
            else if (op == 6 && pick(20) == 0) { note(" clear"); q.clear(); spec.clear(); }
        } catch (adevs::exception &) { thrown = true; }
        CHECK(!thrown || (op <= 1 ? in : !in), "a permitted request is refused");
        CHECK(q.size() == spec.size() && q.empty() == spec.empty(), "size is %d, not %d", (int)q.size(), (int)spec.size());
        double least = adevs_inf<double>();
        for (auto &s : spec) if (s.second < least) least = s.second;
        CHECK(q.get_minimum() == least, "the minimum is %g, not %g", q.get_minimum(), least);
        auto x = q.get_next();
        if (spec.empty()) CHECK(!x, "an empty schedule has a next model");
        else CHECK(x && spec.count(x.get()) && spec[x.get()] == least, "model %d is next, though it is not one of the next", idx(x.get()));
    }
    cases++;
}
int main(int argc, char **argv) {
    init(argc, argv);
    for (unsigned i = 0; !timeup() && i < 20000; i++) { seed(rnd() + i); run(); }
    return done();
}
