// Replay for coupled models: a hierarchy attached to a graph against the sets it consists of.
#include "common.h"
#include <any>
#include <atomic>
#include <cassert>
#include <cmath>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include <algorithm>
#define private public
#include "adevs/adevs.h"
#undef private
using namespace rp;
struct M : adevs::Atomic<int, double> {
    void delta_int() {}
    void delta_ext(double, std::list<adevs::PinValue<int>> const &) {}
    void delta_conf(std::list<adevs::PinValue<int>> const &) {}
    void output_func(std::list<adevs::PinValue<int>> &) {}
    double ta() { return adevs_inf<double>(); }
};
using A = std::shared_ptr<adevs::Atomic<int, double>>;
using C = adevs::Coupled<int, double>;
using G = adevs::Graph<int, double>;
struct Ref {
    std::set<int> at, sub;
    std::set<std::pair<int, int>> pa, pp;
    int parent = -1;
    bool stale = false;
};
struct World {
    std::vector<A> ms;
    std::vector<adevs::pin_t> ps;
    std::vector<std::shared_ptr<C>> cs;
    std::vector<Ref> rs;
    G g;
    bool attached = false;
    std::vector<G::graph_op> seen;
    World(int n, int p, int c) : ps(p), rs(c) {
        for (int i = 0; i < n; i++) ms.push_back(std::make_shared<M>());
        for (int i = 0; i < c; i++) cs.push_back(std::make_shared<C>());
    }
    bool live(int c) { while (c > 0) c = rs[c].parent; return c == 0 && attached; }
    bool below(int c, int top) { while (c >= 0 && c != top) c = rs[c].parent; return c == top; }
    void count(int c, std::map<int, int> &in, std::map<std::pair<int, int>, int> &pa, std::map<std::pair<int, int>, int> &pp) {
        for (int m : rs[c].at) in[m]++;
        for (auto e : rs[c].pa) pa[e]++;
        for (auto e : rs[c].pp) pp[e]++;
        for (int d : rs[c].sub) count(d, in, pa, pp);
    }
    int idx(adevs::pin_t const &p) { for (size_t i = 0; i < ps.size(); i++) if (ps[i] == p) return i; return -1; }
    int idm(A const &a) { for (size_t i = 0; i < ms.size(); i++) if (ms[i] == a) return i; return -1; }
    void check() {
        std::map<int, int> in, in2;
        std::map<std::pair<int, int>, int> pa, pp, pa2, pp2;
        if (attached) count(0, in, pa, pp);
        for (auto &x : g.atomic_instance_count) for (size_t i = 0; i < ms.size(); i++) if (ms[i].get() == x.first) in2[i] = x.second;
        for (auto &x : g.pin_to_pin) for (auto &e : x.second) pp2[{idx(x.first), idx(e.first)}] = e.second;
        for (auto &x : g.pin_to_atomic) for (auto &e : x.second) pa2[{idx(x.first), idm(e.first)}] = e.second;
        CHECK(in == in2, "models of the graph (with instance counts) are not those of the hierarchy");
        CHECK(pp == pp2, "pin to pin edges of the graph are not those of the hierarchy");
        CHECK(pa == pa2, "pin to model edges of the graph are not those of the hierarchy");
        std::set<A> w;
        for (auto &x : in) w.insert(ms[x.first]);
        CHECK(g.get_atomics() == w, "get_atomics() is not the set of components of the hierarchy");
    }
};
int main(int argc, char **argv) {
    init(argc, argv);
    while (!timeup() || cases < 200) {
        int n = 1 + pick(4), p = 2 + pick(3), c = 1 + pick(5), steps = 10 + pick(50), at = pick(steps);
        begin("Coupled: %d models, %d pins, %d coupled models; c0 is the root:", n, p, c);
        World w(n, p, c);
        for (int i = 0; i < steps; i++) {
            if (i == at) { note(" [attach c0]"); w.cs[0]->assign_to_graph(&w.g); w.attached = true; w.check(); }
            int k = pick(c);
            if (w.rs[k].stale) continue;
            auto &r = w.rs[k];
            int m = pick(n), a = pick(p), b = pick(p);
            switch (pick(10)) {
                case 0: case 1: note(" c%d.add_atomic(%d)", k, m); w.cs[k]->add_atomic(w.ms[m]); r.at.insert(m); break;
                case 2: note(" c%d.remove_atomic(%d)", k, m); w.cs[k]->remove_atomic(w.ms[m]); r.at.erase(m);
                    for (auto e = r.pa.begin(); e != r.pa.end();) e = e->second == m ? r.pa.erase(e) : std::next(e);
                    break;
                case 3: case 4:
                    if (!r.at.count(m)) break;
                    note(" c%d.create_coupling(p%d,m%d)", k, a, m); w.cs[k]->create_coupling(w.ps[a], w.ms[m]); r.pa.insert({a, m}); break;
                case 5: note(" c%d.remove_coupling(p%d,m%d)", k, a, m); w.cs[k]->remove_coupling(w.ps[a], w.ms[m]); r.pa.erase({a, m}); break;
                case 6: note(" c%d.create_coupling(p%d,p%d)", k, a, b); w.cs[k]->create_coupling(w.ps[a], w.ps[b]); r.pp.insert({a, b}); break;
                case 7: note(" c%d.remove_coupling(p%d,p%d)", k, a, b); w.cs[k]->remove_coupling(w.ps[a], w.ps[b]); r.pp.erase({a, b}); break;
                case 8: {
                    int d = pick(c);
                    if (d == 0 || w.below(k, d) || (w.rs[d].parent >= 0 && w.rs[d].parent != k)) break;
                    note(" c%d.add_coupled_model(c%d)", k, d);
                    w.cs[k]->add_coupled_model(w.cs[d]);
                    r.sub.insert(d);
                    w.rs[d].parent = k;
                    for (int e = 0; e < c; e++) if (w.below(e, d)) w.rs[e].stale = w.rs[e].stale && !w.live(k);
                    break;
                }
                default: {
                    int d = pick(c);
                    if (d == k || (w.rs[d].parent != k && pick(4))) break;
                    if (w.rs[d].parent != k && w.rs[d].parent >= 0) break;
                    note(" c%d.remove_coupled_model(c%d)", k, d);
                    bool was = w.live(k) && w.rs[d].parent == k;
                    w.cs[k]->remove_coupled_model(w.cs[d]);
                    if (w.rs[d].parent == k) { r.sub.erase(d); w.rs[d].parent = -1; }
                    // a model taken out of an attached one is left alone until it is added again (known finding)
                    if (was) for (int e = 0; e < c; e++) if (w.below(e, d)) w.rs[e].stale = true;
                }
            }
            w.check();
        }
        if (++cases > 200000) break;
    }
    return done();
}
