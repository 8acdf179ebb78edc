// Replay for the graph: every public operation against multisets of edges and models.
#include "common.h"
#include "adevs/adevs.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <vector>
using namespace rp;
struct M : adevs::Atomic<int, double> {
    void delta_int() {}
    void delta_ext(double, std::list<adevs::PinValue<int>> const &) {}
    void delta_conf(std::list<adevs::PinValue<int>> const &) {}
    void output_func(std::list<adevs::PinValue<int>> &) {}
    double ta() { return adevs_inf<double>(); }
};
using A = std::shared_ptr<adevs::Atomic<int, double>>;
using G = adevs::Graph<int, double>;
struct Op { G::pending_op op; int p, q, m; };
static const char *nm[] = {"add_atomic", "remove_atomic", "remove_pin", "connect_pin", "disconnect_pin", "connect_atomic", "disconnect_atomic"};

struct World {
    G g;
    std::vector<A> ms;
    std::vector<adevs::pin_t> ps;
    std::map<std::pair<int, int>, int> pp, pa;
    std::map<int, int> in;
    std::vector<Op> queue;
    bool prov = false;
    World(int np, int nm) : ps(np) { for (int i = 0; i < nm; i++) ms.push_back(std::make_shared<M>()); }
    void effect(Op o) {
        switch (o.op) {
            case G::ADD_ATOMIC: in[o.m]++; break;
            case G::REMOVE_ATOMIC:
                if (--in[o.m] == 0) for (auto i = pa.begin(); i != pa.end();) i = i->first.second == o.m ? pa.erase(i) : std::next(i);
                break;
            case G::REMOVE_PIN:
                for (auto e : {&pp, &pa})
                    for (auto i = e->begin(); i != e->end();) i = i->first.first == o.p && --i->second == 0 ? e->erase(i) : std::next(i);
                break;
            case G::CONNECT_PIN_TO_PIN: pp[{o.p, o.q}]++; break;
            case G::CONNECT_PIN_TO_ATOMIC: pa[{o.p, o.m}]++; break;
            case G::DISCONNECT_PIN_FROM_PIN: { auto i = pp.find({o.p, o.q}); if (i != pp.end() && --i->second == 0) pp.erase(i); break; }
            case G::DISCONNECT_PIN_FROM_ATOMIC: { auto i = pa.find({o.p, o.m}); if (i != pa.end() && --i->second == 0) pa.erase(i); break; }
        }
    }
    void call(Op o) {
        switch (o.op) {
            case G::ADD_ATOMIC: g.add_atomic(ms[o.m]); break;
            case G::REMOVE_ATOMIC: g.remove_atomic(ms[o.m]); break;
            case G::REMOVE_PIN: g.remove_pin(ps[o.p]); break;
            case G::CONNECT_PIN_TO_PIN: g.connect(ps[o.p], ps[o.q]); break;
            case G::CONNECT_PIN_TO_ATOMIC: g.connect(ps[o.p], ms[o.m]); break;
            case G::DISCONNECT_PIN_FROM_PIN: g.disconnect(ps[o.p], ps[o.q]); break;
            case G::DISCONNECT_PIN_FROM_ATOMIC: g.disconnect(ps[o.p], ms[o.m]); break;
        }
        if (prov) queue.push_back(o); else effect(o);
    }
    void paths(int p, std::vector<std::pair<int, int>> &out) {
        for (auto &e : pa) if (e.first.first == p) out.push_back({p, e.first.second});
        for (auto &e : pp) if (e.first.first == p) paths(e.first.second, out);
    }
    int idx(adevs::pin_t const &p) { for (size_t i = 0; i < ps.size(); i++) if (ps[i] == p) return i; return -1; }
    int idm(A const &a) { for (size_t i = 0; i < ms.size(); i++) if (ms[i] == a) return i; return -1; }
    void check() {
        std::set<A> want_models;
        for (auto &i : in) if (i.second > 0) want_models.insert(ms[i.first]);
        if (want("C03") || want("C05")) CHECK(g.get_atomics() == want_models, "get_atomics() is not the set of models added and not removed");
        for (size_t p = 0; p < ps.size(); p++) {
            std::list<std::pair<adevs::pin_t, A>> r;
            int before = pick(3);
            for (int i = 0; i < before; i++) r.push_back({ps[0], ms[0]});
            g.route(ps[p], r);
            CHECK((int)r.size() >= before, "route removed entries from the result");
            std::vector<std::pair<int, int>> got, exp;
            int n = 0;
            for (auto &e : r) {
                if (n++ < before) { CHECK(e.first == ps[0] && e.second == ms[0], "route changed earlier entries"); continue; }
                got.push_back({idx(e.first), idm(e.second)});
            }
            paths(p, exp);
            std::sort(got.begin(), got.end());
            std::sort(exp.begin(), exp.end());
            CHECK(got == exp, "routing from pin p%zu yields %zu entries, expected %zu (or different ones)", p, got.size(), exp.size());
        }
        auto &q = g.get_pending();
        CHECK(q.size() == queue.size(), "%zu requests are queued, expected %zu", q.size(), queue.size());
        size_t k = 0;
        for (auto &o : q) {
            Op w = queue[k++];
            bool ok = o.op == w.op;
            if (ok && w.p >= 0) ok = o.pin[0] == ps[w.p];
            if (ok && w.q >= 0) ok = o.pin[1] == ps[w.q];
            if (ok && w.m >= 0) ok = o.model == ms[w.m];
            CHECK(ok, "queued request %zu is not the one made (%s)", k, nm[w.op]);
        }
    }
};

static Op random_op(World &w) {
    int np = w.ps.size(), n = w.ms.size();
    for (;;) {
        Op o{G::pending_op(pick(7)), -1, -1, -1};
        if (pick(3) == 0) o.op = pick(2) ? G::CONNECT_PIN_TO_PIN : G::CONNECT_PIN_TO_ATOMIC;
        switch (o.op) {
            case G::REMOVE_ATOMIC:
                o.m = pick(n);
                if (!w.prov && w.in[o.m] < 1) continue;
                return o;
            case G::ADD_ATOMIC: o.m = pick(n); return o;
            case G::REMOVE_PIN: if (pick(3)) continue; o.p = pick(np); return o;
            case G::CONNECT_PIN_TO_PIN: case G::DISCONNECT_PIN_FROM_PIN:
                o.p = pick(np - 1); o.q = o.p + 1 + pick(np - o.p - 1); return o;
            default: o.p = pick(np); o.m = pick(n); return o;
        }
    }
}

int main(int argc, char **argv) {
    init(argc, argv);
    while (!timeup() || cases < 300) {
        int np = 2 + pick(6), n = 1 + pick(5), steps = 5 + pick(60);
        begin("Graph, %d pins, %d models:", np, n);
        World w(np, n);
        bool queueing = pick(3) == 0;
        for (int i = 0; i < steps; i++) {
            if (queueing && pick(8) == 0) {
                w.prov = !w.prov;
                note(" set_provisional(%d)", (int)w.prov);
                w.g.set_provisional(w.prov);
            }
            Op o = random_op(w);
            note(" %s(%d,%d,%d)", nm[o.op], o.p, o.q, o.m);
            w.call(o);
            w.check();
        }
        if (++cases > 200000) break;
    }
    return done();
}
