// Replay for the simulator: random DEVS networks with Moore and Mealy models, injected input, changes of structure and
// repeated output computation, against a direct reading of the simulation algorithm.
#include "common.h"
#include <algorithm>
#include <any>
#include <cmath>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <type_traits>
#include <vector>
#include "adevs/adevs.h"
using namespace rp;
typedef unsigned long long u64;
static u64 mix(u64 a, u64 b) {
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
    a *= 0xff51afd7ed558ccdull; a ^= a >> 33; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 29;
    return a;
}
struct Stop {};
static void bad(const char *prop, const std::string &s) {
    if (want(prop)) fail("%s", s.c_str());
    throw Stop();
}
static std::string str(const char *fmt, ...) {
    char b[900];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    return b;
}
template <class T> struct Tm;
template <> struct Tm<double> { static double mk(int a) { return a; } static double neg(int h) { return h % 2 ? -1 : -0.25; } static u64 h(double t) { return (u64)(t * 64); } static std::string s(double t) { return str("%g", t); } };
template <> struct Tm<int> { static int mk(int a) { return a; } static int neg(int h) { return -1 - h % 2; } static u64 h(int t) { return t; } static std::string s(int t) { return str("%d", t); } };
using SD = adevs::sd_time<double>;
template <> struct Tm<SD> { static SD neg(int h) { return h % 2 ? SD(0, -1) : SD(-1, 2); } static SD mk(int a) { return a == 0 ? SD(0, 1) : SD(a, 0); } static u64 h(SD t) { return mix((u64)(t.real() * 64), t.integer()); } static std::string s(SD t) { return str("(%g,%d)", t.real(), t.integer()); } };

using In = std::multiset<std::pair<int, int>>;   // (pin, value)
template <class T> struct World;
enum { INTERNAL = 1, EXTERNAL, CONFLUENT };
template <class T> struct Core {
    World<T> *w; int id; u64 s; bool mealy;
    struct Call { int kind; T e; In in; };
    std::vector<Call> trans, outs;
    std::list<adevs::PinValue<int>> given;
    adevs::Atomic<int, T> *self;
    T ta() const;
    static u64 hash(int id, u64 s, int kind, T e, const In &in) {
        u64 h = mix(mix(id + 1, s), kind);
        if (kind == EXTERNAL) h = mix(h, Tm<T>::h(e));
        for (auto &x : in) h = mix(h, x.first * 1000003ull + x.second);
        return h;
    }
    std::vector<std::pair<int, int>> answer(int kind, T e, const In &in) const;
    void transition(int kind, T e, std::list<adevs::PinValue<int>> const *xb);
    void output(int kind, T e, std::list<adevs::PinValue<int>> const *xb, std::list<adevs::PinValue<int>> &yb);
};
template <class T> struct Moore : adevs::Atomic<int, T> {
    Core<T> c;
    void delta_int() { c.transition(INTERNAL, adevs_zero<T>(), nullptr); }
    void delta_ext(T e, std::list<adevs::PinValue<int>> const &x) { c.transition(EXTERNAL, e, &x); }
    void delta_conf(std::list<adevs::PinValue<int>> const &x) { c.transition(CONFLUENT, adevs_zero<T>(), &x); }
    void output_func(std::list<adevs::PinValue<int>> &y) { c.output(INTERNAL, adevs_zero<T>(), nullptr, y); }
    T ta() { return c.ta(); }
};
template <class T> struct Mealy : adevs::MealyAtomic<int, T> {
    Core<T> c;
    void delta_int() { c.transition(INTERNAL, adevs_zero<T>(), nullptr); }
    void delta_ext(T e, std::list<adevs::PinValue<int>> const &x) { c.transition(EXTERNAL, e, &x); }
    void delta_conf(std::list<adevs::PinValue<int>> const &x) { c.transition(CONFLUENT, adevs_zero<T>(), &x); }
    void output_func(std::list<adevs::PinValue<int>> &y) { c.output(INTERNAL, adevs_zero<T>(), nullptr, y); }
    void confluent_output_func(std::list<adevs::PinValue<int>> const &x, std::list<adevs::PinValue<int>> &y) { c.output(CONFLUENT, adevs_zero<T>(), &x, y); }
    void external_output_func(T e, std::list<adevs::PinValue<int>> const &x, std::list<adevs::PinValue<int>> &y) { c.output(EXTERNAL, e, &x, y); }
    T ta() { return c.ta(); }
};
struct Op { int op, a, b; };    // 0 add a, 1 remove a, 2 pin a-pin b, 3 not, 4 pin a-model b, 5 not, 6 remove pin a
template <class T> struct World {
    using A = std::shared_ptr<adevs::Atomic<int, T>>;
    std::vector<A> ms;
    std::vector<Core<T> *> cs;
    std::vector<int> level;
    std::vector<adevs::pin_t> ps;
    std::shared_ptr<adevs::Graph<int, T>> g = std::make_shared<adevs::Graph<int, T>>();
    // reference
    std::map<std::pair<int, int>, int> pp, pa;
    std::map<int, int> inst;
    std::vector<T> tL, tN;
    std::vector<Op> queue;
    std::vector<std::pair<int, int>> ext;     // injected (pin, value)
    bool stepping = false;
    int churn = 0, negative = 0, horizon = 5;
    T next, now;
    struct Ev { int kind, model, pin, val; T t; size_t done; };
    struct Listener : adevs::EventListener<int, T> {
        World *w; std::vector<Ev> log;
        void add(int k, adevs::Atomic<int, T> &m, adevs::PinValue<int> *v, T t) {
            int i = w->idm(&m);
            log.push_back(Ev{k, i, v ? w->idp(v->pin) : -1, v ? v->value : 0, t, i >= 0 ? w->cs[i]->trans.size() : 0});
        }
        void outputEvent(adevs::Atomic<int, T> &m, adevs::PinValue<int> &v, T t) { add(0, m, &v, t); }
        void inputEvent(adevs::Atomic<int, T> &m, adevs::PinValue<int> &v, T t) { add(1, m, &v, t); }
        void stateChange(adevs::Atomic<int, T> &m, T t) { add(2, m, nullptr, t); }
    };
    std::vector<std::shared_ptr<Listener>> ls;
    std::shared_ptr<adevs::Simulator<int, T>> sim;
    int idm(const void *m) { for (size_t i = 0; i < ms.size(); i++) if ((void *)ms[i].get() == m) return i; return -1; }
    int idp(adevs::pin_t const &p) { for (size_t i = 0; i < ps.size(); i++) if (ps[i] == p) return i; return -1; }
    World(int n, int np, int mealyness) : ps(np), tL(n), tN(n) {
        for (int i = 0; i < n; i++) {
            bool me = (int)pick(100) < mealyness;
            Core<T> *c;
            if (me) { auto p = std::make_shared<Mealy<T>>(); c = &p->c; ms.push_back(p); c->self = p.get(); }
            else { auto p = std::make_shared<Moore<T>>(); c = &p->c; ms.push_back(p); c->self = p.get(); }
            c->w = this; c->id = i; c->s = rnd(); c->mealy = me;
            cs.push_back(c);
            level.push_back(me ? (int)pick(pick(3) ? (np + 1) / 2 : np) : np);
            note("  model %d: %s, listens below pin %d\n", i, me ? "Mealy" : "Moore", level[i] + 1);
        }
    }
    bool present(int m) { auto i = inst.find(m); return i != inst.end() && i->second > 0; }
    void apply(Op o) {
        switch (o.op) {
            case 0: inst[o.a]++; break;
            case 1:
                if (--inst[o.a] == 0) for (auto i = pa.begin(); i != pa.end();) if (i->first.second == o.a) i = pa.erase(i); else ++i;
                break;
            case 2: pp[{o.a, o.b}]++; break;
            case 3: if (pp.count({o.a, o.b}) && --pp[{o.a, o.b}] == 0) pp.erase({o.a, o.b}); break;
            case 4: pa[{o.a, o.b}]++; break;
            case 5: if (pa.count({o.a, o.b}) && --pa[{o.a, o.b}] == 0) pa.erase({o.a, o.b}); break;
            case 6:
                for (auto i = pp.begin(); i != pp.end();) if (i->first.first == o.a && --i->second == 0) i = pp.erase(i); else ++i;
                for (auto i = pa.begin(); i != pa.end();) if (i->first.first == o.a && --i->second == 0) i = pa.erase(i); else ++i;
                break;
        }
    }
    void request(Op o) {
        static const char *nm[] = {"add model %d\n", "remove model %d\n", "connect pin %d to pin %d\n", "disconnect pin %d from pin %d\n", "connect pin %d to model %d\n", "disconnect pin %d from model %d\n", "remove pin %d\n"};
        note("    "); note(nm[o.op], o.a, o.b);
        switch (o.op) {
            case 0: g->add_atomic(ms[o.a]); break;
            case 1: g->remove_atomic(ms[o.a]); break;
            case 2: g->connect(ps[o.a], ps[o.b]); break;
            case 3: g->disconnect(ps[o.a], ps[o.b]); break;
            case 4: g->connect(ps[o.a], ms[o.b]); break;
            case 5: g->disconnect(ps[o.a], ms[o.b]); break;
            case 6: g->remove_pin(ps[o.a]); break;
        }
        if (stepping) queue.push_back(o); else apply(o);
    }
    int planned(int m) { int n = inst.count(m) ? inst[m] : 0; for (auto &o : queue) if (o.a == m) n += o.op == 0 ? 1 : o.op == 1 ? -1 : 0; return n; }
    // a random sensible request
    void change() {
        int np = ps.size(), n = ms.size();
        int k = pick(12), m = pick(n), p = pick(np), q = pick(np);
        if (k < 2) { if (planned(m) < 3) request({0, m, 0}); }
        else if (k < 4) { if (planned(m) > 0) request({1, m, 0}); }
        else if (k < 6) { if (p != q) request({2, std::min(p, q), std::max(p, q)}); }
        else if (k < 7) { if (!pp.empty()) { auto i = pp.begin(); std::advance(i, pick(pp.size())); request({3, i->first.first, i->first.second}); } }
        else if (k < 10) { if (planned(m) > 0 && p <= level[m]) request({4, p, m}); }
        else if (k < 11) { if (!pa.empty()) { auto i = pa.begin(); std::advance(i, pick(pa.size())); request({5, i->first.first, i->first.second}); } }
        else request({6, p, 0});
    }
    void route(int p, std::vector<std::pair<int, int>> &out) {
        for (auto &e : pp) if (e.first.first == p) route(e.first.second, out);
        for (auto &e : pa) if (e.first.first == p) out.push_back({p, e.first.second});
    }
    size_t paths(int p) { std::vector<std::pair<int, int>> o; route(p, o); return o.size(); }
    T due(int m, T t) { T d = cs[m]->ta(); return d == adevs_inf<T>() ? d : t + d; }
    void expectNext(const char *when) {
        T mn = adevs_inf<T>();
        for (size_t i = 0; i < ms.size(); i++) if (present(i) && tN[i] < mn) mn = tN[i];
        next = mn;
        if (!(sim->nextEventTime() == mn)) bad("C08", str("%s the time of the next event is %s, should be %s", when, Tm<T>::s(sim->nextEventTime()).c_str(), Tm<T>::s(mn).c_str()));
    }
    // reference of the output step
    std::map<int, In> in;
    std::map<int, std::vector<std::pair<int, int>>> out;
    void deliver(int pin, int val) {
        std::vector<std::pair<int, int>> r;
        route(pin, r);
        for (auto &x : r) in[x.second].insert({x.first, val});
    }
    void outputs(T t) {
        in.clear(); out.clear();
        for (auto &x : ext) deliver(x.first, x.second);
        std::vector<int> me;
        for (size_t i = 0; i < ms.size(); i++) {
            if (!present(i)) continue;
            if (cs[i]->mealy) me.push_back(i);
            else if (tN[i] == t) { out[i] = cs[i]->answer(INTERNAL, adevs_zero<T>(), In()); for (auto &y : out[i]) deliver(y.first, y.second); }
        }
        std::stable_sort(me.begin(), me.end(), [&](int a, int b) { return level[a] < level[b]; });
        for (int i : me) {
            bool d = tN[i] == t, x = in.count(i) && !in[i].empty();
            if (!d && !x) continue;
            out[i] = cs[i]->answer(d ? (x ? CONFLUENT : INTERNAL) : EXTERNAL, t - tL[i], in[i]);
            for (auto &y : out[i]) deliver(y.first, y.second);
        }
    }
    void computeOutput() {
        T t = sim->nextEventTime();
        for (auto c : cs) c->outs.clear(), c->trans.clear();
        for (auto &l : ls) l->log.clear();
        size_t queued = g->get_pending().size();
        outputs(t);
        sim->computeNextOutput();
        ext.clear();
        // who was asked
        for (size_t i = 0; i < ms.size(); i++) {
            auto c = cs[i];
            bool d = present(i) && tN[i] == t, x = in.count(i) && !in[i].empty();
            if (!c->mealy && c->outs.size() != (d ? 1u : 0u)) bad("C09", str("model %d was asked for output %d times in the output step at %s, should be %d", (int)i, (int)c->outs.size(), Tm<T>::s(t).c_str(), (int)d));
            if (c->mealy) {
                if (d || x) {
                    if (c->outs.empty()) bad("C10", str("Mealy model %d was not asked for output at %s", (int)i, Tm<T>::s(t).c_str()));
                }
            }
            if (!c->trans.empty()) bad("C07", str("model %d made a transition in the output step", (int)i));
        }
        for (auto &l : ls) {
            std::map<int, std::multiset<std::pair<int, int>>> got;
            for (auto &e : l->log) {
                if (e.kind != 0) bad("C11", "an input or state change was announced in the output step");
                if (!(e.t == t)) bad("C11", str("output of model %d announced with time %s, should be %s", e.model, Tm<T>::s(e.t).c_str(), Tm<T>::s(t).c_str()));
                if (e.model < 0) bad("C11", "output announced for an unknown model");
                got[e.model].insert({e.pin, e.val});
            }
            for (size_t i = 0; i < ms.size(); i++) {
                std::multiset<std::pair<int, int>> exp(out[i].begin(), out[i].end());
                if (got[i] != exp) {
                    // was the output itself wrong, or its announcement?
                    bool consistent = true;
                    if (cs[i]->mealy && !cs[i]->outs.empty()) { auto &o = cs[i]->outs.back(); auto a = cs[i]->answer(o.kind, o.e, o.in); consistent = std::multiset<std::pair<int, int>>(a.begin(), a.end()) == exp; }
                    if (cs[i]->mealy && (!consistent || want("C10"))) bad("C10", str("Mealy model %d: its %d announced outputs at %s are not the %d it answers for the input it ends up with", (int)i, (int)got[i].size(), Tm<T>::s(t).c_str(), (int)exp.size()));
                    bad("C11", str("model %d: %d outputs announced at %s, should be the %d it produced", (int)i, (int)got[i].size(), Tm<T>::s(t).c_str(), (int)exp.size()));
                }
            }
        }
        if (g->get_pending().size() != queued) bad("C22", "the output step touched the requests");
        if (!(sim->nextEventTime() == t)) bad("C08", "the output step moved the time of the next event");
    }
    void computeState() {
        T t = sim->nextEventTime();
        now = t + adevs_epsilon<T>();
        for (auto c : cs) c->trans.clear();
        for (auto &l : ls) l->log.clear();
        stepping = true;
        T r;
        int neg = -1;
        try { r = sim->computeNextState(); }
        catch (adevs::exception e) {
            stepping = false;
            for (size_t i = 0; i < ms.size(); i++) if (cs[i]->ta() < adevs_zero<T>() && (void *)ms[i].get() == (void *)e.who()) neg = i;
            if (neg < 0) bad("C08", "an error was raised, but not for a model with negative time advance");
            throw Stop();
        }
        stepping = false;
        std::string ts = Tm<T>::s(t);
        for (size_t i = 0; i < ms.size(); i++) {
            auto c = cs[i];
            bool d = present(i) && tN[i] == t, x = in.count(i) && !in[i].empty();
            size_t n = d || x;
            if (c->trans.size() != n) bad("C07", str("model %d made %d transitions at %s, should make %d (%s%s)", (int)i, (int)c->trans.size(), ts.c_str(), (int)n, d ? "due" : "not due", x ? ", with input" : ", no input"));
            if (!n) continue;
            int k = d ? (x ? CONFLUENT : INTERNAL) : EXTERNAL;
            if (c->trans[0].kind != k) bad("C07", str("model %d made transition %d at %s, should be %d (1 internal, 2 external, 3 confluent)", (int)i, c->trans[0].kind, ts.c_str(), k));
            if (k == EXTERNAL && !(c->trans[0].e == t - tL[i])) bad("C07", str("model %d: elapsed time %s at %s, should be %s", (int)i, Tm<T>::s(c->trans[0].e).c_str(), ts.c_str(), Tm<T>::s(t - tL[i]).c_str()));
            if (c->trans[0].in != in[i]) {
                std::string m = str("model %d received %d inputs at %s, not the %d routed to it", (int)i, (int)c->trans[0].in.size(), ts.c_str(), (int)in[i].size());
                if (want("C10") && !want("C09")) {    // from a Mealy model?
                    std::multiset<std::pair<int, int>> a = c->trans[0].in;
                    bad("C10", m);
                }
                bad(want("C07") && !want("C09") ? "C07x" : "C09", m);
            }
        }
        for (auto &l : ls) for (size_t i = 0; i < ms.size(); i++) {
            In got; int st = 0;
            for (auto &e : l->log) {
                if (e.kind == 0) bad("C11", "an output was announced in the state step");
                if (e.model != (int)i) continue;
                if (!(e.t == t)) bad("C11", str("event of model %d announced with time %s, should be %s", (int)i, Tm<T>::s(e.t).c_str(), ts.c_str()));
                if (e.kind == 1) { got.insert({e.pin, e.val}); if (e.done != 0) bad("C11", str("input of model %d announced after its transition", (int)i)); }
                else { st++; if (e.done != 1) bad("C11", str("state change of model %d announced before its transition", (int)i)); }
            }
            In exp = cs[i]->trans.empty() ? In() : cs[i]->trans[0].in;
            if (got != exp) bad("C11", str("model %d: %d inputs announced at %s, should be the %d it received", (int)i, (int)got.size(), ts.c_str(), (int)exp.size()));
            if (st != (int)cs[i]->trans.size()) bad("C11", str("model %d: %d state changes announced at %s, should be %d", (int)i, st, ts.c_str(), (int)cs[i]->trans.size()));
        }
        if (!(r == now)) bad("C08", str("current time %s returned, should be %s", Tm<T>::s(r).c_str(), Tm<T>::s(now).c_str()));
        for (size_t i = 0; i < ms.size(); i++) if (!cs[i]->trans.empty()) {
            tL[i] = now; tN[i] = due(i, now);
            if (cs[i]->ta() < adevs_zero<T>()) bad("C08", str("model %d has a negative time advance, but no error was raised", (int)i));
        }
        bool negj = false;
        for (auto &o : queue) {
            bool was = present(o.a);
            apply(o);
            if (o.op == 0 && !was) { tL[o.a] = now; tN[o.a] = due(o.a, now); negj = negj || cs[o.a]->ta() < adevs_zero<T>(); }
        }
        if (negj) throw Stop();
        queue.clear();
        if (!g->get_pending().empty()) bad("C22", "requests are left after the step");
        // structure
        for (size_t i = 0; i < ms.size(); i++) if ((g->get_atomics().count(ms[i]) != 0) != present(i)) bad("C22", str("model %d %s the simulation after the step", (int)i, present(i) ? "is missing from" : "is still in"));
        if (pick(3) == 0) for (size_t p = 0; p < ps.size(); p++) {
            std::vector<std::pair<int, int>> e, q;
            route(p, e);
            std::list<std::pair<adevs::pin_t, A>> l;
            g->route(ps[p], l);
            for (auto &x : l) q.push_back({idp(x.first), idm(x.second.get())});
            std::sort(e.begin(), e.end()); std::sort(q.begin(), q.end());
            if (e != q) bad("C22", str("pin %d leads to %d places after the step, should be %d", (int)p, (int)q.size(), (int)e.size()));
        }
        T mn = adevs_inf<T>();
        for (size_t i = 0; i < ms.size(); i++) if (present(i) && tN[i] < mn) mn = tN[i];
        if (!(sim->nextEventTime() == mn)) {
            std::string m = str("after the step at %s the time of the next event is %s, should be %s", ts.c_str(), Tm<T>::s(sim->nextEventTime()).c_str(), Tm<T>::s(mn).c_str());
            bad(churn && want("C22") ? "C22" : "C08", m);
        }
        next = mn;
    }
    void start() {
        int kind = pick(3);
        std::string how = "from its graph";
        int neg = -1;
        for (auto &x : inst) if (x.second > 0 && cs[x.first]->ta() < adevs_zero<T>()) neg = x.first;
        try {
            sim = std::make_shared<adevs::Simulator<int, T>>(g);
        } catch (adevs::exception e) {
            if (neg < 0) bad("C08", "an error was raised at the start without a negative time advance");
            int who = idm(e.who());
            if (who < 0 || !(cs[who]->ta() < adevs_zero<T>())) bad("C08", "the error at the start does not name the model with negative time advance");
            throw Stop();
        }
        if (neg >= 0) bad("C08", str("model %d has a negative time advance at the start, but no error was raised", neg));
        for (size_t i = 0; i < ms.size(); i++) { tL[i] = adevs_zero<T>(); tN[i] = due(i, adevs_zero<T>()); }
        int nl = pick(4);
        for (int i = 0; i < nl; i++) { auto l = std::make_shared<Listener>(); l->w = this; ls.push_back(l); sim->addEventListener(l); }
        expectNext("after the start");
    }
    void inject() {
        int p = pick(ps.size()), v = pick(5);
        adevs::PinValue<int> x(ps[p], v);
        sim->injectInput(x);
        ext.push_back({p, v});
        note("  inject %d at pin %d\n", v, p);
    }
    void step() {
        int again = pick(4) == 0 ? 1 + pick(2) : 0;
        for (;;) {
            int k = pick(6) == 0 ? 0 : pick(3);
            if (next == adevs_inf<T>()) k = 1;
            for (int i = 0; i < k; i++) inject();
            if (pick(10) == 0) { note("  clear\n"); sim->clearInjectedInput(); ext.clear(); }
            if (next == adevs_inf<T>() || pick(3) == 0) {
                T base = now;
                T t = base + Tm<T>::mk(pick(3));
                if (t < next || next == adevs_inf<T>()) { note("  next time %s\n", Tm<T>::s(t).c_str()); sim->setNextTime(t); }
                else if (sim->nextEventTime() < next) sim->setNextTime(next);
            }
            if (!again) break;
            again--;
            note("  output at %s\n", Tm<T>::s(sim->nextEventTime()).c_str());
            computeOutput();
        }
        if (sim->nextEventTime() == adevs_inf<T>()) return;
        note("  output and state at %s\n", Tm<T>::s(sim->nextEventTime()).c_str());
        computeOutput();
        computeState();
    }
};
template <class T> T Core<T>::ta() const {
    u64 h = mix(mix(id, s), 77);
    if (w->negative && h % w->negative == 0) return Tm<T>::neg(h >> 40);
    int k = h % 8;
    if (k < 2) return adevs_inf<T>();
    if (k == 2 && (h >> 8) % 2) return adevs_zero<T>();
    return Tm<T>::mk(1 + (h >> 16) % 3);
}
template <class T> std::vector<std::pair<int, int>> Core<T>::answer(int kind, T e, const In &in) const {
    u64 h = hash(id, s, kind, e, in);
    std::vector<std::pair<int, int>> r;
    int n = h % 8 == 0 ? 3 : (h >> 3) % 3;
    int lo = mealy ? w->level[id] + 1 : 0, np = w->ps.size();
    for (int i = 0; i < n && lo < np; i++) {
        h = mix(h, i);
        r.push_back({lo + (int)(h % (np - lo)), (int)((h >> 20) % 7)});
    }
    return r;
}
template <class T> void Core<T>::transition(int kind, T e, std::list<adevs::PinValue<int>> const *xb) {
    In in;
    if (xb) for (auto &x : *xb) in.insert({w->idp(x.pin), x.value});
    trans.push_back({kind, e, in});
    u64 h = hash(id, s, kind, e, in);
    s = mix(h, 5);
    if (w->churn) for (int n = (h >> 7) % 4; n > 0; n--) w->change();
}
template <class T> void Core<T>::output(int kind, T e, std::list<adevs::PinValue<int>> const *xb, std::list<adevs::PinValue<int>> &yb) {
    In in;
    if (xb) for (auto &x : *xb) in.insert({w->idp(x.pin), x.value});
    outs.push_back({kind, e, in});
    for (auto &y : answer(kind, e, in)) yb.push_back(adevs::PinValue<int>(w->ps[y.first], y.second));
}
template <class T> void network(int steps) {
    int n = 1 + pick(6), np = 2 + pick(5);
    begin("random network, time type %s\n", typeid(T).name());
    try {
        World<T> w(n, np, pick(3) ? 20 + pick(81) : 0);
        for (int i = 0; i < n; i++) if (pick(4)) { w.request({0, i, 0}); if (pick(4) == 0) w.request({0, i, 0}); }
        for (int i = pick(3 * n + 1); i > 0; i--) {
            int m = pick(n);
            if (w.present(m)) w.request({4, (int)pick(w.level[m] < np ? w.level[m] + 1 : np), m});
        }
        for (int i = pick(n + np); i > 0; i--) w.change();
        w.negative = pick(12) == 0 ? 7 + pick(30) : 0;
        w.churn = pick(2);
        w.now = adevs_zero<T>();
        w.start();
        for (int i = 0; i < steps; i++) {
            size_t big = 0;
            for (size_t p = 0; p < w.ps.size(); p++) big = std::max(big, w.paths(p));
            if (big > 40) break;
            w.step();
        }
    } catch (Stop) {
    }
    cases++;
}
// rings of Mealy models: an error exactly when the values go round
struct Ring : adevs::MealyAtomic<int, double> {
    adevs::pin_t out; int skip; bool due = false;
    Ring() : skip(-1) {}
    void delta_int() { due = false; }
    void delta_ext(double, std::list<adevs::PinValue<int>> const &) {}
    void delta_conf(std::list<adevs::PinValue<int>> const &) { due = false; }
    void output_func(std::list<adevs::PinValue<int>> &y) { y.push_back({out, 1}); }
    void confluent_output_func(std::list<adevs::PinValue<int>> const &x, std::list<adevs::PinValue<int>> &y) { if (x.front().value != skip) y.push_back({out, x.front().value}); }
    void external_output_func(double, std::list<adevs::PinValue<int>> const &x, std::list<adevs::PinValue<int>> &y) { if (x.front().value != skip) y.push_back({out, x.front().value}); }
    double ta() { return due ? 1.0 : adevs_inf<double>(); }
};
static void rings() {
    int n = 1 + pick(5), at = pick(n), stop = pick(2) ? (int)pick(n) : -1, due = pick(2);
    begin("ring of %d Mealy models, %s at %d, link %d %s\n", n, due ? "model due" : "input", at, stop, stop < 0 ? "(none) open" : "open");
    auto g = std::make_shared<adevs::Graph<int, double>>();
    std::vector<std::shared_ptr<Ring>> r;
    for (int i = 0; i < n; i++) { r.push_back(std::make_shared<Ring>()); g->add_atomic(r[i]); }
    for (int i = 0; i < n; i++) g->connect(r[i]->out, std::static_pointer_cast<adevs::Atomic<int, double>>(r[(i + 1) % n]));
    adevs::pin_t in;
    g->connect(in, std::static_pointer_cast<adevs::Atomic<int, double>>(r[at]));
    bool open = stop >= 0;
    if (open) r[stop]->skip = 1;
    if (due) r[at]->due = true;
    // a due model answers without input first, so a closed link at that model does not break the ring for it
    adevs::Simulator<int, double> sim(g);
    if (due) sim.setNextTime(1);
    else { adevs::PinValue<int> x(in, 1); sim.injectInput(x); sim.setNextTime(1); }
    bool thrown = false;
    try { sim.computeNextOutput(); } catch (adevs::exception) { thrown = true; }
    if (due && stop == at) { cases++; return; }
    if (thrown == open) bad("C10", open ? "an error was raised although no values go round" : "values go round a cycle of Mealy models without an error");
    cases++;
}
template <class T> void single() {
    begin("simulator of one atomic or coupled model\n");
    try {
        World<T> w(1, 2, pick(2) * 100);
        w.negative = pick(3) == 0 ? 1 + pick(3) : 0;
        bool neg = w.cs[0]->ta() < adevs_zero<T>(), thrown = false;
        std::shared_ptr<adevs::Simulator<int, T>> s;
        try {
            if (pick(2)) s = std::make_shared<adevs::Simulator<int, T>>(w.ms[0]);
            else { auto c = std::make_shared<adevs::Coupled<int, T>>(); c->add_atomic(w.ms[0]); s = std::make_shared<adevs::Simulator<int, T>>(c); }
        } catch (adevs::exception e) {
            thrown = true;
            if (w.idm(e.who()) != 0) bad("C08", "the error does not name the model");
        }
        if (thrown != neg) bad("C08", neg ? "no error for a negative time advance" : "an error without a negative time advance");
        if (!thrown) {
            T d = w.cs[0]->ta();
            if (!(s->nextEventTime() == (d == adevs_inf<T>() ? d : adevs_zero<T>() + d))) bad("C08", "wrong time of the first event");
        }
    } catch (Stop) {
    }
    cases++;
}
int main(int argc, char **argv) {
    init(argc, argv);
    while (!timeup()) {
        for (int i = 0; i < 20; i++) { network<double>(12); if (i % 3 == 0) network<SD>(12); if (i % 5 == 0) network<int>(12); }
        try { rings(); } catch (Stop) {}
        single<double>(); single<SD>();
    }
    return done();
}
