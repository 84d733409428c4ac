// Histories of LockFreeStack and SmartObjectPool (C08, C09).
#include "hist.h"
#include <atomic>
#include <functional>
#include <memory>
#include <klepsydra/core/lock_free_stack.h>
#include <klepsydra/core/smart_object_pool.h>
using ksim::rnd;

// a value whose moves are visible to the memory model of the simulator
struct Pv
{
    int64_t v = 0;
    Pv() = default;
    explicit Pv(long x) { ksim::payloadWrite(&v, x); }
    Pv(const Pv &o) { ksim::payloadWrite(&v, ksim::payloadRead(&o.v)); }
    Pv &operator=(const Pv &o)
    {
        long x = (long) ksim::payloadRead(&o.v);
        ksim::point();
        ksim::payloadWrite(&v, x);
        return *this;
    }
};
struct Box // a value only one place can own
{
    std::unique_ptr<long> p;
};

template<class T> struct Val;
template<> struct Val<Pv>
{
    static Pv make(long x) { return Pv(x); }
    static long get(Pv &p) { return (long) ksim::payloadRead(&p.v); }
};
template<> struct Val<Box>
{
    static Box make(long x) { return Box{std::unique_ptr<long>(new long(x))}; }
    static long get(Box &b) { return b.p ? *b.p : -1; }
};

template<class T> void stack(bool conc)
{
    int cap = 1 + (int) rnd(4);
    std::vector<long> init;
    bool withInit = rnd(3) > 0;
    long n0 = 0;
    std::function<void(T &)> f = [&](T &t) { t = Val<T>::make(++n0); };
    kpsr::LockFreeStack<T> s((size_t) cap, withInit ? f : nullptr);
    if (withInit)
        for (int i = cap; i >= 1; i--) // the first one is on top
            init.push_back(i);
    else {
        T t{};
        while (s.pop(t)) {
        }
    }
    hist::cfg("\"weak\":" + std::to_string(ksim::weak()) + ",\"pool\":0,\"fin\":0,\"cap\":" + std::to_string(cap) + ",\"init\":" + hist::arr(init));
    auto pop = [&](std::vector<long> &mine) {
        hist::call("pop", {});
        T t{};
        bool ok = s.pop(t);
        long v = ok ? Val<T>::get(t) : 0;
        if (ok) {
            mine.push_back(v);
            hist::ret({v});
        } else
            hist::ret({});
        return ok;
    };
    auto push = [&](long v) {
        hist::call("push", {v});
        bool ok = s.push(Val<T>::make(v));
        hist::ret({ok});
        return ok;
    };
    int nt = conc ? 2 + (int) rnd(3) : 1;
    hist::parallel(nt, [&](int i) {
        int n = conc ? 2 + (int) rnd(5) : 4 + (int) rnd(16);
        std::vector<long> mine;
        long next = (i + 1) * 100;
        for (int j = 0; j < n; j++) {
            if (rnd(2))
                pop(mine);
            else {
                long v = !mine.empty() && rnd(3) ? mine.back() : ++next;
                if (!mine.empty() && v == mine.back()) {
                    mine.pop_back();
                    push(v);
                } else
                    push(v);
            }
        }
    });
    std::vector<long> rest;
    while (pop(rest)) {
        if (rest.size() > 20)
            break;
    }
}

static int g_made, g_inits[64];
static bool g_log;
struct Obj
{
    int64_t user = 0;
    int id;
    Obj() { id = ++g_made; }
    ~Obj()
    {
        if (g_log)
            hist::obs("destroyed", {id});
        id = -id;
    }
    Obj(const Obj &) = delete;
};

static void pool(int mode) // 0 threads, 1 sequential, 2 handles outlive the pool, 3 released while it ends
{
    int cap = 1 + (int) rnd(4);
    bool fin = rnd(2), init = rnd(2);
    g_made = 0;
    g_log = false;
    for (auto &x : g_inits)
        x = 0;
    std::function<void(Obj &)> fi = [](Obj &o) { g_inits[o.id]++; };
    std::function<void(Obj &)> ff = [](Obj &o) { hist::obs("fin", {o.id}); };
    hist::cfg("\"weak\":" + std::to_string(ksim::weak()) + ",\"pool\":1,\"fin\":" + std::to_string(fin) + ",\"cap\":" + std::to_string(cap) + ",\"init\":[]");
    using Pool = kpsr::SmartObjectPool<Obj>;
    std::unique_ptr<Pool> p(new Pool("p", cap, init ? fi : nullptr, fin ? ff : nullptr));
    g_log = true;
    if (init)
        hist::obs("inits", std::vector<long>(g_inits + 1, g_inits + 1 + std::max(cap, g_made)));
    using H = Pool::ptr_type;
    struct Held
    {
        H h;
        std::shared_ptr<Obj> s;
        long mark;
        Obj *o;
        explicit Held(H x)
            : h(std::move(x))
        {}
    };
    auto acquire = [&](std::vector<std::unique_ptr<Held>> &mine) {
        hist::call("acquire", {});
        try {
            H h = p->acquire();
            long id = h->id;
            hist::ret({id});
            auto x = std::unique_ptr<Held>(new Held(std::move(h)));
            x->o = x->h.get();
            x->mark = (long) rnd(100000) + 1;
            ksim::payloadWrite(&x->o->user, x->mark);
            if (rnd(2))
                x->s = std::move(x->h); // as the publishers do
            mine.push_back(std::move(x));
        } catch (std::out_of_range &) {
            hist::ret({}, "empty");
        }
    };
    auto release = [&](std::vector<std::unique_ptr<Held>> &mine, size_t i) {
        std::unique_ptr<Held> x = std::move(mine[i]);
        mine.erase(mine.begin() + (long) i);
        bool ok = ksim::payloadRead(&x->o->user) == x->mark;
        hist::obs("intact", {ok});
        hist::call("release", {x->o->id});
        x.reset();
        hist::ret({});
    };
    int nt = mode == 1 ? 1 : 2 + (int) rnd(2);
    std::vector<std::vector<std::unique_ptr<Held>>> left(4);
    std::atomic<int> fails{0};
    hist::parallel(nt, [&](int i) {
        auto &mine = left[i];
        int n = mode == 1 ? 4 + (int) rnd(14) : 2 + (int) rnd(5);
        for (int j = 0; j < n; j++)
            if (mine.empty() || rnd(2))
                acquire(mine);
            else
                release(mine, rnd(mine.size()));
        if (mode == 0)
            while (!mine.empty())
                release(mine, 0);
    });
    if (mode == 1) {
        hist::call("fails", {});
        hist::ret({p->objectPoolFails});
    }
    auto end = [&] {
        hist::call("endpool", {});
        p.reset();
        hist::ret({});
    };
    if (mode == 3) {
        hist::parallel(nt + 1, [&](int i) {
            if (i == nt) {
                if (rnd(2))
                    std::this_thread::sleep_for(std::chrono::nanoseconds(rnd(300)));
                end();
            } else
                while (!left[i].empty())
                    release(left[i], rnd(left[i].size()));
        });
    } else {
        end();
        if (mode == 2 && rnd(2))
            hist::parallel(nt, [&](int i) {
                while (!left[i].empty())
                    release(left[i], rnd(left[i].size()));
            });
        for (auto &l : left)
            while (!l.empty())
                release(l, rnd(l.size()));
    }
    hist::obs("final", {g_made});
    g_log = false;
}

static void scenario(const ksim::Params &p)
{
    bool box = rnd(2) && !ksim::weak();
    if (p.scen == "stack")
        box ? stack<Box>(true) : stack<Pv>(true);
    else if (p.scen == "stackseq")
        box ? stack<Box>(false) : stack<Pv>(false);
    else if (p.scen == "pool")
        pool(0);
    else if (p.scen == "poolseq")
        pool(1);
    else if (p.scen == "poolafter")
        pool(2);
    else
        pool(3);
}

int main(int argc, char **argv)
{
    spdlog::set_level(spdlog::level::off);
    return ksim::driverMain(argc, argv, scenario);
}
