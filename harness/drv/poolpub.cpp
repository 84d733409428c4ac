// Histories of publishers with an object pool (C20).
#include "hist.h"
#include <atomic>
#include <map>
#include <mutex>
#include <spdlog/spdlog.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/core/object_pool_publisher.h>
using ksim::rnd;

static std::atomic<long> g_live{0};
struct Ev
{
    long f[3];
    Ev()
    {
        g_live++;
        for (int i = 0; i < 3; i++)
            set(i, 0);
    }
    Ev(const Ev &o)
    {
        g_live++;
        *this = o;
    }
    ~Ev()
    {
        for (int i = 0; i < 3; i++)
            set(i, -77);
        g_live--;
    }
    Ev &operator=(const Ev &o)
    {
        for (int i = 0; i < 3; i++) {
            set(i, o.get(i));
            ksim::point();
        }
        return *this;
    }
    void set(int i, long v) { ksim::payloadWrite(&f[i], v); }
    long get(int i) const { return (long) ksim::payloadRead(&f[i]); }
    void fill(long a, long b, long c)
    {
        set(0, a);
        ksim::point();
        set(1, b);
        set(2, c);
    }
};
struct Exc : std::runtime_error
{
    Exc()
        : std::runtime_error("thrown by the user")
    {}
};

struct Rig;
static long idOf(const Ev *p)
{
    static std::map<const Ev *, long> ids;
    static std::mutex m;
    ksim::noPreempt(true);
    auto &x = ids[p];
    if (!x)
        x = (long) ids.size();
    long r = x;
    ksim::noPreempt(false);
    return r;
}
static void obsEv(const char *o, long first, const Ev &e)
{
    hist::obs(o, {first, e.get(0), e.get(1), e.get(2)});
}

struct TestPublisher : kpsr::ObjectPoolPublisher<Ev>
{
    std::function<void(std::shared_ptr<const Ev>)> deliver;
    using kpsr::ObjectPoolPublisher<Ev>::ObjectPoolPublisher;
    void internalPublish(std::shared_ptr<const Ev> e) override { deliver(std::move(e)); }
};

struct Rig
{
    std::unique_ptr<TestPublisher> direct;
    std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<Ev>> em;
    kpsr::Publisher<Ev> *pub;
    std::atomic<long> fin{0}, handles{0};
    bool init, cloner, useEm;
    int holdPct;
    struct Held
    {
        long h;
        std::shared_ptr<const Ev> e;
    };
    std::mutex mut; // guards held: harness only
    std::vector<Held> held;

    explicit Rig(bool emitter)
        : useEm(emitter)
    {
        int size = rnd(4) == 0 ? 0 : 1 + (int) rnd(4);
        init = rnd(2);
        cloner = rnd(2);
        holdPct = useEm ? 0 : rnd(4) == 0 ? 100 : 20 + (int) rnd(60);
        bool fin_ = !useEm && rnd(2);
        hist::cfg("\"size\":" + std::to_string(size) + ",\"init\":" + std::to_string(init)
                  + ",\"cloner\":" + std::to_string(cloner) + ",\"fin\":" + std::to_string(fin_)
                  + ",\"weak\":" + std::to_string(ksim::weak()));
        std::function<void(Ev &)> i, f;
        std::function<void(const Ev &, Ev &)> c;
        if (init)
            i = [](Ev &e) { e.fill(0, 7, 5); };
        if (fin_)
            f = [this](Ev &) { fin++; };
        if (cloner)
            c = [](const Ev &o, Ev &e) {
                if (o.get(0) < 0)
                    throw Exc();
                hist::obs("clone", {idOf(&e)});
                e.set(0, o.get(0));
                ksim::point();
                e.set(1, o.get(1) + 1);
            };
        if (useEm) {
            em.reset(new kpsr::EventEmitterMiddlewareProvider<Ev>(nullptr, "ev", size, i, c));
            pub = em->getPublisher();
            em->getSubscriber()->registerListener("l", [this](const Ev &e) { obsEv("got", idOf(&e), e); });
        } else {
            direct.reset(new TestPublisher(nullptr, "ev", "TEST", size, i, c, f));
            pub = direct.get();
            direct->deliver = [this](std::shared_ptr<const Ev> e) {
                obsEv("got", idOf(e.get()), *e);
                if ((int) rnd(100) < holdPct) {
                    long h = ++handles;
                    hist::obs("hold", {h});
                    std::lock_guard<std::mutex> g(mut);
                    held.push_back({h, e});
                }
            };
        }
    }
    void publish(long v)
    {
        int kind = (int) rnd(5);
        if (rnd(3) == 0)
            kind = 0;
        if (kind == 0 && cloner && rnd(6) == 0)
            v = -v;
        if (kind == 1) { // prepared outside of the call
            auto e = std::make_shared<Ev>();
            e->fill(v, v * 10 + 3, 4);
            hist::call("publish", {kind, v});
            pub->publish(std::shared_ptr<const Ev>(std::move(e)));
            hist::ret({});
            return;
        }
        std::unique_ptr<Ev> src;
        if (kind == 0) {
            src.reset(new Ev);
            src->fill(v, v * 10, 9);
        }
        hist::call("publish", {kind, v});
        try {
            if (kind == 0)
                pub->publish(*src);
            else
                pub->processAndPublish([=](Ev &e) {
                    obsEv("fill", idOf(&e), e);
                    e.set(0, v);
                    ksim::point();
                    if (kind == 4)
                        throw Exc();
                    if (kind == 2)
                        e.set(1, v * 10 + 2);
                });
        } catch (const Exc &) {
            src.reset();
            hist::ret({}, "exception");
            return;
        }
        src.reset();
        hist::ret({});
    }
    bool take(Held &x, bool remove)
    {
        std::lock_guard<std::mutex> g(mut);
        if (held.empty())
            return false;
        size_t k = rnd(held.size());
        x = held[k];
        if (remove)
            held.erase(held.begin() + (long) k);
        return true;
    }
    void drop()
    {
        Held x;
        if (!take(x, true))
            return;
        obsEv("look", x.h, *x.e);
        hist::call("drop", {x.h});
        x.e.reset();
        hist::ret({});
    }
    void look()
    {
        // taken out meanwhile: nobody else drops it
        Held x;
        if (!take(x, true))
            return;
        obsEv("look", x.h, *x.e);
        std::lock_guard<std::mutex> g(mut);
        held.push_back(std::move(x));
    }
    void allocs()
    {
        hist::op("allocs", {}, [&] {
            return std::vector<long>{(long) pub->publicationStats._totalEventAllocations};
        });
    }
    void destroy()
    {
        hist::op("destroy", {}, [&] {
            direct.reset();
            em.reset();
            return std::vector<long>{g_live, fin};
        });
    }
    void some(int n, long base)
    {
        for (int i = 0; i < n; i++)
            switch (rnd(5)) {
            case 0:
                drop();
                break;
            case 1:
                rnd(3) ? look() : allocs();
                break;
            default:
                publish(base + i);
            }
    }
};

static void scenario(const ksim::Params &p)
{
    g_live = 0;
    Rig r(p.scen == "emitter");
    if (p.scen == "conc") {
        int n = 2 + (int) rnd(2);
        hist::parallel(n, [&](int i) { r.some(2 + (int) rnd(n == 2 ? 5 : 3), 100 * (i + 1)); });
    } else
        r.some(3 + (int) rnd(14), 1);
    while (rnd(4) && !r.held.empty())
        r.drop();
    r.allocs();
    r.destroy();
    while (!r.held.empty()) {
        r.drop();
        if (rnd(3) == 0)
            hist::op("live", {}, [&] { return std::vector<long>{g_live}; });
    }
    hist::op("live", {}, [&] { return std::vector<long>{g_live}; });
}
int main(int argc, char **argv)
{
    spdlog::set_level(spdlog::level::off);
    return ksim::driverMain(argc, argv, scenario);
}
