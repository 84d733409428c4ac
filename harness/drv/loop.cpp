// Histories of event loops (C14, C15, C16): publishers, the ring, the loop, listeners.
#include "hist.h"
#include "reccontainer.h"
#include <atomic>
#include <list>
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
using ksim::rnd;

struct EvA
{
    int64_t v = 0;
    EvA() = default;
    explicit EvA(long x) { ksim::payloadWrite(&v, x); }
    EvA(const EvA &o) { ksim::payloadWrite(&v, ksim::payloadRead(&o.v)); }
    EvA &operator=(const EvA &o)
    {
        ksim::payloadWrite(&v, ksim::payloadRead(&o.v));
        return *this;
    }
};
struct EvB : EvA
{
    using EvA::EvA;
    std::string pad = "x";
};
// names that resemble each other, none too short to be told apart by a part of it
static const char *NAMESETS[][6] = {
    {"a", "a_external", "b", "", "_external", "a_"},
    {"sensors/front/left/camera/image", "sensors/front/left/camera/image_external", "sensors/front/left/camera/imagf",
     "zensors/front/left/camera/image", "sensors/front/Left/camera/image", "sensors/front/left/camera/imag"},
};
static const int MAXN = 6;
static const long UNKNOWN = -1;

struct RigBase
{
    RecContainer rc;
    kpsr::Container *c = nullptr;
    const char **NAMES = NAMESETS[0];
    int names, publishedOf[MAXN] = {};
    kpsr::EventEmitterType outer, inner;
    std::vector<int> at[MAXN]; // listeners of a name
    std::atomic<long> delivered{0}, inside{0}, expected{0};
    std::atomic<bool> gate{false}, entered{false};
    int throwing = -1;
    bool slow = false;
    virtual ~RigBase() {}

    void hit(int l, long v, std::function<long()> again)
    {
        if (inside++)
            ksim::impossible("two deliveries at a time");
        hist::obs("deliver", {l, v});
        entered = true;
        ksim::point();
        while (gate)
            std::this_thread::sleep_for(std::chrono::microseconds(50));
        if (slow && rnd(2))
            std::this_thread::sleep_for(std::chrono::microseconds(rnd(300)));
        ksim::point();
        inside--;
        hist::obs("served", {l, again()});
        delivered++;
        if (l == throwing)
            throw std::runtime_error("listener");
    }
};

// an event loop by its provider, or put together from its parts: then the ring may outlive it
template<size_t N> struct Parts
{
    using Provider = kpsr::high_performance::EventLoopMiddlewareProvider<N>;
    using Loop = kpsr::high_performance::EventLoop<N>;
    using Ring = typename Loop::RingBuffer;
    std::unique_ptr<Provider> whole;
    kpsr::Container *c;
    std::unique_ptr<Ring> ring;
    std::shared_ptr<kpsr::EventEmitterInterface<kpsr::high_performance::EventloopDataWrapper>> emitter;
    std::unique_ptr<Loop> loop;
    std::map<std::string, std::shared_ptr<void>> pubs, subs;
    int loops = 0;

    Parts(kpsr::Container *c, kpsr::EventEmitterType outer, bool bare)
        : c(c)
    {
        if (!bare) {
            whole.reset(new Provider(c, "el", 1000000000L, {}, outer));
            return;
        }
        ring.reset(new Ring());
        emitter = kpsr::EventEmitterFactory::createEventEmitter<kpsr::high_performance::EventloopDataWrapper>(outer);
        newLoop();
    }
    ~Parts() { loop.reset(); }
    void newLoop() { loop.reset(new Loop(emitter, *ring, "el" + std::to_string(++loops), 1000000000L)); }
    void start() { whole ? whole->start() : loop->start(); }
    void stop()
    {
        if (whole)
            whole->stop();
        else if (loop)
            loop->stop();
    }
    bool isRunning() { return whole ? whole->isRunning() : loop && loop->isStarted(); }
    template<class T>
    kpsr::Publisher<T> *getPublisher(const std::string &n, int pool, std::nullptr_t,
                                     std::function<void(const T &, T &)> cl, bool unsafeMode)
    {
        if (whole)
            return whole->template getPublisher<T>(n, pool, nullptr, cl, unsafeMode);
        using P = kpsr::high_performance::EventLoopPublisher<T, N>;
        auto &x = pubs[n];
        if (!x)
            x = std::make_shared<P>(c, *ring, "el", n, pool, nullptr, cl, unsafeMode);
        return static_cast<kpsr::Publisher<T> *>(static_cast<P *>(x.get()));
    }
    template<class T> kpsr::Subscriber<T> *getSubscriber(const std::string &n, kpsr::EventEmitterType inner)
    {
        if (whole)
            return whole->template getSubscriber<T>(n, inner);
        using S = kpsr::high_performance::EventLoopSubscriber<T>;
        auto &x = subs[n];
        if (!x)
            x = std::make_shared<S>(c, emitter, n, inner);
        return static_cast<kpsr::Subscriber<T> *>(static_cast<S *>(x.get()));
    }
};

template<size_t N> struct Rig : RigBase
{
    using Provider = Parts<N>;
    std::unique_ptr<Provider> p;
    int pool, mode;
    bool cloner, unsafeMode;
    
    explicit Rig(bool bare = false)
    {
        int k = (int) rnd(4);
        outer = k == 0 ? kpsr::EventEmitterType::UNSAFE_MULTI : kpsr::EventEmitterType::SAFE;
        inner = rnd(3) == 0 ? kpsr::EventEmitterType::UNSAFE_MULTI : kpsr::EventEmitterType::SAFE;
        names = 1 + (int) (rnd(6) ? rnd(3) : rnd(MAXN));
        NAMES = NAMESETS[rnd(2)];
        pool = rnd(2) ? 0 : 1 + (int) rnd(2 * N);
        cloner = rnd(2);
        unsafeMode = rnd(4) == 0;
        c = rnd(3) == 0 ? &rc : nullptr;
        slow = rnd(3) == 0;
        hist::cfg("\"weak\":" + std::to_string(ksim::weak()) + ",\"size\":" + std::to_string(N) + ",\"names\":" + std::to_string(names));
        p.reset(new Provider(c, outer, bare));
        ksim::log("\"e\":\"call\",\"t\":99,\"o\":\"loop\",\"a\":[]");
        for (int n = 0; n < names; n++)
            publisher(n); // publishers are created before the threads
        if (rnd(3) == 0) // a subscriber without listeners
            subscribe(0, [](auto *) {});
    }
    template<class T> kpsr::Publisher<T> *pub(int n)
    {
        std::function<void(const T &, T &)> cl = nullptr;
        if (cloner)
            cl = [](const T &a, T &b) { b = a; };
        return p->template getPublisher<T>(NAMES[n], pool, nullptr, cl, unsafeMode);
    }
    void publisher(int n)
    {
        if (n == 1)
            pub<EvB>(n);
        else
            pub<EvA>(n);
    }
    template<class F> void subscribe(int n, F f)
    {
        if (n == 1)
            f(p->template getSubscriber<EvB>(NAMES[n], inner));
        else
            f(p->template getSubscriber<EvA>(NAMES[n], inner));
    }
    long discarded(int n)
    {
        if (n == 1)
            return (long) static_cast<kpsr::high_performance::EventLoopPublisher<EvB, N> *>(pub<EvB>(n))->_discardedMessages;
        return (long) static_cast<kpsr::high_performance::EventLoopPublisher<EvA, N> *>(pub<EvA>(n))->_discardedMessages;
    }
    void reg(int n, int l)
    {
        hist::call("reg", {n, l});
        bool shared = rnd(2);
        subscribe(n, [&](auto *s) {
            using S = std::remove_pointer_t<decltype(s)>;
            doReg(s, n, l, shared);
        });
        at[n].push_back(l);
        hist::ret({});
    }
    template<class T> void doReg(kpsr::Subscriber<T> *s, int n, int l, bool shared)
    {
        std::string nm = "l" + std::to_string(l);
        if (shared)
            s->registerSharedPtrListener(nm, [this, l](const std::shared_ptr<const T> &e) {
                hit(l, (long) ksim::payloadRead(&e->v), [&] { return (long) ksim::payloadRead(&e->v); });
            });
        else
            s->registerListener(nm, [this, l](const T &e) {
                hit(l, (long) ksim::payloadRead(&e.v), [&] { return (long) ksim::payloadRead(&e.v); });
            });
    }
    void unreg(int n, size_t i)
    {
        int l = at[n][i];
        hist::call("unreg", {n, l});
        subscribe(n, [&](auto *s) { s->removeListener("l" + std::to_string(l)); });
        at[n].erase(at[n].begin() + i);
        hist::ret({});
    }
    template<class T> void doPublish(int n, long v)
    {
        auto *q = pub<T>(n);
        switch (rnd(3)) {
        case 0:
            q->publish(T(v));
            break;
        case 1:
            q->publish(std::make_shared<const T>(v));
            break;
        default:
            q->processAndPublish([v](T &e) { static_cast<EvA &>(e) = EvA(v); });
        }
    }
    // alone: nobody else publishes that event, so that the outcome is known
    bool publish(int n, long v, bool alone)
    {
        hist::call("publish", {n, v});
        long d = alone ? discarded(n) : 0;
        if (n == 1)
            doPublish<EvB>(n, v);
        else
            doPublish<EvA>(n, v);
        bool ok = true;
        if (alone) {
            ok = discarded(n) == d;
            hist::ret({ok});
        } else
            hist::ret({});
        return ok;
    }
    void start()
    {
        hist::call("start", {});
        p->start();
        hist::ret({p->isRunning()});
    }
    void stop()
    {
        hist::call("stop", {});
        p->stop();
        hist::ret({p->isRunning()});
    }
    void running()
    {
        hist::op("running", {}, [&] { return std::vector<long>{p->isRunning()}; });
    }
    void count()
    {
        for (int n = 0; n < names; n++)
            hist::op("discarded", {n}, [&] { return std::vector<long>{discarded(n)}; });
    }
    // all that was accepted is delivered (call only with listeners everywhere)
    void drain(long deliveries)
    {
        hist::call("drain", {});
        while (delivered != deliveries)
            std::this_thread::sleep_for(std::chrono::microseconds(500));
        hist::ret({});
    }
    void destroy()
    {
        hist::call("destroy", {});
        p.reset();
        hist::ret({});
    }
    void finish(bool drained)
    {
        destroy();
        ksim::log("\"e\":\"ret\",\"t\":99,\"r\":[],\"x\":\"\"");
    }
    int listeners(bool all)
    {
        int l = 0;
        for (int n = 0; n < names; n++) {
            int k = all ? 1 + (int) rnd(2) : (int) rnd(3);
            for (int i = 0; i < k; i++)
                reg(n, l++);
        }
        return l;
    }
};

// several publisher threads; drained
template<size_t N> void deliver()
{
    Rig<N> r;
    r.listeners(true);
    if (rnd(5) == 0)
        r.throwing = r.at[0].back();
    bool early = rnd(3) > 0;
    if (early)
        r.start();
    int np = 1 + (int) rnd(3), each = 1 + (int) rnd(5);
    int own = np <= r.names && rnd(2); // each thread its own event
    std::thread ctl([&] {
        if (!early)
            r.start();
    });
    std::vector<std::vector<int>> what(np);
    std::atomic<long> pubs[MAXN] = {};
    hist::parallel(np, [&](int i) {
        for (int j = 0; j < each; j++) {
            int n = own ? i : (int) rnd(r.names);
            pubs[n]++;
            r.publish(n, (i + 1) * 100 + j, own || np == 1);
        }
    });
    ctl.join();
    long want = 0;
    for (int n = 0; n < r.names; n++)
        want += (pubs[n] - r.discarded(n)) * (long) r.at[n].size();
    r.drain(want);
    r.count();
    if (rnd(2))
        r.stop();
    r.finish(true);
}

// the ring fills up behind a listener that does not return, or while the loop is stopped
template<size_t N> void full()
{
    Rig<N> r;
    r.listeners(true);
    long want = 0;
    auto pub = [&](int n, long v) {
        if (r.publish(n, v, true))
            want += (long) r.at[n].size();
    };
    long v = 0;
    int rounds = 1 + (int) rnd(3);
    for (int k = 0; k < rounds; k++) {
        if (rnd(2)) { // a listener holds the loop
            r.gate = true;
            r.entered = false;
            r.start();
            pub((int) rnd(r.names), ++v);
            if (rnd(4))
                for (int w = 0; w < 50 && !r.entered; w++)
                    std::this_thread::sleep_for(std::chrono::microseconds(100));
            int m = (int) rnd(2 * N + 2);
            for (int i = 0; i < m; i++)
                pub((int) rnd(r.names), ++v);
            r.gate = false;
        } else { // stopped
            if (k)
                r.stop();
            int m = (int) rnd(2 * N + 2);
            for (int i = 0; i < m; i++)
                pub((int) rnd(r.names), ++v);
            r.count();
            r.start();
        }
        if (rnd(3)) {
            r.drain(want);
            if (rnd(2)) {
                r.stop();
                r.start();
            }
        }
    }
    r.drain(want);
    r.count();
    r.finish(true);
}

// producers contending for a small ring
template<size_t N> void crowd()
{
    Rig<N> r;
    r.listeners(true);
    r.slow = true;
    bool held = rnd(2); // nobody takes anything from the ring while they publish
    if (held && rnd(2)) {
        r.gate = true;
        r.start();
    } else if (!held)
        r.start();
    int np = 2 + (int) rnd(2), each = held ? 1 + (int) rnd(3) : 2 + (int) rnd(4);
    std::atomic<long> pubs[MAXN] = {};
    hist::parallel(np, [&](int i) {
        for (int j = 0; j < each; j++) {
            int n = rnd(3) ? 0 : (int) rnd(r.names);
            pubs[n]++;
            r.publish(n, (i + 1) * 100 + j, false);
        }
    });
    r.gate = false;
    if (held)
        r.start(); // or start again, without effect
    long want = 0;
    for (int n = 0; n < r.names; n++)
        want += (pubs[n] - r.discarded(n)) * (long) r.at[n].size();
    r.drain(want);
    r.count();
    r.finish(true);
}

// start / stop / publish / listeners / destroy in any order
template<size_t N> void life()
{
    Rig<N> r;
    int l = r.listeners(false);
    int k = 3 + (int) rnd(9), pubs = (int) rnd(5);
    bool on = false, known = r.names > 1 || !pubs;
    std::thread pub([&] {
        for (int j = 0; j < pubs; j++)
            r.publish(0, 1000 + j, r.names > 1);
    });
    long v = 0;
    for (int i = 0; i < k; i++)
        switch (rnd(7)) {
        case 0:
            r.start();
            on = true;
            break;
        case 1:
            r.stop();
            on = false;
            break;
        case 2:
            if (on && rnd(2))
                std::this_thread::sleep_for(std::chrono::microseconds(rnd(1500)));
            break;
        case 3:
            r.running();
            break;
        case 4:
            if (!on) { // listeners change only while the loop rests
                int n = (int) rnd(r.names);
                if (rnd(2) && r.at[n].size())
                    r.unreg(n, rnd(r.at[n].size()));
                else if (r.at[n].size() < 3)
                    r.reg(n, l++);
            }
            break;
        default:
            if (r.names > 1)
                r.publish(1 + (int) rnd(r.names - 1), ++v, true);
            else if (!pubs)
                r.publish(0, ++v, true);
        }
    pub.join();
    if (rnd(2))
        r.count();
    if (rnd(3) == 0)
        r.stop();
    r.finish(false);
}

// a ring and several loops, one after the other; publishers go on when there is none
template<size_t N> void ring()
{
    Rig<N> r(true);
    r.listeners(true);
    long want = 0, v = 0;
    int k = 2 + (int) rnd(4);
    bool there = true;
    for (int i = 0; i < k; i++) {
        if (there && rnd(4))
            r.start();
        int m = (int) rnd(2 * N + 2);
        for (int j = 0; j < m; j++) {
            int n = (int) rnd(r.names);
            if (r.publish(n, ++v, true) && there)
                want += (long) r.at[n].size();
        }
        if (there && rnd(3)) {
            r.start();
            r.drain(want);
            if (rnd(2))
                r.stop();
        } else if (there && rnd(2))
            r.stop();
        r.count();
        if (i + 1 == k)
            break;
        if (there && rnd(4)) {
            hist::call("unloop", {});
            r.p->loop.reset();
            hist::ret({});
            there = false;
            want = r.delivered; // the rest went with the loop
        } else if (!there && rnd(2)) {
            hist::call("reloop", {});
            r.p->newLoop();
            hist::ret({});
            there = true;
            want = r.delivered;
        }
    }
    r.finish(false);
}

static void scenario(const ksim::Params &p)
{
    bool two = rnd(3) == 0;
    if (p.scen == "deliver")
        two ? deliver<2>() : deliver<4>();
    else if (p.scen == "full")
        two ? full<2>() : full<4>();
    else if (p.scen == "ring")
        two ? ring<2>() : ring<4>();
    else if (p.scen == "crowd")
        two ? crowd<2>() : crowd<4>();
    else
        two ? life<2>() : life<4>();
}
int main(int argc, char **argv)
{
    spdlog::set_level(spdlog::level::off);
    return ksim::driverMain(argc, argv, scenario);
}
