// Histories of the in-memory middleware (C12, C13): publishers, a queue, the poller, listeners.
#include "hist.h"
#include <atomic>
#include <klepsydra/mem_core/basic_middleware_provider.h>
#include <klepsydra/core/event_emitter_factory.h>
#include <klepsydra/mem_core/concurrent_middleware_provider.h>
#include "reccontainer.h"
using ksim::rnd;

struct Ev
{
    int64_t v = 0;
    Ev() = default;
    explicit Ev(long x) { ksim::payloadWrite(&v, x); }
    Ev(const Ev &o) { ksim::payloadWrite(&v, ksim::payloadRead(&o.v)); }
    Ev &operator=(const Ev &o)
    {
        ksim::payloadWrite(&v, ksim::payloadRead(&o.v));
        return *this;
    }
};
using Base = kpsr::mem::InMemoryMiddlewareProvider<Ev>;
static const int POLLER = 99;

static void pollerCall(bool begin)
{
    if (begin)
        ksim::log("\"e\":\"call\",\"t\":99,\"o\":\"poller\",\"a\":[]");
    else
        ksim::log("\"e\":\"ret\",\"t\":99,\"r\":[],\"x\":\"\"");
}

// the parts a provider puts together, used directly
struct Parts
{
    using Em = kpsr::EventEmitterInterface<std::shared_ptr<const Ev>>;
    std::unique_ptr<kpsr::mem::SafeQueue<kpsr::mem::EventData<const Ev>>> sq;
    std::unique_ptr<moodycamel::ConcurrentQueue<kpsr::mem::EventData<const Ev>>> cq;
    std::unique_ptr<moodycamel::ProducerToken> token;
    std::shared_ptr<Em> em;
    std::unique_ptr<kpsr::EventEmitterSubscriber<Ev>> sub;
    std::unique_ptr<kpsr::Publisher<Ev>> pub;
    std::unique_ptr<kpsr::mem::InMemoryQueuePoller> poller;
};

static std::string evName()
{
    return std::string(rnd(3), 'e') + "an event name of more than sixteen characters";
}

struct Rig
{
    std::unique_ptr<Base> p;
    std::unique_ptr<Parts> b;
    RecContainer box;
    bool conc, discard;
    int qs, nl;
    std::atomic<int> delivered{0}, inside{0};
    std::vector<int> once;

    Rig(bool concurrent, bool small)
    {
        conc = concurrent;
        discard = rnd(2);
        qs = conc ? 1 + (int) rnd(3) : (rnd(6) ? 1 + (int) rnd(4) : 0);
        nl = 1 + (int) rnd(2);
        int pool = (int) rnd(4);
        std::function<void(const Ev &, Ev &)> cl = nullptr;
        if (rnd(2))
            cl = [](const Ev &a, Ev &b) { b = a; };
        hist::cfg("\"conc\":" + std::to_string(conc) + ",\"lim\":" + std::to_string(qs) + ",\"discard\":"
                  + std::to_string(discard) + ",\"nl\":" + std::to_string(nl));
        kpsr::Container *c = rnd(3) ? nullptr : &box;
        auto period = 1 + (unsigned) rnd(200);
        const std::string name = evName();
        if (rnd(3) == 0) {
            b.reset(new Parts());
            b->em = kpsr::EventEmitterFactory::createEventEmitter<std::shared_ptr<const Ev>>(kpsr::EventEmitterType::SAFE);
            b->sub.reset(new kpsr::EventEmitterSubscriber<Ev>(c, b->em, name));
            if (conc) {
                b->cq.reset(new moodycamel::ConcurrentQueue<kpsr::mem::EventData<const Ev>>(qs, 1, 1));
                b->token.reset(new moodycamel::ProducerToken(*b->cq));
                b->pub.reset(new kpsr::mem::ConcurrentQueuePublisher<Ev>(c, name, pool, nullptr, cl, *b->cq, discard, *b->token));
                b->poller.reset(new kpsr::mem::ConcurrentQueuePoller<Ev>(*b->cq, b->em, name, period, *b->token));
            } else {
                b->sq.reset(new kpsr::mem::SafeQueue<kpsr::mem::EventData<const Ev>>(qs));
                b->pub.reset(new kpsr::mem::BasicPublisher<Ev>(c, name, pool, nullptr, cl, *b->sq, discard));
                b->poller.reset(new kpsr::mem::SafeQueuePoller<Ev>(*b->sq, b->em, name, 5 * period));
            }
        } else if (conc)
            p.reset(new kpsr::mem::ConcurrentMiddlewareProvider<Ev>(c, name, qs, pool, nullptr, cl, discard, period));
        else
            p.reset(new kpsr::mem::BasicMiddlewareProvider<Ev>(c, name, qs, pool, nullptr, cl, discard));
        bool slow = rnd(3) == 0;
        for (int l = 0; l < nl; l++)
            sub()->registerListener("l" + std::to_string(l), [this, l, slow](const Ev &e) {
                if (inside++)
                    ksim::impossible("two deliveries at a time");
                ksim::point();
                hist::obs("deliver", {l, (long) ksim::payloadRead(&e.v)});
                if (slow && rnd(2))
                    std::this_thread::sleep_for(std::chrono::microseconds(rnd(300)));
                ksim::point();
                inside--;
                hist::obs("served", {l});
                delivered++;
            });
        pollerCall(true);
    }
    bool running() { return p ? p->isRunning() : b->poller->isRunning(); }
    kpsr::Publisher<Ev> *pub() { return p ? p->getPublisher() : b->pub.get(); }
    kpsr::Subscriber<Ev> *sub() { return p ? p->getSubscriber() : b->sub.get(); }
    void start()
    {
        hist::call("start", {});
        if (p)
            p->start();
        else
            b->poller->start();
        hist::ret({running()});
    }
    void stop()
    {
        hist::call("stop", {});
        if (p)
            p->stop();
        else
            b->poller->stop();
        hist::ret({running()});
    }
    void publish(long v)
    {
        hist::call("publish", {v});
        switch (rnd(3)) {
        case 0:
            pub()->publish(Ev(v));
            break;
        case 1:
            pub()->publish(std::make_shared<const Ev>(v));
            break;
        default:
            pub()->processAndPublish([v](Ev &e) { e = Ev(v); });
        }
        if (conc) // there is one publisher only
            hist::ret({discarded()});
        else
            hist::ret({});
    }
    long discarded() { return (long) pub()->publicationStats.totalDiscardedEvents; }
    void drain(int published)
    {
        hist::call("drain", {});
        while (delivered != (published - (int) discarded()) * nl)
            std::this_thread::sleep_for(std::chrono::microseconds(500));
        hist::ret({});
    }
    void count()
    {
        hist::call("discarded", {});
        hist::ret({discarded()});
    }
    void destroy()
    {
        hist::call("destroy", {});
        p.reset();
        if (b)
            b->poller.reset();
        b.reset();
        hist::ret({});
    }
};

// publishers and the poller, started once (possibly late)
static void deliver(bool conc)
{
    Rig r(conc, false);
    int np = conc ? 1 : 1 + (int) rnd(3);
    int each = 1 + (int) rnd(conc ? 6 : 5);
    bool early = rnd(3) > 0;
    if (early)
        r.start();
    std::thread ctl([&] {
        if (!early) {
            if (rnd(3) == 0) // long enough for a publisher that gives up
                std::this_thread::sleep_for(std::chrono::milliseconds(1 + rnd(60)));
            r.start();
        }
        if (rnd(3) == 0) {
            r.stop();
            r.start();
        }
    });
    hist::parallel(np, [&](int i) {
        for (int j = 0; j < each; j++)
            r.publish((i + 1) * 100 + j);
    });
    ctl.join();
    r.drain(np * each);
    r.count();
    r.stop();
    r.destroy();
    pollerCall(false);
}

// queues of one block overflow: the lock-free queue's real capacity
static void flood()
{
    Rig r(true, false);
    int n = rnd(2) ? 34 + (int) rnd(100) : 125 + (int) rnd(50);
    bool late = rnd(2);
    if (!late)
        r.start();
    std::thread ctl;
    if (late && !r.discard && rnd(2)) {
        n = 130 + (int) rnd(30);
        ksim::prompt(true);
    }
    if (late && !r.discard)
        ctl = std::thread([&r] { // the publisher waits until the poller runs, however long that takes
            std::this_thread::sleep_for(std::chrono::milliseconds(rnd(3) ? rnd(3) : 10 + rnd(40)));
            r.start();
        });
    for (int j = 1; j <= n; j++)
        r.publish(j);
    if (ctl.joinable())
        ctl.join();
    else if (late)
        r.start();
    r.drain(n);
    r.count();
    r.stop();
    r.destroy();
    pollerCall(false);
}

// start / stop / publish / destroy in any order
static void life(bool conc)
{
    Rig r(conc, true);
    int n = 0, k = 3 + (int) rnd(8), pubs = (int) rnd(4);
    bool on = false;
    std::thread pub([&] {
        for (int j = 0; j < pubs; j++)
            r.publish(100 + j);
    });
    for (int i = 0; i < k; i++)
        switch (rnd(5)) {
        case 0:
            r.start();
            on = true;
            break;
        case 1:
            r.stop();
            on = false;
            break;
        case 2:
            if (on && rnd(2))
                std::this_thread::sleep_for(std::chrono::microseconds(rnd(1500)));
            break;
        default:
            if (!conc && (r.discard || on))
                r.publish(++n);
        }
    bool drain = rnd(2);
    if (!on && (!r.discard || drain)) {
        r.start();
        on = true;
    }
    pub.join();
    if (drain) {
        r.drain(n + pubs);
        r.count();
    }
    if (rnd(2))
        r.stop();
    r.destroy(); // possibly while running
    pollerCall(false);
}

static void scenario(const ksim::Params &p)
{
    bool conc = rnd(3) == 0;
    if (p.scen == "deliver")
        deliver(conc);
    else if (p.scen == "life")
        life(conc);
    else
        flood();
}
int main(int argc, char **argv)
{
    spdlog::set_level(spdlog::level::off);
    return ksim::driverMain(argc, argv, scenario);
}
