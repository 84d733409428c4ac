// Histories of middleware channels (C31).
#include "events.h"
#include <atomic>
#include <memory>
#include <spdlog/spdlog.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/core/event_forwarder.h>
#include <klepsydra/core/from_middleware_channel.h>
#include <klepsydra/core/non_copying_stream_buffer.h>
#include <klepsydra/core/to_middleware_channel.h>
#include <klepsydra/mem_core/basic_middleware_provider.h>
#include <klepsydra/serialization/binary_cereal_mapper.h>
#include <klepsydra/serialization/identity_mapper.h>
#include <klepsydra/serialization/json_cereal_mapper.h>
#include <klepsydra/serialization/void_caster_mapper.h>

static std::map<int, bool> refuse; // by thread: the middleware refuses the next message
static long lastMid;

// messages of every kind are kept as text
static std::string keepM(const std::string &m) { return m; }
static std::string keepM(const Bytes &m) { return std::string(m.begin(), m.end()); }
template<class T> static std::string keepM(const T &m)
{
    std::stringstream ss;
    {
        cereal::PortableBinaryOutputArchive a(ss);
        a(m);
    }
    return ss.str();
}
static std::string keepM(const Pod &m) { return std::string((const char *) &m, sizeof m); }

template<class M> struct Wire
{
    template<class F> static void with(const std::string &s, F f); // call f with the message
};
template<> struct Wire<std::string>
{
    template<class F> static void with(const std::string &s, F f) { f(s); }
    template<class F> static std::string make(F f)
    {
        std::string m = rnd(2) ? "old" : "";
        f(m);
        return m;
    }
};
template<> struct Wire<Bytes>
{
    template<class F> static void with(const std::string &s, F f) { f(Bytes(s.begin(), s.end())); }
    template<class F> static std::string make(F f)
    {
        Bytes m(rnd(2) * 200);
        f(m);
        return keepM(m);
    }
};
template<> struct Wire<Base>
{
    template<class F> static void with(const std::string &s, F f)
    {
        std::string c = s;
        kpsr::core::NonCopyingStringBuffer b(&c[0], (long) c.size());
        Base p = &b;
        f(p);
    }
    template<class F> static std::string make(F f)
    {
        std::stringbuf b;
        Base p = &b;
        f(p);
        return b.str();
    }
};
template<> struct Wire<Pod>
{
    template<class F> static void with(const std::string &s, F f)
    {
        Pod p;
        memcpy(&p, s.data(), sizeof p);
        f(p);
    }
    template<class F> static std::string make(F f)
    {
        Pod p;
        memset(&p, 0x55, sizeof p);
        f(p);
        return keepM(p);
    }
};
template<> struct Wire<Rich>
{
    template<class F> static void with(const std::string &s, F f)
    {
        std::stringstream ss(s);
        Rich r;
        {
            cereal::PortableBinaryInputArchive a(ss);
            a(r);
        }
        f(r);
    }
    template<class F> static std::string make(F f)
    {
        Rich r;
        r.text = "old";
        f(r);
        return keepM(r);
    }
};

struct ChanBase
{
    int ch;
    bool canBeCut;
    bool json() const { return ch == 1 || ch == 6; }
    std::map<long, std::string> messages; // as they went out
    virtual ~ChanBase() {}
    virtual void publish(int kind, int seq, int v) = 0;
    virtual void deliver(long mid, bool cut) = 0;
};
template<class Ev> struct EvPub // the publisher side shared by all rigs
{
    static void publish(kpsr::Publisher<Ev> &to, int ch, int kind, int seq, int v)
    {
        auto e = std::make_shared<Ev>();
        fill(*e, seq, v);
        refuse[ksim::tid()] = kind == 4;
        hist::op("publish", {ch, kind, seq}, [&]() -> std::vector<long> {
            switch (kind) {
            case 0:
                to.publish(*e);
                break;
            case 1:
            case 4:
                to.publish(std::shared_ptr<const Ev>(e));
                break;
            default:
                to.processAndPublish([&](Ev &x) {
                    fill(x, seq, v);
                    if (kind == 3)
                        throw Exc();
                });
            }
            return {};
        });
        refuse[ksim::tid()] = false;
    }
};
template<class Ev, class M> struct Chan : ChanBase
{
    struct Rec : kpsr::Publisher<M>
    {
        Chan &c;
        explicit Rec(Chan &c)
            : kpsr::Publisher<M>(nullptr, "rec", "REC")
            , c(c)
        {}
        void processAndPublish(std::function<void(M &)> process) override
        {
            if (refuse[ksim::tid()])
                throw Exc();
            std::string m = Wire<M>::make([&](M &x) { process(x); });
            Ev e;
            fill(e, -1, 0);
            Wire<M>::with(m, [&](const M &x) { kpsr::Mapper<Ev, M>().fromMiddleware(x, e); });
            ksim::noPreempt(true);
            long mid = ++lastMid;
            hist::obs("msg", {c.ch, mid, e.seq, same(e)});
            c.messages[mid] = m;
            ksim::noPreempt(false);
        }
        void internalPublish(const M &) override { hist::obs("unexpected", {}); }
        void internalPublish(std::shared_ptr<const M>) override { hist::obs("unexpected", {}); }
    };
    std::unique_ptr<kpsr::ToMiddlewareChannel<Ev, M>> to;
    std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<Ev>> in;
    std::unique_ptr<kpsr::FromMiddlewareChannel<Ev, M>> from;
    Chan(int k, bool cut)
    {
        ch = k;
        canBeCut = cut;
        to.reset(new kpsr::ToMiddlewareChannel<Ev, M>(nullptr, "to", std::unique_ptr<kpsr::Publisher<M>>(new Rec(*this))));
        in.reset(new kpsr::EventEmitterMiddlewareProvider<Ev>(nullptr, "in", (int) rnd(3), nullptr, nullptr));
        from.reset(new kpsr::FromMiddlewareChannel<Ev, M>(in->getPublisher()));
        in->getSubscriber()->registerListener("l", [this](const Ev &e) { hist::obs("got", {ch, e.seq, same(e)}); });
    }
    void publish(int kind, int seq, int v) override { EvPub<Ev>::publish(*to, ch, kind, seq, v); }
    void deliver(long mid, bool cut) override
    {
        std::string m = messages[mid];
        if (cut)
            m.resize(rnd(rnd(2) ? std::min<size_t>(m.size(), 8) : m.size() - 1));
        hist::op("deliver", {ch, mid, cut}, [&]() -> std::vector<long> {
            Wire<M>::with(m, [&](const M &x) { from->onMiddlewareMessage(x); });
            return {};
        });
    }
};
struct Rig
{
    std::vector<std::unique_ptr<ChanBase>> c;
    Rig()
    {
        c.emplace_back(new Chan<Rich, std::string>(1, true));
        c.emplace_back(new Chan<Rich, Base>(2, true));
        c.emplace_back(new Chan<Pod, Bytes>(3, true));
        c.emplace_back(new Chan<Pod, Pod>(4, false));
        c.emplace_back(new Chan<Rich, Rich>(5, false));
        c.emplace_back(new Chan<Rich, std::string>(6, true));
    }
    void step()
    {
        ChanBase &x = *c[rnd(c.size())];
        if (rnd(2)) {
            int v, s = newSeq(v, x.json());
            int k = (int) rnd(8);
            x.publish(k > 4 ? k - 5 : k, s, v);
            return;
        }
        ChanBase &src = rnd(3) || !x.json() ? x : *c[x.ch == 1 ? 5 : 0]; // messages of one format may come from anywhere
        ksim::noPreempt(true);
        long mid = -1;
        if (!src.messages.empty()) {
            auto it = src.messages.begin();
            std::advance(it, rnd(src.messages.size()));
            mid = it->first;
            x.messages[mid] = it->second;
        }
        ksim::noPreempt(false);
        if (mid >= 0)
            x.deliver(mid, x.canBeCut && rnd(5) == 0);
    }
};

// event -> message -> middleware -> message -> event -> forwarder
struct PipeBase
{
    int ch;
    std::atomic<long> in{0}, out{0};
    virtual ~PipeBase() {}
    virtual void publish(int kind, int seq, int v) = 0;
    virtual void finish() {}
};
template<class Ev, class M> struct Pipe : PipeBase
{
    struct Ref : kpsr::Publisher<M>
    {
        kpsr::Publisher<M> *p;
        explicit Ref(kpsr::Publisher<M> *p)
            : kpsr::Publisher<M>(nullptr, "ref", "REF")
            , p(p)
        {}
        void processAndPublish(std::function<void(M &)> f) override
        {
            if (refuse[ksim::tid()])
                throw Exc();
            p->processAndPublish(f);
        }
        void internalPublish(const M &m) override { p->publish(m); }
        void internalPublish(std::shared_ptr<const M> m) override { p->publish(m); }
    };
    std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<Ev>> ev, fwd;
    std::unique_ptr<kpsr::FromMiddlewareChannel<Ev, M>> from;
    std::unique_ptr<kpsr::EventForwarder<Ev>> forwarder;
    std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<M>> em;
    std::unique_ptr<kpsr::mem::BasicMiddlewareProvider<M>> sq;
    std::unique_ptr<kpsr::ToMiddlewareChannel<Ev, M>> to;
    explicit Pipe(int k)
    {
        ch = k;
        ev.reset(new kpsr::EventEmitterMiddlewareProvider<Ev>(nullptr, "ev", (int) rnd(3), nullptr, nullptr));
        fwd.reset(new kpsr::EventEmitterMiddlewareProvider<Ev>(nullptr, "fwd", (int) rnd(3), nullptr, nullptr));
        from.reset(new kpsr::FromMiddlewareChannel<Ev, M>(ev->getPublisher()));
        forwarder.reset(new kpsr::EventForwarder<Ev>(fwd->getPublisher()));
        kpsr::Publisher<M> *p;
        kpsr::Subscriber<M> *s;
        if (rnd(3) == 0) {
            em.reset(new kpsr::EventEmitterMiddlewareProvider<M>(nullptr, "m", (int) rnd(3), nullptr, nullptr));
            p = em->getPublisher();
            s = em->getSubscriber();
        } else {
            sq.reset(new kpsr::mem::BasicMiddlewareProvider<M>(nullptr, "m", 2 + (int) rnd(3), (int) rnd(4), nullptr, nullptr, false));
            p = sq->getPublisher();
            s = sq->getSubscriber();
        }
        to.reset(new kpsr::ToMiddlewareChannel<Ev, M>(nullptr, "to", std::unique_ptr<kpsr::Publisher<M>>(new Ref(p))));
        s->registerListener("m", [this](const M &m) { from->onMiddlewareMessage(m); });
        fwd->getSubscriber()->registerListener("f", [this](const Ev &e) {
            hist::obs("fwd", {ch, e.seq, same(e)});
            out++;
        });
        ev->getSubscriber()->registerListener("e", [this](const Ev &e) {
            hist::obs("pipe", {ch, e.seq, same(e)});
            forwarder->onMessageReceived(e);
        });
        if (sq)
            sq->start();
    }
    void publish(int kind, int seq, int v) override
    {
        if (kind < 3)
            in++;
        EvPub<Ev>::publish(*to, ch, kind, seq, v);
    }
    void finish() override
    {
        while (out < in)
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        if (sq)
            sq->stop();
    }
};

static void scenario(const ksim::Params &p)
{
    spdlog::set_level(spdlog::level::off);
    lastMid = lastSeq = 0;
    variantOf.clear();
    refuse.clear();
    for (int i = 0; i < 32; i++)
        refuse[i] = false;
    hist::cfg(std::string("\"pipes\":") + (p.scen == "pipe" ? "1" : "0"));
    if (p.scen == "pipe") {
        std::vector<std::unique_ptr<PipeBase>> c;
        c.emplace_back(new Pipe<Rich, std::string>(1));
        if (rnd(2))
            c.emplace_back(new Pipe<Pod, Bytes>(2));
        auto body = [&](int k) {
            for (int i = 0; i < k; i++) {
                PipeBase &x = *c[rnd(c.size())];
                int v, s = newSeq(v, x.ch == 1), kind = (int) rnd(8);
                x.publish(kind > 4 ? kind - 5 : kind, s, v);
            }
        };
        if (rnd(2))
            hist::parallel(2 + (int) rnd(2), [&](int) { body(1 + (int) rnd(3)); });
        body((int) rnd(6));
        for (auto &x : c)
            x->finish();
        return;
    }
    Rig r;
    if (p.scen == "threads")
        hist::parallel(2 + (int) rnd(2), [&](int) {
            int k = 2 + (int) rnd(4);
            for (int i = 0; i < k; i++)
                r.step();
        });
    int k = 4 + (int) rnd(16);
    for (int i = 0; i < k; i++)
        r.step();
}
int main(int argc, char **argv)
{
    return ksim::driverMain(argc, argv, scenario);
}
