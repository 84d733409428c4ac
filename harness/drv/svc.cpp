// Histories of managed services and the commands they follow (C30).
#include "hist.h"
#include <atomic>
#include <memory>
#include <spdlog/spdlog.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/core/event_forwarder.h>
#include <klepsydra/core/manage_service.h>
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
#include <klepsydra/mem_core/basic_middleware_provider.h>
using ksim::rnd;
using Cmd = kpsr::SystemEventData;

struct Svc : kpsr::ManagedService
{
    long id, ran = 0;
    Svc(long id, kpsr::Subscriber<Cmd> *s)
        : kpsr::ManagedService(nullptr, s, "service" + std::to_string(id))
        , id(id)
    {}
    void start() override
    {
        hist::obs("start", {id});
        ksim::point();
    }
    void stop() override
    {
        hist::obs("stop", {id});
        ksim::point();
    }
    void execute() override { ran++; }
};

using Loop = kpsr::high_performance::EventLoopMiddlewareProvider<64>;
struct Bus
{
    std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<Cmd>> em;
    std::unique_ptr<kpsr::mem::BasicMiddlewareProvider<Cmd>> sq;
    std::unique_ptr<Loop> loop;
    kpsr::Publisher<Cmd> *p;
    kpsr::Subscriber<Cmd> *s;
    std::atomic<long> seen{0}, sent{0};
    int kind;
    explicit Bus(int kind)
        : kind(kind)
    {
        if (kind == 0) {
            em.reset(new kpsr::EventEmitterMiddlewareProvider<Cmd>(nullptr, "system", (int) rnd(3), nullptr, nullptr));
            p = em->getPublisher();
            s = em->getSubscriber();
        } else if (kind == 1) {
            sq.reset(new kpsr::mem::BasicMiddlewareProvider<Cmd>(nullptr, "system", 2 + (int) rnd(4), (int) rnd(3), nullptr, nullptr, false));
            p = sq->getPublisher();
            s = sq->getSubscriber();
        } else {
            loop.reset(new Loop(nullptr, "el"));
            p = loop->getPublisher<Cmd>("system", 0, nullptr, nullptr);
            s = loop->getSubscriber<Cmd>("system");
        }
    }
    void start()
    {
        s->registerListener("probe", [this](const Cmd &) { seen++; });
        if (sq)
            sq->start();
        if (loop)
            loop->start();
    }
    void send(Cmd c)
    {
        sent++;
        switch (rnd(3)) {
        case 0:
            p->publish(c);
            break;
        case 1:
            p->publish(std::make_shared<const Cmd>(c));
            break;
        default:
            p->processAndPublish([c](Cmd &x) { x = c; });
        }
    }
    void settle()
    {
        while (seen < sent)
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
};

struct Rig
{
    std::vector<std::unique_ptr<Bus>> bus;
    std::vector<std::unique_ptr<Svc>> svc;
    std::vector<long> on;
    std::unique_ptr<kpsr::EventForwarder<Cmd>> fwd;
    Rig()
    {
        int n = 1 + (int) rnd(2), k = 1 + (int) rnd(4);
        for (int i = 0; i < n; i++)
            bus.emplace_back(new Bus((int) rnd(3)));
        bool chain = n == 2 && bus[0]->kind == 0 && bus[1]->kind == 0 && rnd(2);
        std::vector<long> sync;
        for (auto &b : bus)
            sync.push_back(b->kind == 0);
        for (int i = 0; i < k; i++)
            on.push_back((long) rnd(n + (rnd(4) == 0)) + 1);
        for (auto &o : on)
            if (o > n)
                o = 0; // a service of its own
        hist::cfg("\"on\":" + hist::arr(on) + ",\"sync\":" + hist::arr(sync) + ",\"chain\":" + std::to_string(chain));
        for (int i = 0; i < k; i++)
            svc.emplace_back(new Svc(i + 1, on[i] ? bus[on[i] - 1]->s : nullptr));
        if (chain) {
            fwd.reset(new kpsr::EventForwarder<Cmd>(bus[1]->p));
            bus[0]->s->registerListener("fwd", [this](const Cmd &c) {
                bus[1]->sent++;
                fwd->onMessageReceived(c);
            });
        }
        for (auto &b : bus)
            b->start();
    }
    void command(Bus &b, long i)
    {
        Cmd c = rnd(5) == 0 ? Cmd::Idle : rnd(2) ? Cmd::Start : Cmd::Stop;
        hist::op("command", {i, (long) c}, [&]() -> std::vector<long> {
            b.send(c);
            return {};
        });
    }
    void settle()
    {
        hist::op("settle", {}, [&]() -> std::vector<long> {
            for (auto &b : bus)
                b->settle();
            return {};
        });
    }
    void step()
    {
        Svc &x = *svc[rnd(svc.size())];
        switch (rnd(5)) {
        default: {
            long i = (long) rnd(bus.size());
            command(*bus[i], i + 1);
            break;
        }
        case 3:
            settle();
            for (auto &y : svc)
                hist::op("run", {y->id}, [&]() -> std::vector<long> {
                    y->ran = 0;
                    y->runOnce();
                    return {y->ran};
                });
            break;
        case 4: {
            settle();
            bool up = rnd(2);
            hist::op(up ? "startup" : "shutdown", {x.id}, [&]() -> std::vector<long> {
                if (up)
                    x.startup();
                else
                    x.shutdown();
                return {};
            });
        }
        }
    }
};

static void scenario(const ksim::Params &p)
{
    spdlog::set_level(spdlog::level::off);
    Rig r;
    if (p.scen == "threads") {
        hist::parallel(2 + (int) rnd(2), [&](int t) {
            int k = 1 + (int) rnd(3);
            for (int i = 0; i < k; i++) {
                long b = (long) rnd(r.bus.size());
                if (t == 0 || r.bus[b]->kind != 0) // emitters: one publishing thread
                    r.command(*r.bus[b], b + 1);
            }
        });
    }
    int k = 3 + (int) rnd(12);
    for (int i = 0; i < k; i++)
        r.step();
    r.settle();
    for (auto &b : r.bus) {
        if (b->sq)
            b->sq->stop();
        if (b->loop)
            b->loop->stop();
    }
}
int main(int argc, char **argv)
{
    return ksim::driverMain(argc, argv, scenario);
}
