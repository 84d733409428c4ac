// A container that remembers which statistics are attached.
#pragma once
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/service.h>
#include <mutex>
#include <set>
struct RecContainer : kpsr::Container
{
    std::multiset<const void *> subs, pubs, funs, svcs;
    bool bad = false;
    template<class S> void add(S &s, const void *p)
    {
        if (p)
            s.insert(p);
    }
    template<class S> void del(S &s, const void *p)
    {
        auto i = s.find(p);
        if (p && i != s.end())
            s.erase(i);
    }
    void start() override {}
    void stop() override {}
    void attach(kpsr::Service *p) override { add(svcs, p); }
    void detach(kpsr::Service *p) override { del(svcs, p); }
    void attach(kpsr::FunctionStats *p) override { add(funs, p); }
    void detach(kpsr::FunctionStats *p) override { del(funs, p); }
    void attach(kpsr::ServiceStats *p) override { add(svcs, p); }
    void attach(kpsr::PublicationStats *p) override { add(pubs, p); }
    void detach(kpsr::PublicationStats *p) override { del(pubs, p); }
    void attach(kpsr::SubscriptionStats *p) override { add(subs, p); }
    void detach(kpsr::SubscriptionStats *p) override { del(subs, p); }
    std::string getName() const override { return "rec"; }
    kpsr::Environment *getEnvironment() const override { return nullptr; }
};
