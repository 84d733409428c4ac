#pragma once
#include <functional>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/subscription_stats.h>
#include <memory>
namespace kpsr {
template<class T> class Subscriber
{
public:
    Subscriber(Container *container, const std::string &name, const std::string &type)
        : container(container)
        , name(name)
        , type(type)
    {}
    virtual ~Subscriber() {}
    virtual void registerListenerOnce(const std::function<void(const T &)> listener) = 0;
    virtual void registerListener(const std::string &listenerName,
                                  const std::function<void(const T &)> listener) = 0;
    virtual void removeListener(const std::string &listenerName) = 0;
    virtual std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &listenerName) = 0;
    virtual void registerSharedPtrListener(const std::string &,
                                           const std::function<void(const std::shared_ptr<const T> &)>)
    {}
    virtual void registerSharedPtrListenerOnce(const std::function<void(const std::shared_ptr<const T> &)>)
    {}
    virtual void setContainer(Container *c) { container = c; }
    Container *container;
    std::string name, type;
};
} // namespace kpsr
