#pragma once
#include <atomic>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/environment.h>
#include <klepsydra/sdk/service_stats.h>
namespace kpsr {
class Service
{
public:
    Service(Container *container, Environment *environment, const std::string &serviceName, bool = false)
        : serviceStats(serviceName)
        , _environment(environment)
        , _container(container)
    {
        if (_container)
            _container->attach(this);
    }
    virtual ~Service()
    {
        if (_container)
            _container->detach(this);
    }
    void startup()
    {
        if (!_started.exchange(true))
            start();
    }
    void shutdown()
    {
        if (_started.exchange(false))
            stop();
    }
    void runOnce()
    {
        if (!_started)
            return;
        serviceStats.startProcessMeasure();
        execute();
        serviceStats.stopProcessMeasure();
    }
    ServiceStats serviceStats;

protected:
    virtual void start() = 0;
    virtual void stop() = 0;
    virtual void execute() = 0;
    Environment *_environment;

private:
    Container *_container;
    std::atomic<bool> _started{false};
};
} // namespace kpsr
