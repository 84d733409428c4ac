#pragma once
#include <functional>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/publication_stats.h>
#include <memory>
#include <stdexcept>
#include <spdlog/spdlog.h>
namespace kpsr {
template<class T> class Publisher
{
public:
    Publisher(Container *container, const std::string &name, const std::string &type)
        : publicationStats(name, type, container != nullptr)
        , name(name)
        , container(container)
    {
        if (container)
            container->attach(&publicationStats);
    }
    virtual ~Publisher()
    {
        if (container)
            container->detach(&publicationStats);
    }
    void publish(const T &event)
    {
        publicationStats.startProcessMeasure();
        internalPublish(event);
        publicationStats.stopProcessMeasure();
    }
    void publish(std::shared_ptr<const T> event)
    {
        publicationStats.startProcessMeasure();
        internalPublish(event);
        publicationStats.stopProcessMeasure();
    }
    virtual void processAndPublish(std::function<void(T &)> process) = 0;
    void setContainer(Container *c)
    {
        container = c;
        if (container)
            container->attach(&publicationStats);
    }
    PublicationStats publicationStats;
    std::string name;

protected:
    virtual void internalPublish(const T &event) = 0;
    virtual void internalPublish(std::shared_ptr<const T> event) = 0;
    Container *container;
};
} // namespace kpsr
