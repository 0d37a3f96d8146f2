// Stand-in for mockturtle/networks/events.hpp
#pragma once
#include "../traits.hpp"
#include <functional>
#include <memory>
#include <vector>
namespace mockturtle
{
template <class Ntk>
class network_events
{
  public:
    using add_event_type      = void(node<Ntk> const& n);
    using modified_event_type = void(node<Ntk> const& n, std::vector<signal<Ntk>> const& previous_children);
    using delete_event_type   = void(node<Ntk> const& n);
    std::vector<std::shared_ptr<std::function<add_event_type>>>      on_add;
    std::vector<std::shared_ptr<std::function<modified_event_type>>> on_modified;
    std::vector<std::shared_ptr<std::function<delete_event_type>>>   on_delete;
    std::shared_ptr<std::function<add_event_type>> register_add_event(std::function<add_event_type> const& f)
    {
        auto p = std::make_shared<std::function<add_event_type>>(f);
        on_add.emplace_back(p);
        return p;
    }
    void release_add_event(std::shared_ptr<std::function<add_event_type>>& f)
    {
        for (auto it = on_add.begin(); it != on_add.end(); ++it)
            if (*it == f) { on_add.erase(it); break; }
        f = nullptr;
    }
};
}  // namespace mockturtle
