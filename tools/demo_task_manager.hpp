// Stand-in for the BetterThreads library (a submodule that is not part of this checkout)
#pragma once
#include <functional>
#include <future>
#include <type_traits>
#include <utility>
namespace BetterThreads {
template <class R> using Future = std::future<R>;
class TaskManager
{
    size_t n_ = 2, max_ = 8;
public:
    static TaskManager& instance() { static TaskManager t; return t; }
    size_t maximum_concurrency() const { return max_; }
    size_t concurrency() const { return n_; }
    void set_concurrency(size_t n) { n_ = n; }
    void set_maximum_concurrency() { n_ = max_; }
    template <class F, class... A> auto enqueue(F&& f, A... a)
        -> std::future<std::invoke_result_t<F, A...>>
    {
        auto g = std::bind(std::forward<F>(f), std::move(a)...);
        return std::async(std::launch::async, g);
    }
};
}
