// Stand-in for the BetterThreads library (not part of the repository): enqueue(f, args...) -> future.
// Under the engine every task runs as its own logical thread with race detection; natively it runs on std::thread.
#pragma once
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include <exception>
#include "ls_api.h"
#ifndef LS_ENGINE
#include <future>
#include <thread>
#endif
extern "C" { int ls_task_begin(); void ls_task_end(int id); void ls_join(int id); }
namespace BetterThreads {
#ifdef LS_ENGINE
// a task has frames and a callable of its own: they share no storage with the function that enqueues it
template <class R, class F> __attribute__((noinline)) R* ls_body(F& f) { if constexpr (std::is_void_v<R>) { f(); return nullptr; } else return new R(f()); }
template <class R> class Future { struct S { std::unique_ptr<R> v; int id = 0; std::exception_ptr e; }; std::shared_ptr<S> s; public: Future() {} Future(Future&&) = default; Future& operator=(Future&&) = default; Future(const Future&) = delete;
  template <class F> static Future run(F& f) { Future r; r.s = std::make_shared<S>(); F* g = new F(std::move(f)); int id = ls_task_begin(); R* p = ls_body<R>(*g); ls_task_end(id); r.s->id = id; r.s->v.reset(p); return r; }
  R get() { ls_join(s->id); R x = std::move(*s->v); s.reset(); return x; } void wait() const { ls_join(s->id); } bool valid() const { return (bool)s; } };
template <> class Future<void> { int id = 0; bool ok = false; public: Future() {} Future(Future&& o) : id(o.id), ok(o.ok) { o.ok = false; } Future& operator=(Future&& o) { id = o.id; ok = o.ok; o.ok = false; return *this; } Future(const Future&) = delete;
  template <class F> static Future run(F& f) { Future r; F* g = new F(std::move(f)); int id = ls_task_begin(); ls_body<void>(*g); ls_task_end(id); r.id = id; r.ok = true; return r; } void get() { ls_join(id); ok = false; } void wait() const { ls_join(id); } bool valid() const { return ok; } };
#else
template <class R> class Future { std::future<R> f; public: Future() {} Future(std::future<R>&& x) : f(std::move(x)) {} Future(Future&&) = default; Future& operator=(Future&&) = default; R get() { return f.get(); } void wait() const { f.wait(); } bool valid() const { return f.valid(); }
  template <class F> static Future run(F& g) {
#ifdef LS_SEQUENTIAL
    std::packaged_task<R()> t(g); auto u = t.get_future(); t(); return Future(std::move(u));
#else
    return Future(std::async(std::launch::async, g));
#endif
  } };
#endif
class TaskManager { size_t n_ = 2, mx_ = 8; public: static TaskManager& instance() { static TaskManager t; return t; } size_t maximum_concurrency() const { return mx_; } size_t concurrency() const { return n_; } void set_concurrency(size_t n) { n_ = n; } void set_maximum_concurrency() { n_ = mx_; } void ls_set_maximum(size_t n) { mx_ = n; }
  template <class F, class... A> auto enqueue(F&& f, A... a) -> Future<std::invoke_result_t<F, A...>> { typedef std::invoke_result_t<F, A...> R; auto g = std::bind(std::forward<F>(f), std::move(a)...); return Future<R>::run(g); } };
}
