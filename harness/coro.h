// Cooperative scheduler for interleaving real solver calls at scheduling points, clock and allocator interposition.
#pragma once
#include "explore.h"
#include <chrono>
#include <exception>
#include <ucontext.h>

namespace verif
{
struct Sched
{
  struct Task
  {
    ucontext_t ctx;
    char * stack = nullptr; // reused over executions
    std::function<void()> fn;
    bool done = false;
    std::exception_ptr err;
  };
  std::vector<std::unique_ptr<Task>> tasks;
  ucontext_t main_ctx;
  int cur = -1;
  long points = 0, switches = 0;
  std::function<int(int cur, int alive)> choose; // returns 0 to continue, 1.. to switch to the next alive task

  static Sched *& active()
  {
    static Sched * s = nullptr;
    return s;
  }
  static void entry()
  {
    Sched * s = active();
    Task & t = *s->tasks[s->cur];
    try
    {
      t.fn();
    }
    catch(...)
    {
      t.err = std::current_exception();
    }
    t.done = true;
    swapcontext(&t.ctx, &s->main_ctx);
  }
  void add(std::function<void()> f)
  {
    auto t = std::make_unique<Task>();
    t->fn = std::move(f);
    static std::vector<std::unique_ptr<char[]>> pool;
    const size_t size = 1 << 20;
    while(pool.size() <= tasks.size()) pool.emplace_back(new char[size]);
    t->stack = pool[tasks.size()].get();
    getcontext(&t->ctx);
    t->ctx.uc_stack.ss_sp = t->stack;
    t->ctx.uc_stack.ss_size = size;
    t->ctx.uc_link = nullptr;
    makecontext(&t->ctx, entry, 0);
    tasks.push_back(std::move(t));
  }
  // scheduling point, called from inside a task
  static bool & busy()
  {
    static bool b = false;
    return b;
  }
  static void point()
  {
    Sched * s = active();
    if(!s || s->cur < 0 || busy()) return;
    int alive = 0;
    for(auto & t : s->tasks) alive += !t->done;
    if(alive < 2) return;
    s->points++;
    struct Guard
    {
      Guard() { busy() = true; }
      ~Guard() { busy() = false; } // choose may throw to abandon the execution
    };
    int k;
    {
      Guard g;
      k = s->choose(s->cur, alive);
    }
    if(k == 0) return;
    s->switches++;
    int me = s->cur;
    s->next = me;
    while(k > 0)
    {
      s->next = (s->next + 1) % static_cast<int>(s->tasks.size());
      if(!s->tasks[s->next]->done) k--;
    }
    swapcontext(&s->tasks[me]->ctx, &s->main_ctx);
  }
  int next = 0;
  void run(int first)
  {
    active() = this;
    next = first;
    while(true)
    {
      if(tasks[next]->done)
      {
        int i = 0, n = static_cast<int>(tasks.size());
        for(; i < n; i++)
          if(!tasks[i]->done) break;
        if(i == n) break;
        next = i;
      }
      cur = next;
      swapcontext(&main_ctx, &tasks[cur]->ctx);
      cur = -1;
    }
    active() = nullptr;
    for(auto & t : tasks)
      if(t->err) std::rethrow_exception(t->err);
  }
};

// --- clock -------------------------------------------------------------------------------------------------------
struct ClockCtl
{
  int mode = 0; // 0: regular ticks 1: constant 2: backwards 3: huge jumps 4: alternating
  long n = 0;
  long value = 0, tick = 0; // mode 10: set by the harness, advanced by tick at each reading
  bool yield = false;
  static ClockCtl & get()
  {
    static ClockCtl c;
    return c;
  }
  long read()
  {
    if(yield) Sched::point();
    n++;
    switch(mode)
    {
      case 1: return 1000;
      case 2: return 4000000000000000000L - n * 1000003L;
      case 3: return (n % 5) * 1000000000000000000L;
      case 10: return value += tick;
      case 4: return n % 2 ? -1000000000L : 1000000000L;
    }
    return 1700000000000000000L + n * 12345L;
  }
};
// --- allocator -----------------------------------------------------------------------------------------------------
struct AllocCtl
{
  int fill = -1; // byte written to fresh memory, -1: none
  bool yield = false;
  static AllocCtl & get()
  {
    static AllocCtl c;
    return c;
  }
};
// Fills the stack below the caller with a pattern, so uninitialised locals have defined contents.
__attribute__((noinline)) inline void paintStack(int byte)
{
  volatile char buf[96 * 1024];
  memset(const_cast<char *>(buf), byte, sizeof(buf));
  asm volatile("" : : "r"(buf) : "memory");
}
} // namespace verif

#ifdef VERIF_INTERPOSE
namespace std
{
namespace chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept
{
  return time_point(duration(::verif::ClockCtl::get().read()));
}
steady_clock::time_point steady_clock::now() noexcept
{
  return time_point(duration(::verif::ClockCtl::get().read()));
}
} // namespace _V2
} // namespace chrono
} // namespace std
extern "C" void * __libc_malloc(size_t);
extern "C" void * malloc(size_t n)
{
  void * p = __libc_malloc(n);
  if(p)
  {
    ::verif::AllocCtl & a = ::verif::AllocCtl::get();
    if(a.fill >= 0) memset(p, a.fill, n);
    if(a.yield) ::verif::Sched::point();
  }
  return p;
}
#endif
