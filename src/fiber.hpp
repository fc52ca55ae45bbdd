// Controlled scheduler: computations run as fibers that hand over control at
// every yield(); all interleavings are enumerated by depth-first replay.
#pragma once
#include "mc.hpp"
#include <memory>
#include <ucontext.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define FIBER_ASAN 1
#else
#define FIBER_ASAN 0
#endif

namespace fiber {
constexpr std::size_t stack_size = 256 * 1024;
class Sched {
  struct F {
    ucontext_t ctx;
    std::unique_ptr<char[]> stack;
    std::function<void()> fn;
    bool done = false;
    std::string error;
    void* fake = nullptr;
    std::string failure;
  };
  ucontext_t main_;
  void* main_fake_ = nullptr;
  void const* main_bottom_ = nullptr;
  std::size_t main_size_ = 0;
  std::vector<std::unique_ptr<F>> fs_;
  int cur_ = -1;
  static Sched*& self() {
    static Sched* s = nullptr;
    return s;
  }
  static void entry() {
    Sched* s = self();
    F* f = s->fs_[s->cur_].get();
#if FIBER_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &s->main_bottom_, &s->main_size_);
#endif
    try {
      f->fn();
    } catch(mc::Failure const& e) {
      f->error = e.msg;
    } catch(std::exception const& e) {
      f->error = std::string("exception: ") + e.what();
    } catch(...) {
      f->error = "exception of unknown type";
    }
    f->done = true;
    // the stack is kept until the scheduler is destroyed
#if FIBER_ASAN
    __sanitizer_start_switch_fiber(nullptr, s->main_bottom_, s->main_size_);
#endif
    swapcontext(&f->ctx, &s->main_);
  }
  void resume(int k) {
    cur_ = k;
    F* f = fs_[k].get();
    self() = this;
#if FIBER_ASAN
    __sanitizer_start_switch_fiber(&main_fake_, f->stack.get(), stack_size);
#endif
    swapcontext(&main_, &f->ctx);
#if FIBER_ASAN
    __sanitizer_finish_switch_fiber(main_fake_, nullptr, nullptr);
#endif
    cur_ = -1;
  }
  void yield_impl() {
    F* f = fs_[cur_].get();
#if FIBER_ASAN
    __sanitizer_start_switch_fiber(&f->fake, main_bottom_, main_size_);
#endif
    swapcontext(&f->ctx, &main_);
#if FIBER_ASAN
    __sanitizer_finish_switch_fiber(f->fake, nullptr, nullptr);
#endif
  }

  // stacks are reused
  static std::vector<std::unique_ptr<char[]>>& pool() {
    static std::vector<std::unique_ptr<char[]>> p;
    return p;
  }

public:
  Sched() = default;
  ~Sched() {
    for(auto& f : fs_) {
#if FIBER_ASAN
      __asan_unpoison_memory_region(f->stack.get(), stack_size);
#endif
      pool().push_back(std::move(f->stack));
    }
  }
  // Called by a computation at its scheduling points
  static void yield() {
    Sched* s = self();
    if(s && s->cur_ >= 0) s->yield_impl();
  }
  void add(std::function<void()> fn) {
    std::unique_ptr<F> f(new F);
    f->fn = std::move(fn);
    if(pool().empty()) f->stack.reset(new char[stack_size]);
    else {
      f->stack = std::move(pool().back());
      pool().pop_back();
    }
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack.get();
    f->ctx.uc_stack.ss_size = stack_size;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, &Sched::entry, 0);
    fs_.push_back(std::move(f));
  }
  // Runs under 'choice': at every step, choice(number of runnable fibers,
  // position of the fiber that ran last among them or -1)
  template <typename Ch> void run(Ch&& choice) {
    int last = -1;
    while(true) {
      std::vector<int> en;
      int lp = -1;
      for(std::size_t k = 0; k < fs_.size(); ++k)
        if(!fs_[k]->done) {
          if(int(k) == last) lp = int(en.size());
          en.push_back(int(k));
        }
      if(en.empty()) break;
      int c = en.size() == 1 ? 0 : choice(int(en.size()), lp);
      last = en[c];
      resume(last);
      if(!fs_[last]->error.empty()) err_ = mc::str("computation ", last, ": ", fs_[last]->error);
    }
    self() = nullptr;
  }
  std::string const& error() const { return err_; }

private:
  std::string err_;
};

// Enumerates all schedules with at most 'preempt' preemptions (-1: all).
// make(sched) adds the computations for one execution. Returns the number of schedules.
template <typename Make> uint64_t explore(Make&& make, int preempt, uint64_t& steps) {
  struct C {
    int n, lp, c;
  };
  std::vector<C> path;
  uint64_t n = 0;
  while(true) {
    std::size_t pos = 0;
    int used = 0;
    Sched s;
    make(s);
    s.run([&](int en, int lp) {
      ++steps;
      if(pos == path.size()) path.push_back({en, lp, lp >= 0 ? lp : 0}); // first: no preemption
      C& x = path[pos++];
      if(x.n != en || x.lp != lp) mc::fail("the computation is not deterministic");
      if(lp >= 0 && x.c != lp) ++used;
      return x.c;
    });
    ++n;
    if(!s.error().empty()) {
      std::string t = "schedule";
      for(auto const& x : path)
        t += mc::str(" ", x.c);
      mc::fail(t + ": " + s.error());
    }
    // next schedule: alternatives are tried in the order lp, 0, 1, ... (without lp)
    auto next = [](C& x) {
      if(x.lp < 0) return ++x.c < x.n;
      if(x.c == x.lp) {
        x.c = x.lp == 0 ? 1 : 0;
        return x.c < x.n;
      }
      ++x.c;
      if(x.c == x.lp) ++x.c;
      return x.c < x.n;
    };
    while(true) {
      if(path.empty()) return n;
      // number of preemptions before the last choice
      int before = 0;
      for(std::size_t i = 0; i + 1 < path.size(); ++i)
        before += path[i].lp >= 0 && path[i].c != path[i].lp;
      C& x = path.back();
      bool can = next(x);
      if(can && (preempt < 0 || x.lp < 0 || before < preempt)) break;
      path.pop_back();
    }
    (void)used;
  }
}
} // namespace fiber
