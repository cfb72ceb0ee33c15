// Controlled scheduling of code that synchronises through std::mutex and
// std::condition_variable.  Threads are coroutines; every lock, unlock, wait
// and notification is a scheduling point; the order is chosen by a Chooser.
// Spurious wake-ups are chosen too.  Used by defining the names mutex and
// condition_variable to vs_mutex and vs_condition_variable before the header
// under test is included.
#ifndef VSCHED_H
#define VSCHED_H
#include <ucontext.h>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace vsched {
// Systematic exploration: the choices made so far are a path in a tree.
class Chooser {
 public:
  std::vector<int> path, width;
  size_t pos = 0;
  bool random = false;
  std::function<int(int)> rnd;
  int choose(int n) {
    if (n <= 1) return 0;
    if (random) return rnd(n);
    if (pos == path.size()) {
      path.push_back(0);
      width.push_back(n);
    }
    width[pos] = n;
    return path[pos++];
  }
  // next path in depth first order; false when the tree is exhausted
  bool advance() {
    path.resize(pos);
    width.resize(pos);
    while (!path.empty() && path.back() + 1 >= width.back()) {
      path.pop_back();
      width.pop_back();
    }
    pos = 0;
    if (path.empty()) return false;
    path.back() += 1;
    return true;
  }
};

constexpr size_t kStack = 192 * 1024;
struct Mutex;
struct Cv;
struct Co {
  ucontext_t ctx;
  std::unique_ptr<char[]> stack;
  std::function<void()> body;
  bool done = false;
  Mutex* wantsMutex = nullptr;
  Cv* asleepOn = nullptr;
  Co* wantsEnd = nullptr;
  bool paused = false;  // asked to let others go first
};

class Sched {
 public:
  static Sched*& cur() {
    static Sched* s = nullptr;
    return s;
  }
  std::vector<std::unique_ptr<Co>> cos;
  ucontext_t main;
  Co* running = nullptr;
  Chooser* ch;
  int preemptions, spurious;
  long steps = 0;
  bool runaway = false;
  Sched(Chooser* c, int preempt, int spur) : ch{c}, preemptions{preempt}, spurious{spur} { cur() = this; }
  void spawn(std::function<void()> f) {
    cos.emplace_back(new Co{});
    auto c = cos.back().get();
    c->body = std::move(f);
    c->stack.reset(new char[kStack]);
    getcontext(&c->ctx);
    c->ctx.uc_stack.ss_sp = c->stack.get();
    c->ctx.uc_stack.ss_size = kStack;
    c->ctx.uc_link = &main;
    makecontext(&c->ctx, reinterpret_cast<void (*)()>(&Sched::entry), 0);
  }
  static void entry() {
    auto s = cur();
    auto c = s->running;
    c->body();
    c->done = true;
    swapcontext(&c->ctx, &s->main);
  }
  bool enabled(Co* c);
  // runs until nothing is enabled; true if everything is done
  bool run();
  void yield() {
    if (running == nullptr) return;
    auto c = running;
    swapcontext(&c->ctx, &main);
  }
};

struct Mutex {
  bool locked = false;
  void lock() {
    auto s = Sched::cur();
    if (s == nullptr || s->running == nullptr) {
      locked = true;
      return;
    }
    s->running->wantsMutex = this;
    s->yield();
    locked = true;
    s->running->wantsMutex = nullptr;
  }
  bool try_lock() {
    auto s = Sched::cur();
    if (s && s->running) s->yield();
    if (locked) return false;
    locked = true;
    return true;
  }
  void unlock() {
    locked = false;
    auto s = Sched::cur();
    if (s && s->running) s->yield();
  }
};

struct Cv {
  std::vector<Co*> sleepers;
  template <typename L>
  void wait(L& l) {
    auto s = Sched::cur();
    auto m = l.mutex();
    auto c = s->running;
    m->locked = false;
    c->asleepOn = this;
    c->wantsMutex = m;
    sleepers.push_back(c);
    s->yield();
    m->locked = true;
    c->wantsMutex = nullptr;
  }
  template <typename L, typename P>
  void wait(L& l, P p) {
    while (!p()) wait(l);
  }
  template <typename L, typename D>
  std::cv_status wait_for(L& l, D) {
    wait(l);
    return std::cv_status::no_timeout;
  }
  void wake(size_t i) {
    sleepers[i]->asleepOn = nullptr;
    sleepers.erase(sleepers.begin() + i);
  }
  void notify_one() {
    auto s = Sched::cur();
    if (s && s->running) s->yield();
    if (!sleepers.empty()) wake(static_cast<size_t>(s->ch->choose(static_cast<int>(sleepers.size()))));
  }
  void notify_all() {
    auto s = Sched::cur();
    if (s && s->running) s->yield();
    while (!sleepers.empty()) wake(0);
  }
};

inline bool Sched::enabled(Co* c) {
  return !c->done && c->asleepOn == nullptr && (c->wantsEnd == nullptr || c->wantsEnd->done) && (c->wantsMutex == nullptr || !c->wantsMutex->locked);
}

inline bool Sched::run() {
  Co* last = nullptr;
  while (true) {
    std::vector<Co*> opts, sp;
    if (last && enabled(last) && !last->paused) opts.push_back(last);
    bool canPreempt = opts.empty() || preemptions > 0;
    if (canPreempt)
      for (auto& c : cos)
        if (c.get() != last && enabled(c.get()) && !c->paused) opts.push_back(c.get());
    if (opts.empty()) {
      // everybody who could go lets others go first
      for (auto& c : cos)
        if (enabled(c.get())) {
          c->paused = false;
          opts.push_back(c.get());
        }
    }
    size_t nReal = opts.size();
    if (spurious > 0)
      for (auto& c : cos)
        if (c->asleepOn != nullptr) sp.push_back(c.get());
    if (opts.empty()) break;  // spurious wake-ups are not owed to anyone
    int k = ch->choose(static_cast<int>(opts.size() + sp.size()));
    if (static_cast<size_t>(k) >= nReal) {
      auto c = sp[static_cast<size_t>(k) - nReal];
      auto& v = c->asleepOn->sleepers;
      for (size_t i = 0; i < v.size(); ++i)
        if (v[i] == c) {
          c->asleepOn->wake(i);
          break;
        }
      --spurious;
      continue;
    }
    auto c = opts[static_cast<size_t>(k)];
    if (last && c != last && enabled(last) && !last->paused) --preemptions;
    if (c != last)
      for (auto& o : cos) o->paused = false;
    if (++steps > 20000) {
      runaway = true;
      break;
    }
    running = c;
    last = c;
    swapcontext(&main, &c->ctx);
    running = nullptr;
  }
  bool all = true;
  for (auto& c : cos) all = all && c->done;
  return all;
}

// std::thread as a coroutine of the current scheduler
struct Thread {
  Co* co = nullptr;
  Thread() = default;
  template <typename F, typename... A>
  explicit Thread(F f, A... a) {
    auto s = Sched::cur();
    s->spawn([=]() { f(a...); });
    co = s->cos.back().get();
    s->yield();
  }
  Thread(Thread&& o) noexcept : co{o.co} { o.co = nullptr; }
  Thread& operator=(Thread&& o) noexcept {
    co = o.co;
    o.co = nullptr;
    return *this;
  }
  bool joinable() const { return co != nullptr; }
  void join() {
    auto s = Sched::cur();
    s->running->wantsEnd = co;
    s->yield();
    s->running->wantsEnd = nullptr;
    co = nullptr;
  }
  void detach() { co = nullptr; }
  static unsigned hardware_concurrency() { return 8; }
};
namespace this_thread_impl {
inline void yield() {
  auto s = Sched::cur();
  if (s && s->running) {
    s->running->paused = true;
    s->yield();
  }
}
template <typename D>
void sleep_for(D) {
  yield();
}
}  // namespace this_thread_impl
}  // namespace vsched

namespace std {
using vs_thread = ::vsched::Thread;
namespace vs_this_thread = ::vsched::this_thread_impl;
using vs_mutex = ::vsched::Mutex;
using vs_condition_variable = ::vsched::Cv;
}  // namespace std
#endif
