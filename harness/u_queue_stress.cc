// The real bounded queue with real threads.
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <thread>
#include "util/bounded_queue.h"
#include "vh.h"
using namespace vh;
namespace {
struct Item {
  int v = -77;
  std::vector<int> load;  // something that breaks when two threads move it
};
}
// queue_stress OUT SEED ROUNDS
VH_COMMAND(queue_stress) {
  watchdog(120);
  std::ofstream out{args[0]};
  Rng r{std::stoull(args[1])};
  int rounds = std::stoi(args[2]);
  for (int k = 0; k < rounds; ++k) {
    int np = r.range(1, 3), nc = r.range(1, 3), cap = r.range(1, 4), per = 60;
    jumanpp::util::bounded_queue<Item> q{static_cast<unsigned>(cap)};
    std::vector<std::vector<int>> acc(np), got(nc);
    std::vector<std::thread> ps, cs;
    std::atomic<int> maxSize{0};
    std::vector<bool> poll(nc);
    // consumers that wait get a share that is fixed; pollers take the rest
    std::atomic<int> taken{0};
    int total = np * per;
    for (int c = 0; c < nc; ++c) poll[c] = c > 0 && r.chance(50);
    std::atomic<int> tickets{0};
    for (int c = 0; c < nc; ++c) {
      cs.emplace_back([&, c]() {
        while (true) {
          Item it;
          if (poll[c]) {
            if (taken.load() >= total) return;
            if (!q.recieve(&it)) {
              std::this_thread::yield();
              continue;
            }
          } else {
            // elements with v < 0 end the waiting consumers
            it = q.waitFor();
            if (it.v < 0) return;
          }
          if (static_cast<int>(it.load.size()) != it.v % 7) it.v = 999999;
          if (it.v >= 0) {
            got[c].push_back(it.v);
            taken.fetch_add(1);
          }
        }
      });
    }
    for (int p = 0; p < np; ++p) {
      ps.emplace_back([&, p]() {
        for (int n = 0; n < per; ++n) {
          Item it;
          it.v = (p + 1) * 1000 + n;
          it.load.resize(static_cast<size_t>(it.v % 7));
          while (true) {
            Item copy = it;
            if (q.offer(std::move(copy))) break;
            std::this_thread::yield();
          }
          acc[p].push_back(it.v);
        }
      });
    }
    for (auto& t : ps) t.join();
    auto until = std::chrono::steady_clock::now() + std::chrono::seconds(10);
    bool stuck = false;
    while (taken.load() < total) {
      std::this_thread::sleep_for(std::chrono::microseconds(200));
      if (std::chrono::steady_clock::now() > until) {
        stuck = true;
        break;
      }
    }
    int waiters = 0;
    for (int c = 0; c < nc; ++c) waiters += poll[c] ? 0 : 1;
    std::vector<std::string> a, g;
    if (!stuck) {
      // pollers must not take the elements that end the waiting consumers
      for (int c = 0; c < nc; ++c)
        if (poll[c]) cs[c].join();
      for (int w = 0; w < waiters;) {
        Item e;
        e.v = -5;
        if (q.offer(std::move(e))) ++w;
        else std::this_thread::yield();
      }
      for (auto& t : cs)
        if (t.joinable()) t.join();
    }
    for (auto& x : acc) a.push_back(jints(x));
    for (auto& x : got) g.push_back(jints(x));
    out << Obj().str("kind", "stress").num("cap", cap).num("maxsize", maxSize).boolean("stuck", stuck).raw("accepted", jarr(a)).raw("got", jarr(g)).done() << std::endl;
    if (stuck) {
      out.close();
      _exit(0);  // threads are blocked for good
    }
  }
  return 0;
}
