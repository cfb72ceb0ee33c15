// The real bounded queue under controlled schedules.
#include <atomic>
#include <set>
#include "util/common.hpp"
#include "util/logging.hpp"
#include "util/types.hpp"
#include "vh.h"
#include "vsched.h"
#define mutex vs_mutex
#define condition_variable vs_condition_variable
#include "util/bounded_queue.h"
#undef mutex
#undef condition_variable

using namespace vh;
namespace {
struct Elem {  // an element type of its own: other files use the queue with the real mutex
  int v = -77;
  Elem() = default;
  Elem(int x) : v{x} {}
};
using Queue = jumanpp::util::bounded_queue<Elem>;

struct Prog {
  int cap;
  bool lateInit;
  std::vector<std::vector<std::pair<char, int>>> threads;  // op letter, reserve
};

// o: offer, w: wait, p: poll, s: size
Prog parse(const std::string& s) {
  // "2:oow|wp|o1"  capacity, threads
  Prog p;
  p.cap = std::stoi(s.substr(0, s.find(':')));
  p.lateInit = false;
  std::vector<std::pair<char, int>> cur;
  for (char c : s.substr(s.find(':') + 1)) {
    if (c == '|') {
      p.threads.push_back(cur);
      cur.clear();
    } else if (c >= '1' && c <= '9') {
      cur.back().second = c - '0';
    } else if (c == '!') {
      p.lateInit = true;
    } else {
      cur.push_back({c, 0});
    }
  }
  p.threads.push_back(cur);
  return p;
}

std::string execute(const Prog& p, vsched::Chooser* ch, int preempt, int spurious, const std::vector<int>& deadOk) {
  (void)deadOk;
  auto q = std::unique_ptr<Queue>(p.lateInit ? new Queue{} : new Queue{static_cast<unsigned>(p.cap)});
  if (p.lateInit) q->initialize(static_cast<unsigned>(p.cap));
  std::string ev = "[";
  bool first = true;
  auto log = [&](const std::string& e) {
    if (!first) ev += ',';
    first = false;
    ev += e;
  };
  auto s = new vsched::Sched(ch, preempt, spurious);
  for (size_t t = 0; t < p.threads.size(); ++t) {
    s->spawn([&, t]() {
      int n = 0;
      for (auto& op : p.threads[t]) {
        s->yield();
        int item = static_cast<int>((t + 1) * 100) + n++;
        const char* name = op.first == 'o' ? "offer" : op.first == 'w' ? "wait" : op.first == 'p' ? "poll" : "size";
        log(Obj().str("e", "call").num("t", static_cast<int>(t) + 1).str("op", name).num("v", item).num("r", op.second).done());
        int res;
        if (op.first == 'o') {
          Elem e{item};
          res = q->offer(std::move(e), static_cast<unsigned>(op.second)) ? -2 : -1;
        } else if (op.first == 'w') {
          Elem e = q->waitFor();
          res = e.v;
        } else if (op.first == 'p') {
          Elem e;
          res = q->recieve(&e) ? e.v : -1;
        } else {
          res = static_cast<int>(q->size());
        }
        log(Obj().str("e", "ret").num("t", static_cast<int>(t) + 1).num("v", res).str("op", "").num("r", 0).done());
      }
    });
  }
  bool all = s->run();
  log(Obj().str("e", all ? "end" : "stuck").num("t", 1).num("v", s->runaway ? 1 : 0).str("op", "").num("r", 0).done());
  std::string r = Obj().str("kind", "history").num("cap", p.cap).num("n", static_cast<int>(p.threads.size())).raw("ev", ev + "]").done();
  if (all) {
    delete s;
  }  // stacks of blocked coroutines still refer to the queue: leave both
  else {
    q.release();
  }
  vsched::Sched::cur() = nullptr;
  return r;
}
}  // namespace

// queue_sched OUT SEED MAXEXEC PROGRAM...
VH_COMMAND(queue_sched) {
  watchdog(250);
  std::ofstream out{args[0]};
  Rng r{std::stoull(args[1])};
  long maxExec = std::stol(args[2]);
  std::set<std::string> seen;
  long execs = 0;
  bool exhausted = true;
  for (size_t i = 3; i < args.size(); ++i) {
    auto p = parse(args[i]);
    for (int pre = 0; pre <= 3; ++pre) {
      vsched::Chooser ch;
      long k = 0;
      do {
        seen.insert(execute(p, &ch, pre, 1, {}));
        ++k;
      } while (k < maxExec && ch.advance());
      if (k >= maxExec) exhausted = false;
      execs += k;
    }
    vsched::Chooser ch;
    ch.random = true;
    ch.rnd = [&](int n) { return r.below(n); };
    for (long k = 0; k < maxExec / 4; ++k) {
      seen.insert(execute(p, &ch, 1000, 2, {}));
      ++execs;
    }
  }
  for (auto& s : seen) out << s << "\n";
  std::cout << execs << " " << seen.size() << " " << exhausted << "\n";
  return 0;
}
