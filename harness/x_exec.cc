// The real training executor and batch loop under controlled schedules.
// Trainers, example readers and the weight update are stand-ins that record
// what is asked of them; queues, threads and the loop are the real code.
#include <algorithm>
#include <atomic>
#include <set>
#include "core/analysis/rnn_scorer.h"
#include "core/env.h"
#include "core/input/partial_example_io.h"
#include "core/training/scw.h"
#include "core/training/trainer.h"
#include "util/debug_output.h"
#include "util/logging.hpp"
#include "vh.h"
#ifndef VH_REAL_THREADS
#include "vsched.h"
#endif
#include <mutex>
#include <thread>

namespace {
struct Log {
  std::string s = "[";
  bool first = true;
  std::mutex mx;
  void add(const char* e, int x, int r = 0) {
    std::lock_guard<std::mutex> l{mx};
    if (!first) s += ',';
    first = false;
    s += std::string("[\"") + e + "\"," + std::to_string(x) + "," + std::to_string(r) + "]";
  }
};
Log* theLog = nullptr;
}  // namespace

namespace jumanpp {
namespace core {
namespace training {
// outcome: 0 fine, 1 prepare fails, 2 compute fails, 3 prepare throws, 4 compute throws
struct FakeTrainer final : ITrainer {
  int id, outcome;
  ScoredFeature feat;
  FakeTrainer(int i, int o) : id{i}, outcome{o}, feat{(u32)i, 1.0f} {}
  static void point() {
#ifdef VH_REAL_THREADS
    static thread_local unsigned n = (unsigned)std::hash<std::thread::id>{}(std::this_thread::get_id());
    n = n * 1103515245 + 12345;
    if ((n >> 16) % 3 == 0) std::this_thread::yield();
    if ((n >> 16) % 7 == 0) std::this_thread::sleep_for(std::chrono::microseconds((n >> 20) % 200));
#else
    auto s = vsched::Sched::cur();
    if (s) s->yield();
#endif
  }
  Status prepare() override {
    theLog->add("prepare", id);
    point();
    if (outcome == 1) return JPPS_INVALID_STATE << "prepare of " << id;
    if (outcome == 3) throw std::runtime_error("prepare");
    return Status::Ok();
  }
  Status compute(const analysis::ScorerDef*) override {
    theLog->add("compute", id);
    point();
    theLog->add("end", id);
    if (outcome == 2) return JPPS_INVALID_STATE << "compute of " << id;
    if (outcome == 4) throw std::runtime_error("compute");
    return Status::Ok();
  }
  float loss() const override { return id; }
  util::ArraySlice<ScoredFeature> featureDiff() const override { return util::ArraySlice<ScoredFeature>{&feat, 1}; }
  ExampleInfo exampleInfo() const override {
    ExampleInfo i{};
    i.line = id;
    return i;
  }
  const analysis::OutputManager& outputMgr() const override { std::abort(); }
  void markGold(std::function<void(analysis::LatticeNodePtr)>) const override {}
  analysis::Lattice* lattice() const override { return nullptr; }
  void setGlobalBeam(const GlobalBeamTrainConfig&) override {}
};

struct FakeBatch : TrainerBatch {
  std::vector<FakeTrainer*> cur;
  i32 totalTrainers() const { return (i32)cur.size(); }
  i32 activeFullTrainers() const { return (i32)cur.size(); }
  ITrainer* trainer(i32 i) const { return cur.at(i); }
};
struct FakeScw : SoftConfidenceWeighted {
  using SoftConfidenceWeighted::SoftConfidenceWeighted;
  void update(float loss, util::ArraySlice<ScoredFeature> f) { theLog->add("update", f.size() == 1 ? (int)f.at(0).feature : -1, (int)loss); }
};
}  // namespace training
}  // namespace core
}  // namespace jumanpp

#ifndef VH_REAL_THREADS
#define mutex vs_mutex
#define condition_variable vs_condition_variable
#define thread vs_thread
#define this_thread vs_this_thread
#endif
#define TrainerBatch FakeBatch
#define SoftConfidenceWeighted FakeScw
#define private public
#include "core/training/training_executor.h"
#define class struct
#include "core/training/training_env.h"
#undef class
#undef private
#include "core/training/training_executor.cc"
#include "core/training/training_env.cc"
#undef mutex
#undef condition_variable
#undef thread
#undef this_thread
#undef TrainerBatch
#undef SoftConfidenceWeighted

using namespace jumanpp;
using namespace jumanpp::core::training;
using namespace vh;

namespace {
struct Prog {
  int threads = 1;
  bool env = false;
  std::string ops;  // executor: s submit, w wait, p poll; the outcome of the k-th trainer is outcomes[k]
  std::string outcomes;
  std::vector<std::vector<int>> batches;  // env: numbers of trainers
};

// "e2:ssww:000"  or  "b2:12,3,12:010" (batches of trainers, outcomes)
Prog parse(const std::string& s) {
  Prog p;
  p.env = s[0] == 'b';
  p.threads = s[1] - '0';
  auto a = s.find(':'), b = s.find(':', a + 1);
  auto mid = s.substr(a + 1, b - a - 1);
  p.outcomes = s.substr(b + 1);
  if (p.env) {
    p.batches.emplace_back();
    for (char c : mid) {
      if (c == ',') p.batches.emplace_back();
      else p.batches.back().push_back(c - '0');
    }
  } else {
    p.ops = mid;
  }
  return p;
}

#ifdef VH_REAL_THREADS
std::string execute(const Prog& p) {
#else
std::string execute(const Prog& p, vsched::Chooser* ch, int preempt, int spurious) {
#endif
  Log log;
  theLog = &log;
  std::vector<std::unique_ptr<FakeTrainer>> tr;
  for (size_t i = 0; i < p.outcomes.size(); ++i) tr.emplace_back(new FakeTrainer{(int)i + 1, p.outcomes[i] - '0'});
  auto runExec = [&]() {
    TrainingExecutor ex;
    if (!ex.initialize(nullptr, (u32)p.threads)) log.add("initfail", 0);
    auto deliver = [&](TrainingExecutionResult r) {
      int id = r.trainer ? static_cast<FakeTrainer*>(r.trainer)->id : 0;
      log.add("deliver", id, r.processStatus ? 1 : 0);
    };
    size_t next = 0;
    for (char o : p.ops) {
      if (o == 's') {
        if (next >= tr.size()) continue;
        log.add("submit", tr[next]->id);
        bool ok = ex.submitNext(tr[next].get());
        log.add(ok ? "accepted" : "refused", tr[next]->id);
        if (ok) ++next;
      } else if (o == 'w') {
        log.add("wait", 0);
        deliver(ex.waitOne());
      } else {
        TrainingExecutionResult r;
        if (ex.resultWithoutWait(&r)) deliver(std::move(r));
      }
    }
    log.add("destroy", 0);
  };
  TrainingArguments args;
  args.trainingConfig.featureNumberExponent = 4;
  auto runEnv = [&]() {
    TrainingEnv env{args, nullptr};
    if (!env.executor_.initialize(nullptr, (u32)p.threads)) log.add("initfail", 0);
    for (auto& b : p.batches) {
      env.trainers_.cur.clear();
      for (int i : b) env.trainers_.cur.push_back(tr[(size_t)i - 1].get());
      log.add("batch", 0);
      for (int i : b) log.add("in", i);
      Status st = env.trainOneBatch(0);
      log.add(st ? "ok" : "err", st ? (int)env.batchLoss() : 0);
    }
    log.add("destroy", 0);
  };
  auto body = [&]() {
    if (p.env) runEnv();
    else runExec();
    log.add("destroyed", 0);
  };
#ifdef VH_REAL_THREADS
  body();
  bool all = true;
#else
  auto s = new vsched::Sched(ch, preempt, spurious);
  s->spawn(body);
  bool all = s->run();
#endif
  log.add(all ? "finished" : "stuck", 0);
  theLog = nullptr;
  Obj o;
  o.str("kind", p.env ? "env" : "exec").num("threads", p.threads);
  std::vector<int> outs;
  for (auto& t : tr) outs.push_back(t->outcome == 0 ? 1 : 0);
  std::vector<int> prep;
  for (auto& t : tr) prep.push_back(t->outcome == 1 || t->outcome == 3 ? 0 : 1);
  o.raw("fine", jints(outs)).raw("prep", jints(prep)).raw("ev", log.s + "]");
#ifndef VH_REAL_THREADS
  if (all) {
    delete s;
  } else {
    for (auto& t : tr) t.release();
  }
  vsched::Sched::cur() = nullptr;
#endif
  return o.done();
}
}  // namespace

#ifndef VH_REAL_THREADS
// exec_sched OUT SEED MAXEXEC PROGRAM...
VH_COMMAND(exec_sched) {
  watchdog(600);
  std::ofstream out{args[0]};
  Rng r{std::stoull(args[1])};
  long maxExec = std::stol(args[2]);
  std::set<std::string> seen;
  long execs = 0, stuck = 0;
  for (size_t i = 3; i < args.size(); ++i) {
    auto p = parse(args[i]);
    for (int pre = 0; pre <= 3 && stuck < 40; ++pre) {
      vsched::Chooser ch;
      long k = 0;
      do {
        auto res = execute(p, &ch, pre, 1);
        if (res.find("\"stuck\"") != std::string::npos && ++stuck > 40) break;
        seen.insert(res);
        ++k;
      } while (k < maxExec && ch.advance());
      execs += k;
    }
    vsched::Chooser ch;
    ch.random = true;
    ch.rnd = [&](int n) { return r.below(n); };
    for (long k = 0; k < maxExec && stuck < 40; ++k) {
      auto res = execute(p, &ch, 1000, 2);
      if (res.find("\"stuck\"") != std::string::npos) ++stuck;
      seen.insert(res);
      ++execs;
    }
  }
  for (auto& s : seen) out << s << "\n";
  std::cout << execs << " " << seen.size() << "\n";
  return 0;
}
#else
// exec_stress OUT SEED N: random programs on real threads
VH_COMMAND(exec_stress) {
  watchdog(60);
  std::ofstream out{args[0]};
  Rng r{std::stoull(args[1])};
  std::set<std::string> seen;
  for (int i = 0; i < std::stoi(args[2]); ++i) {
    Prog p;
    p.threads = 1 + (int)r.below(4);
    p.env = r.below(2);
    int n = 1 + (int)r.below(9);
    for (int k = 0; k < n; ++k) p.outcomes += r.below(4) == 0 ? (char)('1' + r.below(4)) : '0';
    if (p.env) {
      int nb = 1 + (int)r.below(4);
      for (int b = 0; b < nb; ++b) {
        p.batches.emplace_back();
        for (int k = 1; k <= n; ++k)
          if (r.below(3)) p.batches.back().push_back(k);
      }
    } else {
      int open = 0;  // no wait without something to wait for
      for (int k = 0; k < 2 * n; ++k) {
        auto c = r.below(3);
        if (c == 0 && open > 0) p.ops += 'w', --open;
        else if (c == 1 || open >= 2 * p.threads) p.ops += 'w', open = open > 0 ? open - 1 : (p.ops.pop_back(), 0);
        else p.ops += 's', ++open;
      }
      if (open > n) p.ops.clear();
      // submissions past the last example are not made
      int subs = 0;
      std::string ops;
      int bal = 0;
      for (char o : p.ops) {
        if (o == 's' && subs < n) ++subs, ++bal, ops += 's';
        else if (o == 'w' && bal > 0) --bal, ops += 'w';
        else ops += 'p';
      }
      // a poll may take what a wait counts on
      if (ops.find('p') != std::string::npos && ops.find('w') != std::string::npos)
        ops.erase(std::remove(ops.begin(), ops.end(), 'w'), ops.end());
      p.ops = ops;
    }
    seen.insert(execute(p));
  }
  for (auto& s : seen) out << s << "\n";
  std::cout << seen.size() << "\n";
  return 0;
}
#endif
