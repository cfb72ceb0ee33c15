// scw <observations> <seed> <n>: random histories of confidence-weighted updates.
// Weights and variances are read from the dumps the trainer writes; numbers are recorded in units of 2^-10.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <random>
#include <unordered_map>
#include <vector>
#include "c_env.h"
#include "core/training/scw.h"
using namespace vh;
using namespace jumanpp::core::training;

static long long fx(double v) {
  if (!std::isfinite(v)) return 1000000000;
  double r = std::floor(v * 1024 + 0.5);
  return r > 999999999 ? 999999999 : r < -999999999 ? -999999999 : (long long)r;
}
static int sgn(double v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }

struct Snap {
  std::vector<float> w, d;
};
static Snap snap(SoftConfidenceWeighted& s, const std::string& out) {
  auto slash = out.rfind('/');
  std::string dir = slash == std::string::npos ? "." : out.substr(0, slash), pre = out.substr(slash + 1);
  std::string fn = out + ".000007.mdldump";
  s.dumpModel(dir, pre, 7);
  model::FilesystemModel file;
  model::ModelInfo info;
  Status st = file.open(fn);
  if (st) st = file.load(&info);
  if (!st) refused("scw dump: " + msgOf(st));
  if (info.parts.size() != 1 || info.parts[0].data.size() != 3) die("scw dump: parts");
  auto vec = [](StringPiece p) {
    std::vector<float> r(p.size() / sizeof(float));
    std::memcpy(r.data(), p.data(), r.size() * sizeof(float));
    return r;
  };
  Snap r{vec(info.parts[0].data[1]), vec(info.parts[0].data[2])};
  ::unlink(fn.c_str());
  return r;
}

VH_COMMAND(scw) {
  std::ofstream out{args.at(0)};
  Rng rng{(uint64_t)std::stoll(args.at(1))};
  int n = std::stoi(args.at(2));
  for (int h = 0; h < n; ++h) {
    watchdog(60);
    TrainingConfig tc;
    tc.featureNumberExponent = rng.pick(std::vector<u32>{2, 3, 4, 6, 8, 10});
    static const std::vector<float> Cs{1.0f, 0.0625f, 8.0f}, phis{5.0f, 1.0f, 2.0f, 0.5f};
    tc.scw.C = rng.pick(Cs);
    tc.scw.phi = rng.pick(phis);
    tc.randomSeed = (u32)rng.next();
    SoftConfidenceWeighted scw{tc}, twin{tc};
    // features of the examples are in the lower half, the twin also gets others
    u32 all = tc.numFeatures(), total = all / 2;
    static const std::vector<float> starts{0.0f, 0.5f, -1.0f, 3.0f};
    if (rng.chance(50)) {
      float v = rng.pick(starts);
      scw.setAllWeights(v);
      twin.setAllWeights(v);
    }
    int nex = rng.range(1, 5);
    std::vector<std::vector<ScoredFeature>> exs;
    static const std::vector<float> scores{1, -1, 1, -1, 2, -2, 0.5f, -0.5f, 3, 0.25f, -7, 0};
    int big = rng.chance(10);
    for (int e = 0; e < nex; ++e) {
      std::vector<u32> ids;
      int k = rng.range(0, std::min<int>(total, big ? 60 : 7));
      for (u32 i = 0; i < total; ++i) ids.push_back(i);
      for (u32 i = 0; i + 1 < total; ++i) std::swap(ids[i], ids[i + rng.below(total - i)]);
      ids.resize(k);
      if (rng.chance(70)) std::sort(ids.begin(), ids.end());
      std::vector<ScoredFeature> x;
      if (rng.chance(60) && std::find(ids.begin(), ids.end(), 0u) == ids.end()) x.push_back({0, 0});
      for (u32 i : ids) x.push_back({i, rng.pick(scores)});
      exs.push_back(x);
    }
    static const std::vector<float> losses{0, 1, 0.5f, 0.25f, 1, 0.125f, 0.03125f, 0.000001f};
    int nup = rng.range(1, rng.chance(15) ? 120 : 20);
    std::vector<std::string> ev;
    int last = -1;
    for (int u = 0; u < nup; ++u) {
      int e = last >= 0 && rng.chance(60) ? last : rng.below(nex);
      last = e;
      float loss = rng.pick(losses);
      auto& x = exs[e];
      // what is outside the difference does not matter: the twin also gets updates elsewhere
      for (int k = rng.below(3); k > 0; --k) {
        std::vector<ScoredFeature> y;
        for (u32 i = total; i < all; ++i) {
          if (rng.chance(30)) y.push_back({i, rng.pick(scores)});
        }
        twin.update(rng.pick(losses), y);
      }
      std::vector<bool> in(all, false);
      for (auto& f : x) in[f.feature] = true;
      auto s0 = snap(scw, args.at(0)), t0 = snap(twin, args.at(0));
      auto &w0 = s0.w, &d0 = s0.d;
      scw.update(loss, x);
      twin.update(loss, x);
      auto s1 = snap(scw, args.at(0)), t1 = snap(twin, args.at(0));
      if (s1.w.size() != all || s1.d.size() != all) die("scw: size");
      double before = 0, after = 0;
      std::string fs = "[";
      int others = 0, twinDiff = 0, nonfinite = 0, nonpos = 0, seen = 0;
      auto ne = [](float a, float b) { return std::memcmp(&a, &b, 4) != 0; };
      for (u32 i = 0; i < all; ++i) {
        if (!std::isfinite(s1.w[i]) || !std::isfinite(s1.d[i])) nonfinite++;
        if (!(s1.d[i] > 0)) nonpos++;
        if (!in[i]) {
          if (ne(s1.w[i], w0[i]) || ne(s1.d[i], d0[i])) others++;
          if (ne(t1.w[i], t0.w[i]) || ne(t1.d[i], t0.d[i])) others++;
        }
        if (i < total && (ne(s1.w[i], t1.w[i]) || ne(s1.d[i], t1.d[i]))) twinDiff++;
        // what the scorer of the analysers says
        if (i < total) {
          float res = 0;
          u32 idx = i;
          util::ArraySlice<u32> one{&idx, 1};
          scw.scorers()->feature->compute(util::MutableArraySlice<float>{&res, 1}, util::ConstSliceable<u32>{one, 1, 1});
          if (ne(res, s1.w[i]) && res != s1.w[i]) seen++;
        }
      }
      bool first = true;
      for (auto& f : x) {
        before += (double)w0[f.feature] * f.score;
        after += (double)s1.w[f.feature] * f.score;
        if (!first) fs += ",";
        first = false;
        fs += jints(std::vector<long long>{f.feature, (long long)(f.score * 4), fx(w0[f.feature]), fx(d0[f.feature]),
                                           sgn((double)s1.w[f.feature] - w0[f.feature]),
                                           sgn((double)s1.d[f.feature] - d0[f.feature])});
      }
      Obj o;
      o.num("e", e).num("loss", (long long)(loss * 1024)).raw("x", fs + "]");
      o.num("others", others).num("twin", twinDiff).num("seen", seen).num("nonfinite", nonfinite).num("nonpos", nonpos);
      o.num("margin", sgn(after - before));
      ev.push_back(o.done());
    }
    Obj o;
    o.num("phi4", (long long)(tc.scw.phi * 4)).num("exp", tc.featureNumberExponent).raw("ev", jarr(ev));
    out << o.done() << "\n";
  }
  return 0;
}
