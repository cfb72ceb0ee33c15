// rnn <job file> <observations>: analyses whose paths are scored by a recurrent network as well.  Lines:
//   MODEL spec dic weights bits | RNN file|embed FILE k=v... [-- k=v...] | CONF k=v... | IN hex
//   keys: nce ukc ukl pw rw (numbers), eos unk sep (hex), fields (names joined by commas); those after --
//   are given to a model that has the network inside, as options at the time of the analysis
#include "c_env.h"
#include "core/analysis/rnn_scorer_gbeam.h"
#include "core/env.h"
using namespace vh;

int vh_cmd_jmodel_run(const std::string& out, const std::string& dic, int seed, int bits, const std::string& spec);

// in units of 1/64: all numbers involved are multiples
static long long q64(float f) {
  if (f != f || f > 1e6f || f < -1e6f) return -1000000000;
  double x = (double)f * 64;
  long long v = (long long)(x < 0 ? x - 0.5 : x + 0.5);
  double d = x - (double)v;
  if (d > 1e-4 || d < -1e-4) return -999999999;
  return v;
}

static analysis::rnn::RnnInferenceConfig rconf(const std::vector<std::string>& w, size_t from, size_t to) {
  analysis::rnn::RnnInferenceConfig c;
  for (size_t i = from; i < to; ++i) {
    auto e = w[i].find('=');
    std::string k = w[i].substr(0, e), v = w[i].substr(e + 1);
    if (k == "nce") c.nceBias = std::stof(v);
    else if (k == "ukc") c.unkConstantTerm = std::stof(v);
    else if (k == "ukl") c.unkLengthPenalty = std::stof(v);
    else if (k == "pw") c.perceptronWeight = std::stof(v);
    else if (k == "rw") c.rnnWeight = std::stof(v);
    else if (k == "eos") c.eosSymbol = unhex(v);
    else if (k == "unk") c.unkSymbol = unhex(v);
    else if (k == "sep") c.fieldSeparator = unhex(v);
    else if (k == "fields") {
      std::vector<std::string> f;
      std::istringstream is{v};
      std::string x;
      while (std::getline(is, x, ',')) f.push_back(x);
      c.rnnFields = f;
    } else die("bad key " + k);
  }
  return c;
}

struct PathOut {
  std::string nodes;
  int left, beam;
};

static std::vector<PathOut> finalPaths(const Lattice* l, int scorers, std::set<std::pair<int, int>>* seen) {
  std::vector<PathOut> res;
  int n = (int)l->createdBoundaryCount();
  auto eos = l->boundary(n - 1);
  auto gb = eos->ends()->globalBeam();
  auto raw = reinterpret_cast<const BeamCandidate*>(l->lastGbeamRaw());
  for (int i = 0; i < (int)gb.size(); ++i) {
    std::vector<std::string> out;
    auto put = [&](int b, int right, util::ArraySlice<float> sc, float total, bool last) {
      std::vector<long long> o{b, right, q64(sc.at(0))};
      if (scorers > 0) {
        o.push_back(scorers > 1 ? q64(sc.at(1)) : 0);
        if (!last) o.push_back(q64(total));
      }
      out.push_back(jints(o));
    };
    std::vector<const ConnectionBeamElement*> chain;
    for (const ConnectionPtr* p = &gb.at(i)->ptr; p != nullptr && p->boundary >= 2; p = p->previous) {
      chain.push_back(reinterpret_cast<const ConnectionBeamElement*>(p));
    }
    for (auto it = chain.rbegin(); it != chain.rend(); ++it) {
      auto& p = (*it)->ptr;
      put(p.boundary, p.right, l->boundary(p.boundary)->scores()->nodeScores(p.right).beamLeft(p.beam, p.left), (*it)->totalScore, false);
      if (seen) seen->insert({p.boundary, p.right});
    }
    put(n - 1, 0, eos->scores()->nodeScores(0).beamLeft(raw[i].beam(), raw[i].left()), 0, true);
    res.push_back({jarr(out), raw[i].left(), raw[i].beam()});
  }
  return res;
}

static std::string only(const std::vector<PathOut>& p) {
  std::vector<std::string> r;
  for (auto& x : p) r.push_back(x.nodes);
  return jarr(r);
}

VH_COMMAND(rnn) {
  std::ofstream out{args.at(1)};
  std::string base = args.at(1) + ".model", full = args.at(1) + ".rnnmodel";
  std::unique_ptr<JumanppEnv> plain, env;
  std::unique_ptr<RnnScorerGbeamFactory> fact;
  Conf conf;
  std::vector<std::string> fields;
  std::unique_ptr<Analyzer> a0, a1;
  int m = 0, r = 0;
  auto setup = [&](JumanppEnv* e) {
    e->setBeamSize(conf.get("beam", 3));
    e->setGlobalBeam(conf.get("gbeam", 3), conf.get("rcheck", 0), conf.get("rbeam", 0));
  };
  auto open = [&](std::unique_ptr<JumanppEnv>* e, const std::string& fn) {
    e->reset(new JumanppEnv);
    Status s = (*e)->loadModel(fn);
    if (!s) refused("cannot load: " + msgOf(s));
    s = (*e)->initFeatures(nullptr);
    if (!s) refused("features: " + msgOf(s));
  };
  for (auto& l : readCases(args.at(0))) {
    if (l.empty()) continue;
    watchdog(120);
    if (l[0] == "MODEL") {
      a0.reset();
      a1.reset();
      ++m;
      vh_cmd_jmodel_run(base, l.at(2), std::stoi(l.at(3)), std::stoi(l.at(4)), l.at(1));
      open(&plain, base);
    } else if (l[0] == "RNN") {
      ++r;
      a1.reset();
      fact.reset(new RnnScorerGbeamFactory);
      size_t cut = 3;
      while (cut < l.size() && l[cut] != "--") ++cut;
      auto c1 = rconf(l, 3, cut);
      fields = c1.rnnFields.value();
      env.reset();
      if (l[1] == "file") {
        open(&env, base);
        Status s = fact->make(l[2], env->coreHolder()->dic(), c1);
        if (!s) refused("network " + l[2] + ": " + msgOf(s));
        env->setRnnHolder(fact.get());
      } else {
        {
          JumanppEnv e;
          Status s = e.loadModel(base);
          if (!s) refused("cannot load: " + msgOf(s));
          s = fact->make(l[2], e.coreHolder()->dic(), c1);
          if (!s) refused("network " + l[2] + ": " + msgOf(s));
          auto info = e.modelInfoCopy();
          s = fact->makeInfo(&info, StringPiece{"net"});
          if (!s) refused("makeInfo: " + msgOf(s));
          model::ModelSaver sv;
          s = sv.open(full);
          if (s) s = sv.save(info);
          if (!s) refused("save: " + msgOf(s));
        }
        fact.reset();
        open(&env, full);
        if (cut < l.size()) env->setRnnConfig(rconf(l, cut + 1, l.size()));
      }
    } else if (l[0] == "CONF") {
      conf = Conf::parse(l, 1);
      a0.reset();
      a1.reset();
    } else if (l[0] == "IN") {
      if (!a0) {
        a0.reset(new Analyzer);
        setup(plain.get());
        Status s = plain->makeAnalyzer(a0.get());
        if (!s) refused("analyser: " + msgOf(s));
      }
      if (!a1) {
        a1.reset(new Analyzer);
        setup(env.get());
        Status s = env->makeAnalyzer(a1.get());
        if (!s) refused("analyser: " + msgOf(s));
      }
      std::string in = unhex(l.size() > 1 ? l[1] : "-");
      Obj o;
      o.num("m", m).num("r", r).str("in", in).num("K", conf.get("beam", 3));
      Status s0 = a0->analyze(in), s1 = a1->analyze(in);
      o.boolean("ok0", (bool)s0).boolean("ok", (bool)s1);
      if (s1 && s0) {
        auto l0 = a0->impl()->lattice();
        auto l1 = a1->impl()->lattice();
        std::set<std::pair<int, int>> seen;
        bool empty = l1->createdBoundaryCount() <= 3;
        std::vector<PathOut> p0, p1;
        if (!empty) {
          p0 = finalPaths(l0, 0, nullptr);
          p1 = finalPaths(l1, (int)env->scorers()->scoreWeights.size(), &seen);
        }
        o.boolean("empty", empty).raw("p0", only(p0)).raw("p1", only(p1));
        std::vector<std::string> es, ns;
        if (!empty) {
          bool gap = false;
          for (auto& e : l1->boundary(l1->createdBoundaryCount() - 1)->starts()->beamData().row(0)) {
            if (EntryBeam::isFake(e)) {
              gap = true;
              continue;
            }
            int which = gap ? -1 : 0;
            for (size_t i = 0; i < p1.size() && !gap; ++i) {
              if (p1[i].left == e.ptr.left && p1[i].beam == e.ptr.beam) which = (int)i + 1;
            }
            es.push_back(jints(std::vector<long long>{which, q64(e.totalScore)}));
          }
          auto& dic = env->coreHolder()->dic();
          for (auto& x : seen) {
            auto st = l1->boundary(x.first)->starts();
            auto& ni = st->nodeInfo().at(x.second);
            auto row = st->entryData().row(x.second);
            std::vector<std::string> vals;
            std::vector<int> kind;
            for (auto& f : fields) {
              auto fld = dic.fieldByName(StringPiece{f});
              if (fld == nullptr) die("no field " + f);
              int v = row.at(fld->idxInEntry);
              StringPiece sp;
              if (v >= 0) {
                if (!fld->strings.readAt(v, &sp)) die("no string");
                vals.push_back(jstr(sp.str()));
                kind.push_back(0);
              } else {
                auto xn = a1->impl()->extraNodesContext()->node(ni.entryPtr());
                std::string srf = xn->header.unk.surface.str();
                vals.push_back(jstr(srf));
                // 1: a text the dictionary does not have
                dic::impl::StringStorageTraversal tr{fld->strings};
                int k = 1;
                while (tr.next(&sp)) {
                  if (sp.str() == srf) k = 2;
                }
                kind.push_back(k);
              }
            }
            ns.push_back("[" + std::to_string(x.first) + "," + std::to_string(x.second) + "," + (ni.entryPtr().isDic() ? "1" : "0") + "," +
                         std::to_string(ni.numCodepoints()) + "," + jarr(vals) + "," + jints(kind) + "]");
          }
        }
        o.raw("eos", jarr(es)).raw("n", jarr(ns));
      }
      out << o.done() << "\n";
    } else {
      die("bad job line " + l[0]);
    }
  }
  a0.reset();
  a1.reset();
  env.reset();
  plain.reset();
  unlink(base.c_str());
  unlink(full.c_str());
  return 0;
}
