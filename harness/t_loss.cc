// loss <job file> <observations>: what the trainer makes of an example.
//   MODEL spec dic prio | CONF k=v ... | W seed bits | MODE full|falloff|maxviol | FRESH 0/1
//   EX <hex of one example as CSV> <hex of a JSON value copied to the observation>
#include "c_env.h"
#include "core/training/trainer.h"
using namespace vh;
using namespace jumanpp::core::training;

namespace {
long long exact(double f) {
  if (f != f || f > 1e9 || f < -1e9) return -1000000000;
  long long v = (long long)f;
  return (double)v == f ? v : -999999999;
}

struct Run {
  std::unique_ptr<Model> model;
  Weights w;
  Conf conf;
  TrainingConfig tc;
  std::unique_ptr<OpenAnalyzer> an;
  std::unique_ptr<Trainer> trainer;
  std::unique_ptr<TrainFieldsIndex> tio;
  std::unique_ptr<FullExampleReader> rdr;
  int firstMade = 0;  // the extra nodes from here on are made for training

  void make() {
    tc.featureNumberExponent = w.bits;
    tc.beamSize = conf.get("beam", 3);
    an.reset(new OpenAnalyzer(model->core.get(), ScoringConfig{tc.beamSize, 1}, conf.aconf()));
    Status s = an->initScorers(w.def);
    if (!s) refused("initScorers: " + msgOf(s));
    trainer.reset(new Trainer(an.get(), &model->core->spec().training, tc));
  }

  std::string features(LatticeNodePtr t2, LatticeNodePtr t1, LatticeNodePtr t0) {
    auto* l = an->lattice();
    size_t nf = model->dic.spec.features.ngram.size();
    auto row = [&](LatticeNodePtr p) { return l->boundary(p.boundary)->starts()->patternFeatureData().row(p.position); };
    auto st = l->boundary(t0.boundary)->starts()->patternFeatureData();
    std::vector<u32> buf(nf * st.numRows(), 0);
    util::Sliceable<u32> sl{util::MutableArraySlice<u32>{&buf}, nf, st.numRows()};
    features::impl::NgramFeatureData nd{sl, row(t2), row(t1), st};
    model->core->features().ngram->applyBatch(&nd);
    std::vector<u32> ix;
    for (size_t j = 0; j < nf; ++j) ix.push_back(buf[t0.position * nf + j] & ((1u << w.bits) - 1));
    return jints(ix);
  }

  // [b, p, s, e, kind, texts of all fields, ids of the training fields that count, from the text?, template]
  std::string nodes() {
    std::vector<std::string> out;
    auto* l = an->lattice();
    int n = (int)l->createdBoundaryCount();
    auto& om = an->output();
    auto& sp = model->dic.spec;
    auto firstRow = [&](EntryPtr e) {
      NodeWalker nw = om.nodeWalker();
      if (!om.locate(e, &nw) || !nw.next()) return std::string("[]");
      return fieldsJson(*model, om, nw);
    };
    for (int b = 2; b < n - 1; ++b) {
      auto st = l->boundary(b)->starts();
      for (int i = 0; i < (int)st->numEntries(); ++i) {
        auto& ni = st->nodeInfo().at(i);
        auto e = ni.entryPtr();
        bool unk = e.isSpecial();
        EntryPtr tpl{0};
        if (unk) tpl = an->extraNodesContext()->node(e)->header.unk.templatePtr;
        bool created = unk && an->extraNodesContext()->node(e)->header.index >= firstMade;
        bool known = false;
        for (auto& u : sp.unkCreators) known |= u.patternPtr == tpl.rawValue();
        auto data = st->entryData().row(i);
        std::vector<int> ids, flags;
        for (auto& tf : sp.training.fields) {
          int di = sp.dictionary.fields[tf.fieldIdx].dicIndex;
          if (tf.weight == 0 || di < 0) {
            ids.push_back(0);
            flags.push_back(2);
          } else {
            ids.push_back(data.at(di));
            flags.push_back(data.at(di) < 0);
          }
        }
        out.push_back("[" + std::to_string(b) + "," + std::to_string(i) + "," + std::to_string(ni.start()) + "," +
                      std::to_string(ni.end()) + "," + (created ? "2" : unk ? "1" : "0") + "," + firstRow(e) + "," +
                      jints(ids) + "," + jints(flags) + "," + (unk && !created && known ? firstRow(tpl) : "[]") + "]");
      }
    }
    return jarr(out);
  }

  void example(const std::string& csv, const std::string& extra, std::ostream& out, int m, const std::string& mode) {
    Obj o;
    o.num("m", m).raw("x", extra).str("mode", mode).num("bits", w.bits).num("seed", w.seed);
    const char* stage = "read";
    Status s = rdr->initCsv(csv);
    if (s) {
      trainer->reset();
      s = rdr->readFullExample(&trainer->example());
    }
    if (s) {
      stage = "prepare";
      // nodes which any analysis of the text has
      if (an->resetForInput(trainer->example().surface())) {
        (void)an->prepareNodeSeeds().isOk();
        firstMade = an->extraNodesContext()->makeZeroedUnk()->header.index;
      }
      trainer->resetState();
      s = trainer->prepare();
    }
    if (s) {
      stage = "compute";
      s = trainer->compute(&w.def);
    }
    o.boolean("ok", (bool)s);
    if (!s) {
      out << o.str("stage", stage).str("msg", msgOf(s)).done() << "\n";
      return;
    }
    trainer->computeTrainingLoss();
    std::vector<std::string> known, gold, top, gf, tf;
    auto& ex = trainer->example();
    for (int i = 0; i < ex.numNodes(); ++i) {
      std::vector<int> k;
      for (auto v : ex.nodeAt(i).data) k.push_back(v >= 0);
      known.push_back(jints(k));
    }
    auto* l = an->lattice();
    u16 eosB = (u16)(l->createdBoundaryCount() - 1);
    std::vector<LatticeNodePtr> g{{0, 0}, {1, 0}};
    for (auto& p : trainer->goldenPath().nodes()) {
      gold.push_back("[" + std::to_string(p.boundary) + "," + std::to_string(p.position) + "]");
      g.push_back(p);
    }
    g.push_back({eosB, 0});
    for (size_t i = 2; i < g.size(); ++i) gf.push_back(features(g[i - 2], g[i - 1], g[i]));
    if (l->createdBoundaryCount() > 3) {
      // the best path, from the end
      const ConnectionBeamElement* el = &l->boundary(eosB)->starts()->beamData().row(0).at(0);
      std::vector<const ConnectionBeamElement*> els;
      while (el->ptr.boundary >= 2) {
        els.push_back(el);
        el = reinterpret_cast<const ConnectionBeamElement*>(el->ptr.previous);
      }
      for (size_t i = els.size(); i-- > 0;) {
        auto& p = els[i]->ptr;
        top.push_back("[" + std::to_string(p.boundary) + "," + std::to_string(p.right) + "," +
                      std::to_string(exact(els[i]->totalScore)) + "]");
        tf.push_back(features(p.previous->previous->latticeNodePtr(), p.previous->latticeNodePtr(), p.latticeNodePtr()));
      }
    }
    // does the beam of every gold node continue the previous gold node?
    std::vector<int> inBeam;
    for (size_t i = 2; i < g.size() && l->createdBoundaryCount() > 3; ++i) {
      bool in = i == 2;
      for (auto& e : l->boundary(g[i].boundary)->starts()->beamData().row(g[i].position)) {
        if (EntryBeam::isFake(e)) break;
        if (e.ptr.previous->boundary == g[i - 1].boundary && e.ptr.previous->right == g[i - 1].position) in = true;
      }
      inBeam.push_back(in);
    }
    std::vector<std::string> diff;
    for (auto& f : trainer->featureDiff()) {
      diff.push_back("[" + std::to_string(f.feature) + "," + std::to_string((long long)std::floor(f.score * 1024 + 0.5)) + "]");
    }
    double lv = trainer->lossValue();
    o.num("eos", eosB).raw("known", jarr(known)).raw("n", nodes()).raw("gold", jarr(gold)).raw("top", jarr(top));
    o.raw("gf", jarr(gf)).raw("tf", jarr(tf)).raw("diff", jarr(diff)).raw("inb", jints(inBeam)).boolean("zero", lv == 0);
    o.num("loss", lv != lv || lv > 1000 || lv < -1000 ? -1 : (long long)std::floor(lv * 65536 + 0.5));
    o.boolean("added", trainer->wasGoldAdded());
    out << o.done() << "\n";
  }
};
}  // namespace

VH_COMMAND(loss) {
  std::ofstream out{args.at(1)};
  Run r;
  r.w.make(1, 12);
  int m = 0;
  std::string mode = "full", tmp = args.at(1) + ".model";
  bool fresh = false;
  for (auto& l : readCases(args.at(0))) {
    if (l.empty()) continue;
    watchdog(120);
    if (l[0] == "MODEL") {
      r.rdr.reset();
      r.trainer.reset();
      r.an.reset();
      r.tio.reset();
      r.model.reset(new Model);
      ++m;
      if (!r.model->build(l[1], l[2], l.size() > 3 ? l[3] : "-", tmp)) {
        refused("model " + std::to_string(m) + ": " + r.model->failStage + ": " + r.model->failMsg);
      }
      r.tio.reset(new TrainFieldsIndex);
      Status s = r.tio->initialize(*r.model->core);
      if (!s) refused("training fields: " + msgOf(s));
      r.rdr.reset(new FullExampleReader);
      r.rdr->setTrainingIo(r.tio.get());
    } else if (l[0] == "CONF") {
      r.conf = Conf::parse(l, 1);
      r.trainer.reset();
    } else if (l[0] == "W") {
      r.w.make(std::stoi(l[1]), std::stoi(l[2]));
      r.trainer.reset();
    } else if (l[0] == "MODE") {
      mode = l[1];
      r.tc.mode = mode == "full" ? TrainingMode::Full : mode == "falloff" ? TrainingMode::FalloffBeam : TrainingMode::MaxViolation;
      r.trainer.reset();
    } else if (l[0] == "FRESH") {
      fresh = l[1] == "1";
    } else if (l[0] == "EX") {
      if (fresh || !r.trainer) r.make();
      r.example(unhex(l[1]), unhex(l[2]), out, m, mode);
    } else {
      die("bad job line " + l[0]);
    }
  }
  unlink(tmp.c_str());
  return 0;
}
