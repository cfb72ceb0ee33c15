// an <job file> <observations>: lines
//   MODEL spec dic prio | CONF k=v ... | W seed bits | DUMP word ... | FRESH 0/1 | IN hex
//   REP hex n: the text n times, only totals are recorded | GB left check right | UPTO n: stop the next
//   analysis after n of its five steps
#include <dlfcn.h>
#include "c_env.h"
using namespace vh;

VH_COMMAND(an) {
  std::ofstream out{args.at(1)};
  std::unique_ptr<features::StaticFeatureFactory> factory;
  std::unique_ptr<Model> model;
  Weights w;
  w.make(1, 12);
  Conf conf;
  std::map<std::string, bool> dump;
  std::unique_ptr<OpenAnalyzer> an;
  int m = 0, c = 0;
  bool fresh = true;
  bool modelOk = false;
  std::string tmp = args.at(1) + ".model";
  std::vector<int> gb;
  int upto = 5;
  for (auto& l : readCases(args.at(0))) {
    if (l.empty()) continue;
    watchdog(120);
    if (l[0] == "LIB") {
      // generated feature code for the models that follow
      an.reset();
      model.reset();
      modelOk = false;
      factory.reset();
      if (l[1] != "-") {
        void* lib = dlopen(l[1].c_str(), RTLD_NOW | RTLD_LOCAL);
        if (lib == nullptr) die(dlerror());
        auto make = reinterpret_cast<void* (*)()>(dlsym(lib, "vh_make"));
        if (make == nullptr) die("no vh_make in " + l[1]);
        factory.reset(static_cast<features::StaticFeatureFactory*>(make()));
      }
    } else if (l[0] == "MODEL") {
      an.reset();
      model.reset(new Model);
      ++m;
      model->factory = factory.get();
      modelOk = model->build(l[1], l[2], l.size() > 3 ? l[3] : "-", tmp);
      if (dump["model"]) {
        Obj o;
        o.num("m", m).boolean("ok", modelOk).str("stage", model->failStage).str("msg", model->failMsg);
        if (modelOk) o.num("entries", model->dic.entryCount);
        out << o.done() << "\n";
      } else if (!modelOk) {
        refused("model " + std::to_string(m) + ": " + model->failStage + ": " + model->failMsg);
      }
    } else if (l[0] == "CONF") {
      conf = Conf::parse(l, 1);
      gb.clear();
      an.reset();
      ++c;
    } else if (l[0] == "W") {
      w.make(std::stoi(l[1]), std::stoi(l[2]));
      an.reset();
    } else if (l[0] == "FRESH") {
      fresh = l[1] == "1";
    } else if (l[0] == "DUMP") {
      dump.clear();
      for (size_t i = 1; i < l.size(); ++i) dump[l[i]] = true;
    } else if (l[0] == "GB") {
      gb = {std::stoi(l[1]), std::stoi(l[2]), std::stoi(l[3])};
      if (an && !fresh) an->setGlobalBeam(gb[0], gb[1], gb[2]);
    } else if (l[0] == "UPTO") {
      upto = std::stoi(l[1]);
    } else if (l[0] == "IN" || l[0] == "REP") {
      if (!modelOk) continue;
      std::string in = unhex(l.size() > 1 ? l[1] : "-");
      int rep = l[0] == "REP" ? std::stoi(l[2]) : 1;
      std::string unit = in;
      for (int i = 1; i < rep; ++i) in += unit;
      bool big = l[0] == "REP";
      if (fresh || !an) {
        if (fresh && !gb.empty()) {
          conf.v["gbeam"] = gb[0];
          conf.v["rcheck"] = gb[1];
          conf.v["rbeam"] = gb[2];
        }
        ScoringConfig sc{conf.get("beam", 3), 1};
        an.reset(new OpenAnalyzer(model->core.get(), sc, conf.aconf()));
        Status s = an->initScorers(w.def);
        if (!s) refused("initScorers: " + msgOf(s));
        if (!fresh && !gb.empty()) an->setGlobalBeam(gb[0], gb[1], gb[2]);
      }
      Obj o;
      o.num("m", m);
      if (dump["conf"]) o.raw("c", conf.json()).num("w", w.seed);
      if (dump["in"] && !big) o.str("in", in);
      if (dump["ib"]) o.num("rep", rep).raw("ib", jints(std::vector<int>((const unsigned char*)unit.data(), (const unsigned char*)unit.data() + unit.size())));
      const char* stage = "reset";
      // the text is handed over in a buffer that is destroyed afterwards
      std::unique_ptr<std::string> copy{new std::string(in)};
      Status s = an->resetForInput(*copy);
      std::fill(copy->begin(), copy->end(), 'X');
      copy.reset();
      if (s && upto > 1) {
        stage = "seeds";
        s = an->prepareNodeSeeds();
      }
      if (s && upto > 2) {
        stage = "lattice";
        s = an->buildLattice();
      }
      if (s && upto > 3) {
        stage = "bootstrap";
        s = an->bootstrapAnalysis();
      }
      if (s && upto > 4) {
        stage = "scores";
        s = an->computeScores(&w.def);
      }
      if (upto < 5) {
        o.boolean("ok", (bool)s).num("upto", upto).str("stage", stage);
        upto = 5;
        out << o.done() << "\n";
        continue;
      }
      o.boolean("ok", (bool)s);
      if (!s) o.str("stage", stage).num("code", (int)s.code());
      if (big) {
        // totals only: characters, morphemes of the path, and whether each starts where the previous ended
        int len = 0, at = 0;
        bool joined = true;
        if (s) {
          AnalysisPath p;
          Status ps = p.fillIn(an->lattice());
          if (!ps) joined = false;
          p.reset();
          while (ps && p.nextBoundary()) {
            ConnectionPtr cp;
            while (p.nextNode(&cp)) {
              auto& ni = an->lattice()->boundary(cp.boundary)->starts()->nodeInfo().at(cp.right);
              joined = joined && ni.start() == at && ni.end() > at;
              at = ni.end();
              ++len;
            }
          }
        }
        o.num("plen", len).num("pend", at).boolean("joined", joined);
        out << o.done() << "\n";
        continue;
      }
      if (dump["cp"]) o.raw("cp", s || stage != std::string("reset") ? cpJson(*an) : "[]");
      if (s) {
        if (dump["nodes"]) o.raw("n", latticeNodes(*model, *an, dump["fields"], dump["ph"]));
        if (dump["beam"]) o.num("k", an->lcfg().beamSize).num("G", an->lcfg().globalBeamSize).raw("B", beamJson(*model, *an, w, dump["ngrams"]));
        if (dump["feat"]) {
          std::string nodes, triples;
          featJson(*model, *an, 4000, model->core->features().ngram, &nodes, &triples);
          o.raw("nn", nodes).raw("tr", triples);
        }
        if (dump["path"]) o.raw("p", pathJson(*an));
      }
      out << o.done() << "\n";
    } else {
      die("bad job line " + l[0]);
    }
  }
  unlink(tmp.c_str());
  return 0;
}
