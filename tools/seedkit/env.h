// builds a model from texts and analyses with it
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include "core/analysis/analysis_result.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/perceptron.h"
#include "core/core.h"
#include "core/dic/dic_builder.h"
#include "core/impl/model_io.h"
#include "core/spec/spec_parser.h"
using namespace jumanpp;
using namespace jumanpp::core;
using namespace jumanpp::core::analysis;

inline void must(const Status& s, const char* what) {
  if (!s) {
    std::cerr << what << ": " << s << "\n";
    exit(2);
  }
}
inline int fail(const std::string& what) {
  std::cerr << "WRONG: " << what << "\n";
  return 1;
}

struct OpenAnalyzer : AnalyzerImpl {
  using AnalyzerImpl::AnalyzerImpl;
};

struct Env {
  spec::AnalysisSpec spec0;
  dic::DictionaryBuilder bldr;
  model::FilesystemModel file;
  model::ModelInfo info;
  dic::BuiltDictionary dic;
  dic::DictionaryHolder holder;
  std::unique_ptr<CoreHolder> core;
  std::vector<float> w;
  HashedFeaturePerceptron perc;
  ScorerDef def;
  std::unique_ptr<OpenAnalyzer> an;

  Env(const std::string& spec, const std::string& csv) {
    { std::ofstream o("demo.spec"); o << spec; }
    must(spec::parseFromFile("demo.spec", &spec0), "spec");
    must(bldr.importSpec(&spec0), "import spec");
    must(bldr.importCsv("dic", csv), "import csv");
    std::string tmp = "demo.model";
    {
      model::ModelInfo nfo{};
      nfo.parts.emplace_back();
      must(bldr.fillModelPart(&nfo.parts.back()), "fill");
      model::ModelSaver sv;
      must(sv.open(tmp), "open");
      must(sv.save(nfo), "save");
    }
    must(file.open(tmp), "open");
    must(file.load(&info), "load");
    must(dic.restoreDictionary(info), "restore");
    must(holder.load(dic), "holder");
    core.reset(new CoreHolder(dic.spec, holder));
    must(core->initialize(nullptr), "core");
    w.resize(1 << 14);
    for (size_t i = 0; i < w.size(); ++i) w[i] = float((long)((i * 7919) % 17) - 8);
    perc.setWeightsTo(w);
    def.feature = &perc;
    def.scoreWeights = {1.0f};
  }
  void analyzer(const AnalyzerConfig& a, int beam) {
    ScoringConfig sc{beam, 1};
    an.reset(new OpenAnalyzer(core.get(), sc, a));
    must(an->initScorers(def), "scorers");
  }
  Status analyze(const std::string& in) {
    JPP_RETURN_IF_ERROR(an->resetForInput(in));
    JPP_RETURN_IF_ERROR(an->prepareNodeSeeds());
    JPP_RETURN_IF_ERROR(an->buildLattice());
    JPP_RETURN_IF_ERROR(an->bootstrapAnalysis());
    return an->computeScores(&def);
  }
  // spans of all nodes: "start-end/" plus * for unknown words
  std::string nodes() {
    std::ostringstream o;
    auto* l = an->lattice();
    for (int b = 2; b + 1 < (int)l->createdBoundaryCount(); ++b)
      for (auto& n : l->boundary(b)->starts()->nodeInfo())
        o << n.start() << "-" << n.end() << (n.entryPtr().isSpecial() ? "* " : " ");
    return o.str();
  }
  // best path with scores of the end of the sentence
  std::string best() {
    std::ostringstream o;
    auto* l = an->lattice();
    int n = (int)l->createdBoundaryCount();
    auto& e = l->boundary(n - 1)->starts()->beamData().row(0).at(0);
    o << e.totalScore << ":";
    for (auto* p = e.ptr.previous; p != nullptr && p->boundary > 1; p = p->previous) {
      auto& ni = l->boundary(p->boundary)->starts()->nodeInfo().at(p->right);
      o << " " << ni.start() << "-" << ni.end() << "@" << p->right;
    }
    return o.str();
  }
};
