// A model built from a specification and a dictionary, the way the tools do it:
// import, save to a model file, load it again, then analyse with it.
#ifndef VH_C_ENV_H
#define VH_C_ENV_H
#include <unistd.h>
#include <memory>
#include <set>
#include "core/analysis/analysis_result.h"
#include "core/analysis/analyzer_impl.h"
#include "core/analysis/perceptron.h"
#include "core/core.h"
#include "core/dic/dic_builder.h"
#include "core/impl/feature_impl_ngram_partial.h"
#include "core/impl/feature_impl_combine.h"
#include "core/impl/feature_impl_types.h"
#include "core/impl/model_io.h"
#include "core/spec/spec_parser.h"
#include "vh.h"
#ifdef VH_JUMANDIC
#include "jumandic/shared/jumandic_spec.h"
#endif

namespace vh {
using namespace jumanpp;
using namespace jumanpp::core;
using namespace jumanpp::core::analysis;

inline std::string msgOf(const Status& s) {
  std::ostringstream o;
  o << s;
  return o.str().substr(0, 300);
}

class OpenAnalyzer : public AnalyzerImpl {
 public:
  OpenAnalyzer(const CoreHolder* c, const ScoringConfig& sc, const AnalyzerConfig& ac)
      : AnalyzerImpl(c, sc, ac) {}
  LatticeBuilder& builder() { return latticeBldr_; }
  ScoreProcessor* proc() { return sproc_; }
  const LatticeConfig& lcfg() { return latticeConfig_; }
};

struct Model {
  spec::AnalysisSpec origSpec;
  dic::DictionaryBuilder builder;
  model::FilesystemModel file;
  model::ModelInfo info;
  dic::BuiltDictionary dic;
  dic::DictionaryHolder holder;
  std::unique_ptr<CoreHolder> core;
  std::string failStage, failMsg;
  const features::StaticFeatureFactory* factory = nullptr;  // generated feature code

  bool fail(const char* st, const Status& s) {
    failStage = st;
    failMsg = msgOf(s);
    return false;
  }

  // prio: "0:1,2:1" = priorities of the unknown word processors
  bool build(const std::string& specFile, const std::string& dicFile, const std::string& prio,
             const std::string& tmp) {
#ifdef VH_JUMANDIC
    Status s = specFile == "@jumandic" ? jumandic::SpecFactory::makeSpec(&origSpec)
                                       : spec::parseFromFile(specFile, &origSpec);
#else
    Status s = spec::parseFromFile(specFile, &origSpec);
#endif
    if (!s) return fail("spec", s);
    setPriorities(&origSpec, prio);
    return buildDic(dicFile, tmp);
  }

  static void setPriorities(spec::AnalysisSpec* sp, const std::string& prio) {
    std::istringstream ps{prio == "-" ? "" : prio};
    std::string item;
    while (std::getline(ps, item, ',')) {
      auto c = item.find(':');
      sp->unkCreators.at(std::stoi(item.substr(0, c))).priority = std::stoi(item.substr(c + 1));
    }
  }

  bool buildDic(const std::string& dicFile, const std::string& tmp) {
    std::string csv = slurp(dicFile);
    Status s = builder.importSpec(&origSpec);
    if (!s) return fail("import_spec", s);
    s = builder.importCsv("dic", csv);
    if (!s) return fail("import_csv", s);
    {
      model::ModelInfo nfo{};
      nfo.parts.emplace_back();
      s = builder.fillModelPart(&nfo.parts.back());
      if (!s) return fail("fill", s);
      model::ModelSaver saver;
      s = saver.open(tmp);
      if (!s) return fail("save", s);
      s = saver.save(nfo);
      if (!s) return fail("save", s);
    }
    return load(tmp);
  }

  bool load(const std::string& fn) {
    Status s = file.open(fn);
    if (!s) return fail("open", s);
    s = file.load(&info);
    if (!s) return fail("load", s);
    s = dic.restoreDictionary(info);
    if (!s) return fail("restore", s);
    s = holder.load(dic);
    if (!s) return fail("dic", s);
    core.reset(new CoreHolder(dic.spec, holder));
    s = core->initialize(factory);
    if (!s) return fail("core", s);
    return true;
  }
};

struct Conf {
  std::map<std::string, int> v;
  int get(const char* k, int d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
  static Conf parse(const std::vector<std::string>& w, size_t from) {
    Conf c;
    for (size_t i = from; i < w.size(); ++i) {
      auto e = w[i].find('=');
      c.v[w[i].substr(0, e)] = std::stoi(w[i].substr(e + 1));
    }
    return c;
  }
  AnalyzerConfig aconf() const {
    AnalyzerConfig a{};
    a.globalBeamSize = get("gbeam", 0);
    a.rightGbeamCheck = get("rcheck", 0);
    a.rightGbeamSize = get("rbeam", 0);
    a.autoBeamStep = get("astep", 0);
    a.autoBeamBase = get("abase", 0);
    a.autoBeamMax = get("amax", 0);
    a.maxInputBytes = get("maxin", (int)a.maxInputBytes);
    a.pageSize = get("page", (int)a.pageSize);
    a.storeAllPatterns = get("allpat", 0) != 0;
    return a;
  }
  std::string json() const {
    std::string r = "{";
    for (auto& p : v) {
      if (r.size() > 1) r += ',';
      r += "\"" + p.first + "\":" + std::to_string(p.second);
    }
    return r + "}";
  }
};

// weights(i) = ((i * 7919 + seed) mod 17) - 8
struct Weights {
  std::vector<float> w;
  HashedFeaturePerceptron perc;
  ScorerDef def;
  int seed, bits;
  void make(int sd, int bt) {
    seed = sd;
    bits = bt;
    w.resize(1u << bits);
    for (size_t i = 0; i < w.size(); ++i) w[i] = float((long)((i * 7919 + sd) % 17) - 8);
    perc.setWeightsTo(w);
    def.feature = &perc;
    def.others.clear();
    def.scoreWeights = {1.0f};
  }
};

std::string fieldsJson(const Model& m, const OutputManager& om, const NodeWalker& w);
std::string nodeRows(const Model& m, OpenAnalyzer& a, EntryPtr e);
std::string latticeNodes(const Model& m, OpenAnalyzer& a, bool fields, bool ph);
std::string beamJson(const Model& m, OpenAnalyzer& a, const Weights& w, bool ngrams);
std::string pathJson(OpenAnalyzer& a);
void featJson(const Model& m, OpenAnalyzer& a, size_t limit, const features::NgramFeatureApply* ngram,
              std::string* nodesOut, std::string* triplesOut);
std::string cpJson(OpenAnalyzer& a);
}  // namespace vh
#endif
