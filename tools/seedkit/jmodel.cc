// jmodel OUT DIC SEED: a model of the jumandic specification with integer weights
#include "env.h"
#include "core/impl/perceptron_io.h"
#include "jumandic/shared/jumandic_spec.h"
#include "util/serialization.h"
int main(int, char** v) {
  spec::AnalysisSpec spec0;
  must(jumandic::SpecFactory::makeSpec(&spec0), "spec");
  std::ifstream f(v[2]);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string csv = ss.str();
  dic::DictionaryBuilder bldr;
  must(bldr.importSpec(&spec0), "import spec");
  must(bldr.importCsv("dic", csv), "import csv");
  model::ModelInfo nfo{};
  nfo.parts.emplace_back();
  must(bldr.fillModelPart(&nfo.parts.back()), "fill");
  std::vector<float> w(1 << 14);
  long seed = std::stol(v[3]);
  for (size_t i = 0; i < w.size(); ++i) w[i] = float((long)((i * 7919 + seed) % 17) - 8);
  util::CodedBuffer cb;
  util::serialization::Saver svr{&cb};
  PerceptronInfo pi;
  pi.modelSizeExponent = 14;
  svr.save(pi);
  model::ModelPart part;
  part.kind = model::ModelPartKind::Perceprton;
  part.data.push_back(cb.contents());
  auto p = reinterpret_cast<const char*>(w.data());
  part.data.push_back(StringPiece{p, p + w.size() * sizeof(float)});
  nfo.parts.push_back(part);
  std::string out = v[1];
  model::ModelSaver sv;
  must(sv.open(out), "open");
  must(sv.save(nfo), "save");
}
