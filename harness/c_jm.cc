// a complete model file with a dictionary and integer weights
#include "c_env.h"
#include "core/impl/perceptron_io.h"
#include "core/impl/model_io.h"
#include "util/serialization.h"
using namespace vh;

int vh_cmd_jmodel_run(const std::string& path, const std::string& dic, int seed, int bits, const std::string& spec) {
  Model m;
  if (!m.build(spec, dic, "-", path)) refused(m.failStage + ": " + m.failMsg);
  Weights w;
  w.make(seed, bits);
  util::CodedBuffer cbuf;
  util::serialization::Saver svr{&cbuf};
  PerceptronInfo pi;
  pi.modelSizeExponent = w.bits;
  svr.save(pi);
  model::ModelPart part;
  part.kind = model::ModelPartKind::Perceprton;
  part.data.push_back(cbuf.contents());
  auto p = reinterpret_cast<const char*>(w.w.data());
  part.data.push_back(StringPiece{p, p + w.w.size() * sizeof(float)});
  model::ModelInfo nfo = m.info;
  nfo.parts.push_back(part);
  model::ModelSaver saver;
  std::string tmp = path + ".full";
  Status s = saver.open(tmp);
  if (!s) refused("save: " + msgOf(s));
  s = saver.save(nfo);
  if (!s) refused("save: " + msgOf(s));
  if (std::rename(tmp.c_str(), path.c_str()) != 0) die("rename");
  return 0;
}
