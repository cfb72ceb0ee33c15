// codegen SPEC PRIO DIR NAME: writes the feature code of a specification
#include "c_env.h"
#include "core/codegen/feature_codegen.h"
#include "vh.h"

using namespace vh;
using namespace jumanpp;
using namespace jumanpp::core;

VH_COMMAND(codegen) {
  // SPEC PRIO DIR NAME ... in lines of a file
  for (auto& l : readCases(args.at(0))) {
    if (l.size() < 4) continue;
    spec::AnalysisSpec sp;
    Status s = spec::parseFromFile(l[0], &sp);
    if (!s) refused("spec " + l[0] + ": " + msgOf(s));
    Model::setPriorities(&sp, l[1]);
    features::codegen::FeatureCodegenConfig cfg;
    cfg.filename = l[3];
    cfg.className = l[3];
    cfg.baseDirectory = l[2];
    features::codegen::StaticFeatureCodegen gen{cfg, sp};
    s = gen.generateAndWrite();
    if (!s) refused("code of " + l[0] + ": " + msgOf(s));
    std::ofstream f{l[2] + "/" + l[3] + ".cc", std::ios::app};
    f << "\nextern \"C\" void* vh_make() { return static_cast<jumanpp::core::features::StaticFeatureFactory*>(new jumanpp_generated::"
      << l[3] << "{}); }\n";
  }
  return 0;
}
