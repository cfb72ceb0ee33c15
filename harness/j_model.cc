// jmodel OUT DIC SEED BITS [SPEC]: a complete model file with a dictionary and integer weights
#include "c_env.h"
using namespace vh;
int vh_cmd_jmodel_run(const std::string& path, const std::string& dic, int seed, int bits, const std::string& spec);

VH_COMMAND(jmodel) {
  watchdog(120);
  return vh_cmd_jmodel_run(args.at(0), args.at(1), std::stoi(args.at(2)), std::stoi(args.at(3)), args.size() > 4 ? args[4] : "@jumandic");
}
