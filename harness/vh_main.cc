#include "vh.h"
#include <unistd.h>
#include <csignal>

namespace vh {
std::map<std::string, Cmd>& registry() {
  static std::map<std::string, Cmd> r;
  return r;
}
static void onAlarm(int) {
  static const char msg[] = "HARNESS-TIMEOUT\n";
  auto x = write(2, msg, sizeof(msg) - 1);
  (void)x;
  _exit(4);
}
void watchdog(int seconds) {
  std::signal(SIGALRM, onAlarm);
  alarm(static_cast<unsigned>(seconds));
}
}  // namespace vh

int main(int argc, char** argv) {
  if (argc < 2 || vh::registry().count(argv[1]) == 0) {
    std::cerr << "commands:\n";
    for (auto& p : vh::registry()) std::cerr << "  " << p.first << "\n";
    return 3;
  }
  vh::Args a(argv + 2, argv + argc);
  try {
    return vh::registry()[argv[1]](a);
  } catch (std::exception& e) {
    vh::die(std::string("exception: ") + e.what());
  }
}
