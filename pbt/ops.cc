#include "ops.h"
#include <unistd.h>
#include <sys/stat.h>
namespace pbt {
std::vector<TypeOps>& ops() { static std::vector<TypeOps> v; return v; }
std::string tmpFile(char const* tag) {
  static unsigned n = 0; static pid_t pid = 0;
  if (pid != getpid()) { pid = getpid(); n = 0; }
  return scratchDir() + "/" + tag + "." + std::to_string(pid) + "." + std::to_string(n++ % 64);
}
}
