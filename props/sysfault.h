// Observation and fault injection for the system calls the library makes on files (linked with -Wl,--wrap=<call>).
// While a Watch is armed, every wrapped call made by this thread is recorded; a plan makes chosen calls fail with chosen errnos.
// A shadow of what has reached stable storage is kept per inode (the "durable image").
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <sys/types.h>

namespace sysf {

struct Call { std::string name; int fd; long arg; bool faulted; int err; long ret; };
struct Fault { int pos; std::string kind; int err; int times; };   // pos >= 0: the call at that position; otherwise the next `times` calls of the kind

struct Watch {
  std::vector<Call> calls;
  std::vector<Fault> faults;
  std::map<std::pair<dev_t, ino_t>, std::string> durable;   // synced contents per file
  std::map<int, int> open;                                   // descriptors opened while armed and not closed (-> flags)
  std::map<uintptr_t, size_t> maps;                          // mappings of descriptors made while armed and not removed
  std::string misuse;                                        // e.g. closing a descriptor that is not open
  bool writing = false;
  Watch() = default;
  Watch(Watch const&) = delete;
  ~Watch() { disarm(); }
  void arm();
  void disarm();
  std::string text() const;
};
std::string const* durableOf(Watch const&, std::string const& path);
std::vector<int> openFds();                                  // descriptors of this process, from /proc
bool mappedAnywhere(std::string const& path);                // is the file mapped (from /proc/self/maps)
std::string errName(int e);
}  // namespace sysf
