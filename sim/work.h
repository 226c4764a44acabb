#pragma once
#include <cstdint>
struct Workload {
  const char* id;
  void (*run)();            // one simulated execution (in a forked child, after sim::arm())
  void (*prepare)();        // once in the parent, before forking; must not use the library
  uint64_t quickRuns;
  const char* level;
  const char* rule;
  const char* real;
  const char* stub;
  const char* assume;
};
const Workload* workloads();   // terminated by id == nullptr
