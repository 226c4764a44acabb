#include "common.h"
static void none() {}
void prepareImages();
static const Workload W[] = {
#include "workloads.inc"
  {nullptr, nullptr, nullptr, 0, nullptr, nullptr, nullptr, nullptr, nullptr},
};
const Workload* workloads() { return W; }
