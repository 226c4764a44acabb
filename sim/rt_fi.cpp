// FreeImage seam: real library behind wrappers that keep a ledger of bitmaps and memory streams, inject
// running out of memory, and tell the race detector which pixels an uninstrumented call touches.
#include "rt.h"
#include <FreeImage.h>
#include <unordered_set>
#include <string.h>

namespace sim {
extern int g_live;
void sealTail(void* from);
static std::unordered_set<void*>* g_bmp;
static std::unordered_set<void*>* g_mem;
int liveBitmaps() { return g_bmp ? (int)g_bmp->size() : 0; }
int liveMemories() { return g_mem ? (int)g_mem->size() : 0; }
static bool on() { return g_armed && t_sut; }
bool g_fiFallback;                     // a failing call was one that Cuttlefish falls back on its own algorithm for
bool fiFault(const char* what) {
  if (!on() || t_fi) return false;
  schedPoint(1);
  int64_t k = g_fiAttempts++;
  if (g_fiFailAt >= 0 && k >= g_fiFailAt && k < g_fiFailAt + g_fiFailCount) { ++g_fiFired; if (strstr(what, "FreeImage_Rescale") || strstr(what, "FreeImage_ConvertTo")) g_fiFallback = true; logf("  %s fails", what); ev(0xf1f1 + k); return true; }
  return false;
}
static std::unordered_set<void*>* g_gone;      // unloaded, and not handed out again since
void fiNew(void* b) { if (g_armed && b) { Harness hs; if (BYTE* p = FreeImage_GetBits((FIBITMAP*)b)) sealTail(p + (size_t)FreeImage_GetPitch((FIBITMAP*)b) * FreeImage_GetHeight((FIBITMAP*)b)); if (g_gone) g_gone->erase(b); } if (on() && b) { Harness hs; if (!g_bmp) g_bmp = new std::unordered_set<void*>; g_bmp->insert(b); } }
void fiNewMem(void* b) { if (on() && b) { Harness hs; if (!g_mem) g_mem = new std::unordered_set<void*>; g_mem->insert(b); } }
void fiUnload(void* b) {
  if (!g_armed || !b || t_fi) return;
  Harness hs;
  if (!g_gone) g_gone = new std::unordered_set<void*>;
  if (!g_gone->insert(b).second) violate("double-free", "a bitmap is unloaded a second time");
  if (g_bmp) g_bmp->erase(b);
}
void fiCloseMem(void* b) { if (g_armed && b && g_mem) { Harness hs; g_mem->erase(b); } }
} // namespace sim
struct FiScope { int s; FiScope() : s(sim::t_fi) { sim::t_fi = 1; } ~FiScope() { sim::t_fi = s; } };
namespace sim {
void fiTouch(FIBITMAP* b, bool write) {
  if (on() && b && g_gone && g_gone->count(b)) violate("use-after-free", "an unloaded bitmap is used");
  if (!on() || g_live <= 1 || !b) return;
  BYTE* p = FreeImage_GetBits(b);
  if (p) memRange(p, (size_t)FreeImage_GetPitch(b) * FreeImage_GetHeight(b), write);
}
}
extern "C" {
#include "fi_wraps.inc"
}
