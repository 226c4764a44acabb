// C04, C05, C06: saving textures, and refused saves and conversions.
#include "common.h"
#include <math.h>
#include <sstream>
#include <errno.h>

typedef Texture::FileType FTy;
typedef Texture::SaveResult SR;
typedef Texture::Format TF;
typedef Texture::Type TT;
typedef Texture::Alpha TA;

// ---- container identifiers, from the published format descriptions ------------------------------
struct Ident { TF f; TT t; unsigned dxgi, dxgiS, glInternal, glInternalS, glFormat, glTypeSize; };
enum : unsigned { RED = 0x1903, RG = 0x8227, RGB = 0x1907, RGBA = 0x1908, BGRA = 0x80E1 };
static const Ident kIdent[] = {
  {TF::R4G4, TT::UNorm, 112, 0, 0, 0, 0, 0},
  {TF::R4G4B4A4, TT::UNorm, 0, 0, 0x8056, 0, RGBA, 2}, {TF::B4G4R4A4, TT::UNorm, 0, 0, 0x8056, 0, BGRA, 2}, {TF::A4R4G4B4, TT::UNorm, 115, 0, 0, 0, 0, 0},
  {TF::R5G6B5, TT::UNorm, 85, 0, 0x8D62, 0, RGB, 2}, {TF::B5G6R5, TT::UNorm, 0, 0, 0x8D62, 0, RGB, 2},
  {TF::R5G5B5A1, TT::UNorm, 0, 0, 0x8057, 0, RGBA, 2}, {TF::B5G5R5A1, TT::UNorm, 0, 0, 0x8057, 0, BGRA, 2}, {TF::A1R5G5B5, TT::UNorm, 86, 0, 0x8057, 0, BGRA, 2},
  {TF::R8, TT::UNorm, 61, 0, 0x8229, 0, RED, 1}, {TF::R8, TT::SNorm, 63, 0, 0x8F94, 0, RED, 1}, {TF::R8, TT::UInt, 62, 0, 0x8232, 0, RED, 1}, {TF::R8, TT::Int, 64, 0, 0x8231, 0, RED, 1},
  {TF::R8G8, TT::UNorm, 49, 0, 0x822B, 0, RG, 1}, {TF::R8G8, TT::SNorm, 51, 0, 0x8F95, 0, RG, 1}, {TF::R8G8, TT::UInt, 50, 0, 0x8238, 0, RG, 1}, {TF::R8G8, TT::Int, 52, 0, 0x8237, 0, RG, 1},
  {TF::R8G8B8, TT::UNorm, 0, 0, 0x8051, 0x8C41, RGB, 1}, {TF::R8G8B8, TT::SNorm, 0, 0, 0x8F96, 0, RGB, 1}, {TF::R8G8B8, TT::UInt, 0, 0, 0x8D7D, 0, RGB, 1}, {TF::R8G8B8, TT::Int, 0, 0, 0x8D8F, 0, RGB, 1},
  {TF::B8G8R8, TT::UNorm, 0, 0, 0, 0, 0, 0},
  {TF::R8G8B8A8, TT::UNorm, 28, 29, 0x8058, 0x8C43, RGBA, 1}, {TF::R8G8B8A8, TT::SNorm, 31, 0, 0x8F97, 0, RGBA, 1}, {TF::R8G8B8A8, TT::UInt, 30, 0, 0x8D7C, 0, RGBA, 1}, {TF::R8G8B8A8, TT::Int, 32, 0, 0x8D8E, 0, RGBA, 1},
  {TF::B8G8R8A8, TT::UNorm, 87, 91, 0x8058, 0x8C43, BGRA, 4}, {TF::A8B8G8R8, TT::UNorm, 0, 0, 0x8058, 0x8C43, RGBA, 4},
  {TF::A2R10G10B10, TT::UNorm, 0, 0, 0x8059, 0, BGRA, 4}, {TF::A2R10G10B10, TT::UInt, 0, 0, 0x906F, 0, BGRA, 4},
  {TF::A2B10G10R10, TT::UNorm, 24, 0, 0x8059, 0, RGBA, 4}, {TF::A2B10G10R10, TT::UInt, 25, 0, 0x906F, 0, RGBA, 4},
  {TF::R16, TT::UNorm, 56, 0, 0x822A, 0, RED, 2}, {TF::R16, TT::SNorm, 58, 0, 0x8F98, 0, RED, 2}, {TF::R16, TT::UInt, 57, 0, 0x8234, 0, RED, 2}, {TF::R16, TT::Int, 59, 0, 0x8233, 0, RED, 2}, {TF::R16, TT::Float, 54, 0, 0x822D, 0, RED, 2},
  {TF::R16G16, TT::UNorm, 35, 0, 0x822C, 0, RG, 2}, {TF::R16G16, TT::SNorm, 37, 0, 0x8F99, 0, RG, 2}, {TF::R16G16, TT::UInt, 36, 0, 0x823A, 0, RG, 2}, {TF::R16G16, TT::Int, 38, 0, 0x8239, 0, RG, 2}, {TF::R16G16, TT::Float, 34, 0, 0x822F, 0, RG, 2},
  {TF::R16G16B16, TT::UNorm, 0, 0, 0x8054, 0, RGB, 2}, {TF::R16G16B16, TT::SNorm, 0, 0, 0x8F9A, 0, RGB, 2}, {TF::R16G16B16, TT::UInt, 0, 0, 0x8D77, 0, RGB, 2}, {TF::R16G16B16, TT::Int, 0, 0, 0x8D89, 0, RGB, 2}, {TF::R16G16B16, TT::Float, 0, 0, 0x881B, 0, RGB, 2},
  {TF::R16G16B16A16, TT::UNorm, 11, 0, 0x805B, 0, RGBA, 2}, {TF::R16G16B16A16, TT::SNorm, 13, 0, 0x8F9B, 0, RGBA, 2}, {TF::R16G16B16A16, TT::UInt, 12, 0, 0x8D76, 0, RGBA, 2}, {TF::R16G16B16A16, TT::Int, 14, 0, 0x8D88, 0, RGBA, 2}, {TF::R16G16B16A16, TT::Float, 10, 0, 0x881A, 0, RGBA, 2},
  {TF::R32, TT::UInt, 42, 0, 0x8236, 0, RED, 4}, {TF::R32, TT::Int, 43, 0, 0x8235, 0, RED, 4}, {TF::R32, TT::Float, 41, 0, 0x822E, 0, RED, 4},
  {TF::R32G32, TT::UInt, 17, 0, 0x823C, 0, RG, 4}, {TF::R32G32, TT::Int, 18, 0, 0x823B, 0, RG, 4}, {TF::R32G32, TT::Float, 16, 0, 0x8230, 0, RG, 4},
  {TF::R32G32B32, TT::UInt, 7, 0, 0x8D71, 0, RGB, 4}, {TF::R32G32B32, TT::Int, 8, 0, 0x8D83, 0, RGB, 4}, {TF::R32G32B32, TT::Float, 6, 0, 0x8815, 0, RGB, 4},
  {TF::R32G32B32A32, TT::UInt, 3, 0, 0x8D70, 0, RGBA, 4}, {TF::R32G32B32A32, TT::Int, 4, 0, 0x8D82, 0, RGBA, 4}, {TF::R32G32B32A32, TT::Float, 2, 0, 0x8814, 0, RGBA, 4},
  {TF::B10G11R11_UFloat, TT::UFloat, 26, 0, 0x8C3A, 0, RGB, 4}, {TF::E5B9G9R9_UFloat, TT::UFloat, 67, 0, 0x8C3D, 0, RGB, 4},
};
struct PvrFmt { TF f; char c[5]; uint8_t b[4]; };
static const PvrFmt kPvr[] = {
  {TF::R4G4, "rg\0\0", {4, 4, 0, 0}}, {TF::R4G4B4A4, "rgba", {4, 4, 4, 4}}, {TF::B4G4R4A4, "bgra", {4, 4, 4, 4}}, {TF::A4R4G4B4, "argb", {4, 4, 4, 4}},
  {TF::R5G6B5, "rgb\0", {5, 6, 5, 0}}, {TF::B5G6R5, "bgr\0", {5, 6, 5, 0}}, {TF::R5G5B5A1, "rgba", {5, 5, 5, 1}}, {TF::B5G5R5A1, "bgra", {5, 5, 5, 1}}, {TF::A1R5G5B5, "argb", {1, 5, 5, 5}},
  {TF::R8, "r\0\0\0", {8, 0, 0, 0}}, {TF::R8G8, "rg\0\0", {8, 8, 0, 0}}, {TF::R8G8B8, "rgb\0", {8, 8, 8, 0}}, {TF::B8G8R8, "bgr\0", {8, 8, 8, 0}}, {TF::R8G8B8A8, "rgba", {8, 8, 8, 8}}, {TF::B8G8R8A8, "bgra", {8, 8, 8, 8}}, {TF::A8B8G8R8, "abgr", {8, 8, 8, 8}},
  {TF::A2R10G10B10, "argb", {2, 10, 10, 10}}, {TF::A2B10G10R10, "abgr", {2, 10, 10, 10}},
  {TF::R16, "r\0\0\0", {16, 0, 0, 0}}, {TF::R16G16, "rg\0\0", {16, 16, 0, 0}}, {TF::R16G16B16, "rgb\0", {16, 16, 16, 0}}, {TF::R16G16B16A16, "rgba", {16, 16, 16, 16}},
  {TF::R32, "r\0\0\0", {32, 0, 0, 0}}, {TF::R32G32, "rg\0\0", {32, 32, 0, 0}}, {TF::R32G32B32, "rgb\0", {32, 32, 32, 0}}, {TF::R32G32B32A32, "rgba", {32, 32, 32, 32}},
  {TF::B10G11R11_UFloat, "bgr\0", {10, 11, 11, 0}},
};
static const Ident* ident(TF f, TT t) { for (auto& i : kIdent) if (i.f == f && i.t == t) return &i; return nullptr; }
// Whether the container can hold the format, by the documentation.
bool canStore(TF f, TT t, FTy ft) {
  if (!fmtValid(f, t)) return false;
  const Ident* i = ident(f, t);
  if (!i) return false;
  return ft == FTy::DDS ? i->dxgi != 0 : ft == FTy::KTX ? i->glInternal != 0 : ft == FTy::PVR;
}

// ---- readers ------------------------------------------------------------------------------------
struct Reader {
  const Bytes& b; size_t p = 0; bool bad = false;
  explicit Reader(const Bytes& v) : b(v) {}
  uint32_t u32() { if (p + 4 > b.size()) { bad = true; return 0; } uint32_t v; memcpy(&v, &b[p], 4); p += 4; return v; }
  const uint8_t* take(size_t n) { if (p + n > b.size()) { bad = true; return nullptr; } const uint8_t* r = b.data() + p; p += n; return r; }
};
static unsigned mipDim(unsigned v, unsigned m) { return std::max(v >> m, 1u); }
// Decodes a container knowing only its format; compares with what was converted. Empty: faithful.
std::string decode(const Bytes& file, FTy ft, const Spec& s, unsigned mips, const TexData& want) {
  const Ident* id = ident(s.f, s.t);
  unsigned bpp = fmtBytes(s.f);
  bool srgb = s.cs == ColorSpace::sRGB, array = s.dim != Dim::Dim3D && s.depth > 0, d3 = s.dim == Dim::Dim3D, cube = s.dim == Dim::Cube;
  unsigned layers = d3 ? 1 : std::max(s.depth, 1u), faces = specFaces(s);
  Reader r(file);
#define WANT(expr, value) do { uint64_t g_ = (expr), w_ = (value); if (r.bad) return "the file ends inside its header"; if (g_ != w_) return fmtStr("%s is %llu (0x%llx) instead of %llu (0x%llx)", #expr, (unsigned long long)g_, (unsigned long long)g_, (unsigned long long)w_, (unsigned long long)w_); } while (0)
  auto surf = [&](unsigned m, unsigned d, unsigned f) -> const Bytes& { size_t i = 0; for (unsigned k = 0; k < m; ++k) i += (size_t)specDepth(s, k) * faces; return want[i + (size_t)d * faces + f]; };
  auto same = [&](unsigned m, unsigned d, unsigned f, unsigned rowPad) -> std::string {
    const Bytes& w = surf(m, d, f);
    size_t row = (size_t)mipDim(s.w, m) * bpp, rows = mipDim(s.h, m);
    if (w.size() != row * rows) return "the texture data has an unexpected size";
    for (size_t y = 0; y < rows; ++y) {
      const uint8_t* q = r.take(row);
      if (!q) return fmtStr("the file ends inside level %u slice %u face %u", m, d, f);
      if (memcmp(q, &w[y * row], row)) return fmtStr("level %u slice %u face %u row %zu differs", m, d, f, y);
      if (rowPad > 1 && row % rowPad) { if (!r.take(rowPad - row % rowPad)) return "the file ends inside row padding"; }
    }
    return "";
  };
  if (ft == FTy::DDS) {
    WANT(r.u32(), 0x20534444); WANT(r.u32(), 124);
    uint32_t flags = r.u32();
    WANT((flags & 0x1007), 0x1007);
    uint32_t height = r.u32(), width = r.u32();
    WANT(width, s.w); WANT(height, s.h);
    uint32_t pitch = r.u32();
    if (flags & 8) WANT(pitch, s.w * bpp);
    uint32_t depth = r.u32(), mm = r.u32();
    WANT(!!(flags & 0x800000), d3);
    if (d3) WANT(depth, s.depth);
    if (mips > 1 || (flags & 0x20000)) WANT(mm, mips);
    r.take(44);
    WANT(r.u32(), 32); uint32_t pff = r.u32(); WANT((pff & 4), 4);
    WANT(r.u32(), 0x30315844);
    r.take(20);
    uint32_t caps = r.u32(), caps2 = r.u32(); WANT((caps & 0x1000), 0x1000);
    if (mips > 1) { WANT((caps & 0x400000), 0x400000); WANT((flags & 0x20000), 0x20000); }
    if (mips > 1 || cube) WANT((caps & 8), 8);                 // more than one surface
    WANT((caps2 & 0x20FE00), cube ? 0xFE00u : d3 ? 0x200000u : 0u);
    r.take(12);
    uint32_t dxgi = r.u32(), resDim = r.u32(), misc = r.u32(), arr = r.u32(), misc2 = r.u32();
    WANT(dxgi, srgb ? id->dxgiS : id->dxgi);
    WANT(resDim, s.dim == Dim::Dim1D ? 2u : d3 ? 4u : 3u);
    WANT(misc, cube ? 4u : 0u); WANT(arr, layers);
    bool alpha = Texture::hasAlpha(s.f);
    unsigned am = !alpha ? 3 : s.a == TA::None ? 3 : s.a == TA::Standard ? 1 : s.a == TA::PreMultiplied ? 2 : 4;
    WANT((misc2 & 7), am);
    for (unsigned l = 0; l < layers; ++l) for (unsigned f = 0; f < faces; ++f) for (unsigned m = 0; m < mips; ++m) {
      unsigned n = d3 ? specDepth(s, m) : 1;
      for (unsigned z = 0; z < n; ++z) { std::string e = same(m, d3 ? z : l, f, 1); if (!e.empty()) return e; }
    }
  } else if (ft == FTy::KTX) {
    static const uint8_t idb[12] = {0xAB, 0x4B, 0x54, 0x58, 0x20, 0x31, 0x31, 0xBB, 0x0D, 0x0A, 0x1A, 0x0A};
    const uint8_t* q = r.take(12);
    if (!q || memcmp(q, idb, 12)) return "wrong KTX identifier";
    WANT(r.u32(), 0x04030201);
    uint32_t glType = r.u32(), glTypeSize = r.u32(), glFormat = r.u32(), glInternal = r.u32(), glBase = r.u32();
    (void)glBase;
    if ((s.f >= TF::R16 && s.f <= TF::R32G32B32A32) || s.f == TF::R8 || s.f == TF::R8G8 || s.f == TF::R8G8B8 || s.f == TF::R8G8B8A8) {
      bool sg = s.t == TT::SNorm || s.t == TT::Int;
      WANT(glType, s.t == TT::Float ? (id->glTypeSize == 2 ? 0x140Bu : 0x1406u) : 0x1400u + (id->glTypeSize == 1 ? 0u : id->glTypeSize == 2 ? 2u : 4u) + (sg ? 0u : 1u));
    } else if (s.f == TF::B10G11R11_UFloat) WANT(glType, 0x8C3B); else if (s.f == TF::E5B9G9R9_UFloat) WANT(glType, 0x8C3E);
    else if (s.f == TF::A2B10G10R10 || s.f == TF::A2R10G10B10) WANT(glType, 0x8368);
    WANT(glTypeSize, id->glTypeSize); WANT(glInternal, srgb ? id->glInternalS : id->glInternal);
    bool whole = s.t == TT::UInt || s.t == TT::Int;         // pure integers have formats of their own
    unsigned plain = glFormat;
    if (whole) plain = glFormat == 0x8D99 ? (unsigned)RGBA : glFormat == 0x8D98 ? (unsigned)RGB : glFormat == 0x8D9B ? (unsigned)BGRA : glFormat == 0x8D94 ? (unsigned)RED : glFormat == 0x8228 ? (unsigned)RG : 0;
    WANT(plain, id->glFormat);
    uint32_t width = r.u32(), height = r.u32(), depth = r.u32(), arr = r.u32(), fc = r.u32(), mm = r.u32(), kv = r.u32();
    WANT(width, s.w); WANT(height, s.dim == Dim::Dim1D ? 0u : s.h); WANT(depth, d3 ? s.depth : 0u); WANT(arr, array ? s.depth : 0u); WANT(fc, faces); WANT(mm, mips);
    r.take(kv);
    for (unsigned m = 0; m < mips; ++m) {
      uint32_t size = r.u32();
      size_t row = ((size_t)mipDim(s.w, m) * bpp + 3) / 4 * 4;
      size_t face = row * mipDim(s.h, m) * specDepth(s, m);
      WANT(size, cube && !array ? face : face * faces);
      for (unsigned d = 0; d < specDepth(s, m); ++d) for (unsigned f = 0; f < faces; ++f) { std::string e = same(m, d, f, 4); if (!e.empty()) return e; }
    }
  } else {
    WANT(r.u32(), 0x03525650);
    uint32_t flags = r.u32(); WANT((flags & 2), s.a == TA::PreMultiplied ? 2u : 0u);
    const uint8_t* pf = r.take(8);
    if (!pf) return "the file ends inside its header";
    if (s.f == TF::E5B9G9R9_UFloat) { static const uint8_t e[8] = {19, 0, 0, 0, 0, 0, 0, 0}; if (memcmp(pf, e, 8)) return "wrong predefined pixel format"; }
    else for (auto& k : kPvr) if (k.f == s.f && (memcmp(pf, k.c, 4) || memcmp(pf + 4, k.b, 4))) return fmtStr("pixel format is '%.4s' %u,%u,%u,%u", (const char*)pf, pf[4], pf[5], pf[6], pf[7]);
    uint32_t cs = r.u32(), ct = r.u32(), height = r.u32(), width = r.u32(), depth = r.u32(), surfaces = r.u32(), fc = r.u32(), mm = r.u32(), meta = r.u32();
    WANT(cs, srgb ? 1u : 0u);
    // signedness, normalisation and width class of the channels
    unsigned cls;
    switch (s.f) {
      case TF::R8: case TF::R8G8: case TF::R8G8B8: case TF::B8G8R8: case TF::R8G8B8A8: case TF::B8G8R8A8: case TF::A8B8G8R8: case TF::R4G4: cls = 0; break;
      case TF::R32: case TF::R32G32: case TF::R32G32B32: case TF::R32G32B32A32: case TF::A2R10G10B10: case TF::A2B10G10R10: cls = 8; break;
      default: cls = 4;
    }
    WANT(ct, s.t == TT::Float ? 12u : s.t == TT::UFloat ? 13u : cls + (unsigned)s.t);
    WANT(width, s.w); WANT(height, s.h); WANT(depth, d3 ? s.depth : 1u); WANT(surfaces, layers); WANT(fc, faces); WANT(mm, mips);
    size_t end = r.p + meta; bool sawArr = false, saw1d = false;
    while (r.p < end) {
      const uint8_t* q = r.take(4); if (!q) return "the file ends inside the metadata";
      uint32_t key = r.u32(), n = r.u32();
      if (!memcmp(q, "CTFS", 4)) { if (key == 0x59525241) sawArr = true; if (key == 0x314D4944) saw1d = true; }
      if (!r.take(n) || r.bad || r.p > end) return "broken metadata";
    }
    WANT(sawArr, array); WANT(saw1d, s.dim == Dim::Dim1D);
    for (unsigned m = 0; m < mips; ++m) for (unsigned d = 0; d < specDepth(s, m); ++d) for (unsigned f = 0; f < faces; ++f) { std::string e = same(m, d, f, 1); if (!e.empty()) return e; }
  }
  if (r.p != file.size()) return fmtStr("%zu bytes are left over after the last surface", file.size() - r.p);
  return "";
#undef WANT
}

// Where the file's own description of its pixels puts the channels of a texel (bits of a little endian integer), for
// unsigned normalized formats.
struct Layout { unsigned bytes = 0; size_t data = 0; bool pad = false; std::vector<std::pair<char, std::pair<unsigned, unsigned>>> ch; };
static bool layoutOf(const Bytes& file, FTy ft, Layout& l) {
  Reader r(file);
  auto seq = [&](const char* names, unsigned bits) { unsigned o = 0; for (const char* c = names; *c; ++c, o += bits) l.ch.push_back({*c, {o, bits}}); l.bytes = o / 8; };
  auto packed = [&](const char* names, const char* widths, bool firstLow) {       // widths in the order of the names
    unsigned total = 0; for (const char* w = widths; *w; ++w) total += *w - 'A' + 1;
    unsigned o = firstLow ? 0 : total;
    for (; *names; ++names, ++widths) { unsigned w = *widths - 'A' + 1; if (!firstLow) o -= w; l.ch.push_back({*names, {o, w}}); if (firstLow) o += w; }
    l.bytes = total / 8;
  };
  if (ft == FTy::DDS) {
    r.take(128); unsigned dxgi = r.u32(); l.data = 148;
    switch (dxgi) {
      case 115: packed("bgra", "DDDD", true); break; case 85: packed("bgr", "EFE", true); break; case 86: packed("bgra", "EEEA", true); break;
      case 61: seq("r", 8); break; case 49: seq("rg", 8); break; case 28: case 29: seq("rgba", 8); break; case 87: case 91: seq("bgra", 8); break;
      case 24: packed("rgba", "JJJB", true); break; case 56: seq("r", 16); break; case 35: seq("rg", 16); break; case 11: seq("rgba", 16); break;
      default: return false;
    }
  } else if (ft == FTy::KTX) {
    r.take(16); unsigned type = r.u32(); r.u32(); unsigned fmt = r.u32(); r.take(32); unsigned kv = r.u32();
    l.data = 64 + kv + 4; l.pad = true;
    const char* n = fmt == 0x1903 ? "r" : fmt == 0x8227 ? "rg" : fmt == 0x1907 ? "rgb" : fmt == 0x80E0 ? "bgr" : fmt == 0x1908 ? "rgba" : fmt == 0x80E1 ? "bgra" : nullptr;
    if (!n) return false;
    switch (type) {
      case 0x1401: seq(n, 8); break; case 0x1403: seq(n, 16); break;
      case 0x8033: packed(n, "DDDD", false); break; case 0x8365: packed(n, "DDDD", true); break;
      case 0x8363: packed(n, "EFE", false); break; case 0x8364: packed(n, "EFE", true); break;
      case 0x8034: packed(n, "EEEA", false); break; case 0x8366: packed(n, "EEEA", true); break;
      case 0x8035: packed(n, "HHHH", false); break; case 0x8367: packed(n, "HHHH", true); break;
      case 0x8036: packed(n, "JJJB", false); break; case 0x8368: packed(n, "JJJB", true); break;
      default: return false;
    }
  } else {
    r.take(8); const uint8_t* pf = r.take(8); r.take(32); unsigned meta = r.u32();
    if (r.bad) return false;
    l.data = 52 + meta;
    unsigned total = 0; bool whole = true; for (int i = 0; i < 4; ++i) { total += pf[4 + i]; if (pf[4 + i] % 8) whole = false; }
    unsigned o = whole ? 0 : total;
    for (int i = 0; i < 4 && pf[i]; ++i) { unsigned w = pf[4 + i]; if (!whole) o -= w; l.ch.push_back({(char)pf[i], {o, w}}); if (whole) o += w; }
    l.bytes = total / 8;
  }
  return !r.bad;
}
// The pixels a reader of the file sees in the first level against those of the images.
static std::string samePicture(const Bytes& file, FTy ft, const Spec& s) {
  Layout l;
  if (s.t != TT::UNorm || !layoutOf(file, ft, l)) return "";
  if (l.bytes != fmtBytes(s.f)) return fmtStr("the file describes pixels of %u bytes instead of %u", l.bytes, fmtBytes(s.f));
  size_t row = (size_t)s.w * l.bytes; if (l.pad) row = (row + 3) / 4 * 4;
  Image img = specImage(s, 0, 0, 0);                  // always first in the file
  for (unsigned k = 0; k < 6; ++k) {
    unsigned x = k == 1 ? s.w - 1 : (unsigned)(mix(s.seed + k) % s.w), y = k == 1 ? s.h - 1 : (unsigned)(mix(s.seed * 3 + k) % s.h);
    size_t at = l.data + y * row + (size_t)x * l.bytes;
    if (at + l.bytes > file.size()) return "the file ends inside its first surface";
    ColorRGBAd c{}; { Sut su; img.getPixel(c, x, y); }
    for (auto& e : l.ch) {
      double v = e.first == 'r' ? c.r : e.first == 'g' ? c.g : e.first == 'b' ? c.b : c.a;
      if (!(v == v)) continue;
      v = std::min(std::max(v, 0.0), 1.0);
      uint64_t bits = 0;
      for (unsigned i = 0; i < e.second.second; ++i) { unsigned b = e.second.first + i; bits |= (uint64_t)((file[at + b / 8] >> (b % 8)) & 1) << i; }
      double max = (double)((1ull << e.second.second) - 1), w = v * max;
      if (fabs((double)bits - w) > 0.6 + w * 1e-6) return fmtStr("a reader of the file sees %c = %.4f at %u, %u where the image has %.4f", e.first, bits / max, x, y, v);
    }
  }
  return "";
}
const char* extOf(FTy t) { return t == FTy::DDS ? "dds" : t == FTy::KTX ? "ktx" : "pvr"; }
static SR saveVec(Texture& t, Bytes& v, FTy ft) { Sut s; return t.save(v, ft); }
// A texture and a container that can hold it; converted, with the reference bytes.
static FTy drawSaved(Texture& t, Spec& s, Bytes& ref, unsigned maxDim) {
  SpecOpt o; o.maxDim = maxDim; o.maxMips = 5; o.odd = true;
  s = drawSpec(o);
  if (s.dim == Dim::Cube) { s.w = s.h = std::min(s.w, maxDim / 2 + 1); s.mips = std::min(s.mips, specMaxMips(s)); }
  FTy ft = (FTy)(1 + ch(3));
  if (!canStore(s.f, s.t, ft)) ft = FTy::PVR;
  buildTexture(t, s);
  bool ok; { Sut su; ok = convertTexture(t, s, 1); }
  if (!ok) violate("refused", "conversion refused: %s", s.str().c_str());
  logf("texture %s as %s", s.str().c_str(), fileTypeName(ft));
  SR r = saveVec(t, ref, ft);
  if (r != SR::Success) violate("refused", "saving to a vector without faults gives %s: %s as %s", resultName(r), s.str().c_str(), fileTypeName(ft));
  return ft;
}
static std::string drawName(const char* dir, const char* ext) {
  std::string e = ext;
  if (chance(1, 4)) for (auto& c : e) c = (char)toupper(c);
  static const char* stem[] = {"out", "a.b", "x y", "o.dds", "\xc3\xa4"};
  return std::string(dir) + "/" + stem[ch(5)] + "." + e;
}
static Bytes oldContents() { Bytes b; switch (ch(3)) { case 0: break; case 1: b.assign(20, 0xEE); break; default: b.assign(200000, 0xDD); } return b; }

// ---- C04 ----------------------------------------------------------------------------------------
static const int kWriteErr[] = {ENOSPC, EIO, EDQUOT, EFBIG};
static const int kOpenErr[] = {EACCES, EMFILE, ENFILE, ENOSPC, EROFS, EIO, EINTR};
static void addSoft(int64_t writes, int64_t size) {
  unsigned n = (unsigned)ch(4);
  for (unsigned i = 0; i < n; ++i) {
    int64_t nth = (int64_t)ch((uint64_t)writes + n);
    if (chance(1, 2)) { fs::addRule(fs::K_WRITE, nth, 1 + (int64_t)ch(3), EINTR); logf("fault: write %lld interrupted", (long long)nth); }
    else { uint64_t k = 1 + ch((uint64_t)std::min<int64_t>(size, 9000)); fs::addRule(fs::K_WRITE, nth, 1 + (int64_t)ch(3), 0, k); logf("fault: write %lld stores at most %llu bytes", (long long)nth, (unsigned long long)k); }
  }
}
// Draws a fault that hits the given file save. Returns whether one may make the save fail.
bool drawFileFault(int64_t writes, int64_t size) {
  switch (ch(6)) {
    case 0: { int64_t nth = (int64_t)ch(writes + 1); int e = kWriteErr[ch(4)]; fs::addRule(fs::K_WRITE, nth, chance(1, 2) ? 1 << 30 : 1, e); logf("fault: write %lld fails with errno %d", (long long)nth, e); return true; }
    case 1: { int64_t c = chance(1, 4) ? size - 1 - (int64_t)ch(std::min<int64_t>(size, 3)) : (int64_t)ch(size + 1); fs::setCapacity(c); logf("fault: disk full after %lld of %lld bytes", (long long)c, (long long)size); return true; }
    case 2: { uint64_t k = ch((uint64_t)std::min<int64_t>(size, 5000)); fs::addRule(fs::K_CLOSE_W, 0, 1, chance(1, 2) ? EIO : ENOSPC, k); logf("fault: close fails, losing data (%llu)", (unsigned long long)k); return true; }
    case 3: { int e = kOpenErr[ch(7)]; fs::addRule(fs::K_OPEN_W, 0, 1, e); logf("fault: open fails with errno %d", e); return true; }
    case 4: { addSoft(writes, size); return drawFileFault(writes, size); }
    default: addSoft(writes, size); return false;
  }
}
void runC04() {
  fs::reset();
  Spec s; Texture t; Bytes ref;
  FTy ft = drawSaved(t, s, ref, g_in.tier == "thorough" ? 60 : 40);
  uint64_t th = texHash(t);
  unsigned rounds = 1 + (unsigned)ch(3);
  for (unsigned round = 0; round < rounds; ++round) {
    int sink = (int)ch(3);
    if (sink == 0) {
      fs::makeDir("/sim/out");
      std::string name = drawName("/sim/out", extOf(ft));
      if (chance(1, 2)) fs::putFile(name, oldContents());
      FTy arg = chance(1, 2) ? FTy::Auto : ft;
      fs::clearFaults(); fs::clearOps();
      fs::putFile("/sim/rehearsal", {});
      SR r; { Sut su; r = t.save("/sim/rehearsal", ft); }
      Bytes got; fs::readFile("/sim/rehearsal", got);
      if (r != SR::Success || got != ref) violate("save-without-fault", "saving to a file without faults gives %s, %s", resultName(r), firstDiff(got, ref).c_str());
      int64_t writes = 0; for (auto& o : fs::ops()) if (o.kind == fs::K_WRITE) ++writes;
      fs::clearFaults(); fs::clearOps();
      bool may = drawFileFault(writes, (int64_t)ref.size());
      { Sut su; r = t.save(name.c_str(), arg); }
      int64_t hard = fs::hardFaults();
      bool atClose = false; for (auto& o : fs::ops()) if (o.kind == fs::K_CLOSE_W && o.injected) atClose = true;
      fs::clearFaults();
      got.clear(); bool there = fs::readFile(name, got);
      logf("save to %s: %s, %lld hard faults", name.c_str(), resultName(r), (long long)hard);
      if (hard && !may) violate("harness", "soft fault counted as hard");
      if (hard) nontrivial();
      if (r == SR::Success) {
        if (!there || got != ref) violate("false-success", "%s: saving to a file reported success but the file %s (%zu bytes expected)", s.str().c_str(), there ? firstDiff(got, ref).c_str() : "does not exist", ref.size());
        count(P_save_ok);
      } else {
        if (!hard) violate("false-failure", "saving to a file gave %s although no call that it depends on failed", resultName(r));
        if (r != SR::WriteError) violate("wrong-code", "a failed write was reported as %s", resultName(r));
        count(P_save_write_error); if (!atClose) count(got.size() < 148 ? P_fault_in_header : P_fault_in_data);
      }
      if (fs::openFds()) violate("fd-left", "%d files are still open after the save", fs::openFds());
      if (texHash(t) != th) violate("texture-changed", "a save to a file that gave %s changed the texture", resultName(r));
      // the disk works again
      { Sut su; r = t.save(name.c_str(), arg); }
      got.clear(); fs::readFile(name, got);
      if (r != SR::Success || got != ref) violate("no-recovery", "saving again after the fault gives %s, %s", resultName(r), firstDiff(got, ref).c_str());
      count(P_retry_ok);
    } else if (sink == 1) {
      SinkBuf b; std::ostream os(&b);
      b.seekable = chance(1, 3); b.mode = (int)ch(5); b.chunk = 1 + (size_t)ch(300);
      if (b.mode == 3) b.setBuffered();
      bool badEntry = false;
      int64_t size = (int64_t)ref.size();
      switch (ch(4)) {
        case 0: if (b.mode != 3) b.limit = (int64_t)ch(size); break;
        case 1: if (b.mode != 3) b.limit = size - 1 - (int64_t)ch(std::min<int64_t>(size, 6)); break;
        case 2: badEntry = true; os.setstate(chance(1, 2) ? std::ios::badbit : std::ios::failbit); count(F_sink_bad_on_entry); break;
        default: break;
      }
      if (b.limit >= 0) logf("fault: the stream refuses everything after %lld of %lld bytes (mode %d)", (long long)b.limit, (long long)size, b.mode);
      if (badEntry) logf("fault: the stream is already bad");
      bool exc = chance(1, 6) && !badEntry, threw = false;
      if (exc) os.exceptions(std::ios::badbit | std::ios::failbit);
      SR r = SR::Invalid;
      try { Sut su; r = t.save(os, ft); } catch (const std::exception& e) { if (!exc) violate("threw", "save to a stream threw %s", e.what()); threw = true; }
      b.flushBuf();
      bool complete = b.data == ref;
      logf("save to a stream: %s", threw ? "threw" : resultName(r));
      if (b.refused || badEntry) nontrivial();
      if (threw) { if (!b.refused) violate("false-failure", "save to a stream threw although the stream accepted everything"); }
      else if (r == SR::Success) { if (!complete) violate("false-success", "%s: saving to a stream reported success but the stream received %s", s.str().c_str(), firstDiff(b.data, ref).c_str()); count(P_save_ok); }
      else {
        if (!b.refused && !badEntry) violate("false-failure", "saving to a stream gave %s although it accepted everything", resultName(r));
        if (r != SR::WriteError) violate("wrong-code", "a stream that refuses bytes was reported as %s", resultName(r));
        count(P_save_write_error); count(b.data.size() < 148 ? P_fault_in_header : (int64_t)b.data.size() == size - 1 ? P_fault_in_last_byte : P_fault_in_data);
      }
      if (texHash(t) != th) violate("texture-changed", "a save to a stream changed the texture");
    } else {
      Bytes v, dry; v = oldContents();
      zeroAttempts();
      if (saveVec(t, dry, ft) != SR::Success) violate("save-without-fault", "saving to a vector failed");
      Attempts at = attempts(); zeroAttempts();
      bool fault = chance(3, 4) && drawResourceFault(at, RK_NEW), threw = false;
      SR r = SR::Invalid;
      try { r = saveVec(t, v, ft); } catch (const std::bad_alloc&) { threw = true; }
      bool fired = resourceFired(); clearResourceFaults();
      (void)fault;
      logf("save to a vector: %s", threw ? "threw" : resultName(r));
      if (fired) nontrivial();
      if (!threw && r == SR::Success) { if (v != ref) violate("false-success", "%s: saving to a vector reported success but the vector has %s", s.str().c_str(), firstDiff(v, ref).c_str()); count(P_save_ok); }
      else {
        if (!fired) violate("false-failure", "saving to a vector gave %s without any fault", threw ? "an exception" : resultName(r));
        if (!threw && r != SR::WriteError) violate("wrong-code", "running out of memory was reported as %s", resultName(r));
        count(P_save_write_error);
      }
      if (texHash(t) != th) violate("texture-changed", "a save to a vector changed the texture");
      v = oldContents();
      r = saveVec(t, v, ft);
      if (r != SR::Success || v != ref) violate("no-recovery", "saving to a vector again gives %s, %s", resultName(r), firstDiff(v, ref).c_str());
    }
  }
}

// ---- C05 ----------------------------------------------------------------------------------------
void runC05() {
  fs::reset(); fs::makeDir("/sim/out");
  drawSched();
  Spec s; Texture t; Bytes ref;
  FTy ft = drawSaved(t, s, ref, 40);
  uint64_t th = texHash(t);
  unsigned mips; { Sut su; mips = t.mipLevelCount(); }
  if (mips != s.mips) violate("mips", "%u mip levels instead of %u", mips, s.mips);
  TexData data = texData(t);
  std::string e = decode(ref, ft, s, mips, data);
  if (!e.empty()) violate("not-faithful", "%s: the %s file cannot be read back: %s", s.str().c_str(), fileTypeName(ft), e.c_str());
  e = samePicture(ref, ft, s);
  if (!e.empty()) violate("not-faithful", "%s: the %s file shows another picture: %s", s.str().c_str(), fileTypeName(ft), e.c_str());
  count(P_decode_ok); nontrivial();
  Bytes vec = oldContents();
  std::ostringstream reused(std::ios::binary); std::string reusedWant;
  Spec s2; Texture t2; Bytes ref2; FTy ft2 = ft; bool second = chance(1, 3);
  if (second) { ft2 = drawSaved(t2, s2, ref2, 16); }
  unsigned rounds = 1 + (unsigned)ch(5);
  for (unsigned i = 0; i < rounds; ++i) {
    SR r; Bytes got;
    FTy use = ft; Texture* ut = &t; const Bytes* want = &ref;
    if (second && chance(1, 3)) { use = ft2; ut = &t2; want = &ref2; }
    switch (ch(6)) {
      case 0: {
        std::string name = drawName("/sim/out", extOf(use));
        if (chance(1, 2)) fs::putFile(name, oldContents());
        bool soft = chance(1, 2);
        if (soft) addSoft(4, (int64_t)want->size());
        auto before = fs::snapshot();
        { Sut su; r = ut->save(name.c_str(), chance(1, 2) ? FTy::Auto : use); }
        fs::clearFaults();
        fs::readFile(name, got);
        logf("saved to %s", name.c_str());
        auto after = fs::snapshot(); before.erase(name); after.erase(name);
        if (before != after) violate("other-files", "saving %s touched other files", name.c_str());
        break;
      }
      case 1: r = saveVec(*ut, vec, use); got = vec; logf("saved to a vector"); break;
      case 2: { Bytes v; r = saveVec(*ut, v, use); got = v; break; }
      case 3: case 4: {
        SinkBuf b; std::ostream os(&b);
        b.seekable = chance(1, 2); b.mode = (int)ch(4); b.chunk = 1 + (size_t)ch(300); if (b.mode == 3) b.setBuffered();
        size_t prefix = chance(1, 2) ? (size_t)ch(50) : 0, tail = b.seekable && chance(1, 2) ? (size_t)ch(5000) : 0;
        b.data.assign(prefix + tail, 0x55); b.pos = prefix; b.base = prefix;
        Bytes exp(b.data); if (exp.size() < prefix + want->size()) exp.resize(prefix + want->size()); std::copy(want->begin(), want->end(), exp.begin() + prefix);
        unsigned times = chance(1, 4) ? 2 : 1;
        for (unsigned k = 0; k < times; ++k) { Sut su; r = ut->save(os, use); }
        if (times == 2) { if (exp.size() < prefix + 2 * want->size()) exp.resize(prefix + 2 * want->size()); std::copy(want->begin(), want->end(), exp.begin() + prefix + want->size()); }
        b.flushBuf();
        logf("saved to a stream of kind %d at position %zu, %u times", b.mode, prefix, times);
        if (r != SR::Success) violate("sinks-differ", "save to a stream gave %s", resultName(r));
        if (b.data != exp) violate("sinks-differ", "%s: a stream (mode %d, position %zu, %zu bytes after it) received %s", ut == &t ? s.str().c_str() : s2.str().c_str(), b.mode, prefix, tail, firstDiff(b.data, exp).c_str());
        got = *want;
        break;
      }
      default: {
        { Sut su; r = ut->save(reused, use); }
        reusedWant.append(want->begin(), want->end());
        if (reused.str() != reusedWant) violate("sinks-differ", "a reused string stream holds %zu bytes instead of %zu, or other ones", reused.str().size(), reusedWant.size());
        got = *want; logf("saved to a reused string stream");
      }
    }
    if (r != SR::Success) violate("sinks-differ", "saving without faults gave %s", resultName(r));
    if (got != *want) violate("sinks-differ", "%s: %s", s.str().c_str(), firstDiff(got, *want).c_str());
    if (texHash(t) != th) violate("texture-changed", "saving changed the texture");
  }
  if (second && chance(1, 2)) {   // both at once
    startSchedule();
    Bytes a = oldContents(), b; SR ra = SR::Invalid, rb = SR::Invalid, rc = SR::Invalid, rd = SR::Invalid;
    SinkBuf sb; std::ostream os(&sb); sb.mode = 1; sb.chunk = 31;
    spawn([&] { ra = saveVec(t, a, ft); Sut su; rc = t.save("/sim/out/one", ft); });
    spawn([&] { { Sut su; rd = t2.save(os, ft2); } rb = saveVec(t2, b, ft2); });
    joinAll();
    Bytes c; fs::readFile("/sim/out/one", c);
    if (ra != SR::Success || rb != SR::Success || rc != SR::Success || rd != SR::Success) violate("sinks-differ", "concurrent saves gave %s %s %s %s", resultName(ra), resultName(rb), resultName(rc), resultName(rd));
    if (a != ref || c != ref || b != ref2 || sb.data != ref2) violate("sinks-differ", "concurrent saves: %s/%s/%s/%s", firstDiff(a, ref).c_str(), firstDiff(c, ref).c_str(), firstDiff(b, ref2).c_str(), firstDiff(sb.data, ref2).c_str());
    count(P_multi_thread_runs);
  }
  if (texHash(t) != th) violate("texture-changed", "saving changed the texture");
}

// ---- C06 ----------------------------------------------------------------------------------------
static FTy badType(bool autoToo) { static const FTy b[] = {FTy::Auto, (FTy)4, (FTy)77, (FTy)-1}; return b[autoToo ? ch(4) : 1 + ch(3)]; }
void runC06() {
  fs::reset(); fs::makeDir("/sim/out");
  bool image = chance(1, 3);
  // --- the object
  Texture t; Image img; Spec s{};
  bool converted = false, valid = false;
  std::string why; std::vector<SR> codes; bool wantImageFalse = true;
  FTy ft = FTy::PVR;
  int unopen = 0;         // 1 missing directory, 2 is a directory, 3 no permission, 4 open fails, 5 a component is a file, 6 empty name
  bool nullName = false; std::string ext;
  if (!image) {
    SpecOpt o; o.maxDim = 20; o.maxMips = 3;
    s = drawSpec(o);
    int k = (int)ch(6);
    if (k == 3) for (int i = 0; i < 20; ++i) { ft = (FTy)(1 + ch(2)); if (!canStore(s.f, s.t, ft)) break; s.cs = ColorSpace::Linear; drawFormat(s); }
    if (k == 3 && canStore(s.f, s.t, ft)) k = 4;
    if (k != 0) { buildTexture(t, s); valid = true; }
    if (k >= 2) { Sut su; converted = convertTexture(t, s, 1); }
    if (k >= 2 && !converted) violate("refused", "conversion refused: %s", s.str().c_str());
    ft = k == 3 ? ft : (FTy)(1 + ch(3));
    if (k >= 4 && !canStore(s.f, s.t, ft)) ft = FTy::PVR;
    ext = extOf(ft);
    switch (k) {
      case 0: why = "the texture is invalid"; codes = {SR::Invalid}; break;
      case 1: why = "the texture is not converted"; codes = {SR::Invalid}; break;
      case 2: why = "the file type is unknown"; codes = {SR::UnknownFormat}; break;
      case 3: why = "the format is not supported by the container"; codes = {SR::Unsupported}; break;
      case 4: why = "there is no file name"; nullName = true; codes = {SR::Invalid}; break;
      default: why = "the destination cannot be opened"; codes = {SR::WriteError}; unopen = 1 + (int)ch(6); break;
    }
    if (k < 4 && chance(1, 5)) { unopen = 1 + (int)ch(5); codes.push_back(SR::WriteError); }    // two reasons at once: either may be reported
    if (k == 2) { ft = badType(true); if (ft == FTy::Auto) ext = "bin"; }
    logf("texture %s, %s, file type %s", s.str().c_str(), why.c_str(), fileTypeName(ft));
  } else {
    int k = (int)ch(6);
    static const struct { Image::Format f; const char* ext; } cannot[] = {{Image::Format::RGBAF, "png"}, {Image::Format::Complex, "png"}, {Image::Format::Int32, "png"}, {Image::Format::Double, "bmp"}, {Image::Format::RGB16, "bmp"}, {Image::Format::RGBA8, "jpg"}, {Image::Format::RGB16, "jpg"},
      {Image::Format::RGBAF, "tga"}, {Image::Format::RGB16, "tga"}, {Image::Format::RGBA8, "exr"}, {Image::Format::RGB8, "hdr"}, {Image::Format::Float, "png"}, {Image::Format::Float, "bmp"}, {Image::Format::Int32, "jpg"}};
    static const Image::Format all[] = {Image::Format::RGBA8, Image::Format::RGB8, Image::Format::Gray8, Image::Format::RGBAF, Image::Format::Float, Image::Format::Double, Image::Format::Complex, Image::Format::Int32, Image::Format::UInt16, Image::Format::RGB565, Image::Format::RGB16};
    if (k != 0) { img = mkImage(all[ch(11)], 1 + (unsigned)ch(12), 1 + (unsigned)ch(12), ColorSpace::Linear, 5); valid = true; }
    static const char* unk[] = {"", "xyz", "txt", "dds", "ktx", "pngx"};
    static const char* unwr[] = {"mng", "pcx", "ras", "iff", "koala", "cut", "pcd", "raw", "mng", "sgi"};
    static const char* okx[] = {"png", "tga", "bmp", "tif", "jpg"};
    ext = okx[ch(5)];
    switch (k) {
      case 0: why = "the image is invalid"; break;
      case 1: why = "the extension is unknown"; ext = unk[ch(6)]; break;
      case 2: why = "the file type cannot be written"; ext = unwr[ch(10)]; break;
      case 3: why = "there is no file name"; nullName = true; break;
      case 4: { why = "the file type cannot hold that format"; auto& c = cannot[ch(sizeof cannot / sizeof *cannot)]; img = mkImage(c.f, 1 + (unsigned)ch(12), 1 + (unsigned)ch(12), ColorSpace::Linear, 5); ext = c.ext; break; }
      default: why = "the destination cannot be opened"; unopen = 1 + (int)ch(6); break;
    }
    logf("image %s, %s, extension '%s'", valid ? imgDesc(img).c_str() : "invalid", why.c_str(), ext.c_str());
  }
  // --- the destination
  int sink = unopen || nullName ? 0 : (int)ch(3);
  uint64_t th = texHash(t), ih = imgHash(img);
  SR r = SR::Success; bool okI = true, threw = false;
  nontrivial(); count(P_refused_op);
  if (sink == 0) {
    static const char* unkExt[] = {"", ".", ".txt", ".ddsx", ".d", ".dds.bak"};
    std::string name = "/sim/out/file";
    if (!image && ft == FTy::Auto) name += unkExt[ch(6)]; else if (!ext.empty() || !image) name += "." + ext;
    bool existing = !unopen && chance(1, 2);
    if (existing) { Bytes b(1 + ch(3000), 0x42); fs::putFile(name, b); count(P_existing_dest); } else count(P_absent_dest);
    switch (unopen) {
      case 1: name = "/sim/out/missing/dir/file." + ext; break;
      case 2: fs::makeDir(name); break;
      case 3: fs::setReadOnlyDir("/sim/out"); break;
      case 4: fs::addRule(fs::K_OPEN_W, 0, 1 << 20, kOpenErr[ch(6)]); if (chance(1, 2)) fs::putFile(name, Bytes(100, 0x42)); break;
      case 5: fs::putFile("/sim/out/plain", Bytes(10, 1)); name = "/sim/out/plain/file." + ext; break;
      case 6: name = ""; break;
    }
    if (unopen) count(P_unopenable_dest);
    auto before = fs::snapshot(); uint64_t mut = fs::mutations();
    // The name is unimportant when the type is given explicitly.
    FTy arg = ft;
    if (!image && !unopen && ft >= FTy::DDS && ft <= FTy::PVR && chance(1, 2)) arg = FTy::Auto;
    if (unopen == 6 && image) codes.clear();
    try { Sut su; if (image) okI = img.save(nullName ? nullptr : name.c_str()); else r = t.save(nullName ? nullptr : name.c_str(), arg); }
    catch (const std::exception& e) { threw = true; logf("threw %s", e.what()); }
    auto after = fs::snapshot();
    logf("destination '%s'%s: %s", nullName ? "(null)" : name.c_str(), existing ? " (existing)" : "", image ? (okI ? "true" : "false") : resultName(r));
    if (before != after) {
      std::string what;
      for (auto& k : after) if (!before.count(k.first)) what = k.first + " was created"; else if (before[k.first] != k.second) what = k.first + " changed";
      for (auto& k : before) if (!after.count(k.first)) what = k.first + " disappeared";
      violate("destination-touched", "a save refused because %s touched the disk: %s", why.c_str(), what.c_str());
    }
    (void)mut;
    if (fs::openFds()) violate("fd-left", "a file is still open after a refused save");
  } else if (sink == 1) {
    SinkBuf b; std::ostream os(&b); b.mode = (int)ch(3); b.chunk = 5; b.seekable = chance(1, 2);
    b.data.assign(ch(100), 0x11); b.pos = b.data.size(); Bytes before = b.data; size_t pos = b.pos;
    try { Sut su; if (image) okI = img.save(os, ext.c_str()); else r = t.save(os, ft); } catch (const std::exception& e) { threw = true; logf("threw %s", e.what()); }
    if (!os.good()) violate("destination-touched", "a save refused because %s put the stream into a failed state", why.c_str());
    if (b.data != before || b.pos != pos) violate("destination-touched", "a save refused because %s wrote %zu bytes into a stream", why.c_str(), b.data.size() - before.size());
    logf("stream: %s", image ? (okI ? "true" : "false") : resultName(r));
  } else {
    Bytes v(ch(100), 0x11), before = v;
    try { Sut su; if (image) okI = img.save(v, ext.c_str()); else r = t.save(v, ft); } catch (const std::exception& e) { threw = true; logf("threw %s", e.what()); }
    if (v != before) violate("destination-touched", "a save refused because %s changed a vector of %zu bytes", why.c_str(), before.size());
    logf("vector: %s", image ? (okI ? "true" : "false") : resultName(r));
  }
  if (threw) violate("threw", "a save refused because %s threw", why.c_str());
  if (image) { if (okI && wantImageFalse) violate("wrong-code", "an image save succeeded although %s", why.c_str()); }
  else {
    bool good = false; for (SR c : codes) if (c == r) good = true;
    if (!good) violate("wrong-code", "a save gave %s although %s", resultName(r), why.c_str());
    count(r == SR::WriteError ? P_save_write_error : r == SR::Unsupported ? P_save_unsupported : r == SR::UnknownFormat ? P_save_unknown : P_save_invalid);
  }
  fs::clearFaults();
  if (texHash(t) != th || imgHash(img) != ih) violate("object-changed", "a refused save changed the object");
  if (fs::openFds()) violate("fd-left", "a file is still open after a refused save");
  // --- refused conversions leave an earlier one alone
  if (!image && valid) {
    bool reset = converted && chance(1, 2);    // with the images set again, only the arguments can be at fault
    if (reset) for (unsigned m = 0; m < s.mips; ++m) for (unsigned d = 0; d < specDepth(s, m); ++d) for (unsigned f = 0; f < specFaces(s); ++f) { Image i = specImage(s, m, d, f); Sut su; t.setImage(i, (Texture::CubeFace)f, m, d); }
    th = texHash(t);
    TF bf = TF::R8; TT bt = TT::Float; const char* reason = "the format does not have that type";
    bool complete = !converted || reset;
    switch (ch(4)) {
      case 0: for (int i = 0; i < 50 && fmtValid(bf, bt); ++i) { bf = (TF)(1 + ch(28)); bt = (TT)ch(6); } if (fmtValid(bf, bt)) { bf = TF::R8; bt = TT::Float; } break;
      case 1: bf = TF::Unknown; bt = TT::UNorm; reason = "the format is unknown"; break;
      case 2: bf = TF::BC1_RGB; bt = TT::UNorm; reason = "compression is not built in"; break;
      default: if (s.cs == ColorSpace::sRGB) { bf = TF::R16; bt = TT::UNorm; reason = "there is no sRGB variant"; } else if (!complete) { bf = TF::R8; bt = TT::UNorm; reason = "images are missing"; } break;
    }
    bool ok; { Sut su; ok = t.convert(bf, bt, s.q, s.a, s.m, 1 + (unsigned)ch(3)); }
    logf("refused conversion to %s %s: %d", fmtName(bf), typeName(bt), ok);
    if (ok) violate("wrong-code", "converting to %s %s succeeded although %s", fmtName(bf), typeName(bt), reason);
    if (texHash(t) != th) violate("object-changed", "a conversion to %s %s refused because %s changed the texture", fmtName(bf), typeName(bt), reason);
  }
}
