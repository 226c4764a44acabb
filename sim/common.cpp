#include <cmath>
#include "common.h"
#include <algorithm>
#include <cstdio>

uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = (const uint8_t*)p;
  while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h ^ v) + 0x9e3779b97f4a7c15ull; b += 8; n -= 8; }
  uint64_t v = 0; if (n) memcpy(&v, b, n);
  return mix(h ^ v ^ ((uint64_t)n << 56));
}
std::string fmtStr(const char* f, ...) {
  char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

// ---- formats ------------------------------------------------------------------------------------
typedef Texture::Format TF;
enum { UN = 1, SN = 2, UI = 4, SI = 8, UF = 16, FL = 32 };
const FmtInfo kFormats[] = {
  {TF::R4G4, "R4G4", 1, UN}, {TF::R4G4B4A4, "R4G4B4A4", 2, UN}, {TF::B4G4R4A4, "B4G4R4A4", 2, UN}, {TF::A4R4G4B4, "A4R4G4B4", 2, UN},
  {TF::R5G6B5, "R5G6B5", 2, UN}, {TF::B5G6R5, "B5G6R5", 2, UN}, {TF::R5G5B5A1, "R5G5B5A1", 2, UN}, {TF::B5G5R5A1, "B5G5R5A1", 2, UN}, {TF::A1R5G5B5, "A1R5G5B5", 2, UN},
  {TF::R8, "R8", 1, UN | SN | UI | SI}, {TF::R8G8, "R8G8", 2, UN | SN | UI | SI}, {TF::R8G8B8, "R8G8B8", 3, UN | SN | UI | SI}, {TF::B8G8R8, "B8G8R8", 3, UN},
  {TF::R8G8B8A8, "R8G8B8A8", 4, UN | SN | UI | SI}, {TF::B8G8R8A8, "B8G8R8A8", 4, UN}, {TF::A8B8G8R8, "A8B8G8R8", 4, UN},
  {TF::A2R10G10B10, "A2R10G10B10", 4, UN | UI}, {TF::A2B10G10R10, "A2B10G10R10", 4, UN | UI},
  {TF::R16, "R16", 2, UN | SN | UI | SI | FL}, {TF::R16G16, "R16G16", 4, UN | SN | UI | SI | FL}, {TF::R16G16B16, "R16G16B16", 6, UN | SN | UI | SI | FL}, {TF::R16G16B16A16, "R16G16B16A16", 8, UN | SN | UI | SI | FL},
  {TF::R32, "R32", 4, UI | SI | FL}, {TF::R32G32, "R32G32", 8, UI | SI | FL}, {TF::R32G32B32, "R32G32B32", 12, UI | SI | FL}, {TF::R32G32B32A32, "R32G32B32A32", 16, UI | SI | FL},
  {TF::B10G11R11_UFloat, "B10G11R11_UFloat", 4, UF}, {TF::E5B9G9R9_UFloat, "E5B9G9R9_UFloat", 4, UF},
};
const unsigned kFormatCount = sizeof kFormats / sizeof *kFormats;
unsigned fmtBytes(TF f) { for (auto& i : kFormats) if (i.f == f) return i.bytes; return 0; }
const char* fmtName(TF f) { for (auto& i : kFormats) if (i.f == f) return i.name; return f == TF::Unknown ? "Unknown" : "compressed"; }
bool fmtValid(TF f, Texture::Type t) { for (auto& i : kFormats) if (i.f == f) return i.types >> (int)t & 1; return false; }
const std::vector<FT>& fmtPairs() {
  static std::vector<FT>* v;
  if (!v) { v = new std::vector<FT>; for (auto& i : kFormats) for (int t = 0; t < 6; ++t) if (i.types >> t & 1) v->push_back({i.f, (Texture::Type)t}); }
  return *v;
}
const char* dimName(Dim d) { static const char* n[] = {"1D", "2D", "3D", "Cube"}; return n[(int)d]; }
const char* typeName(Texture::Type t) { static const char* n[] = {"UNorm", "SNorm", "UInt", "Int", "UFloat", "Float"}; return n[(int)t]; }
const char* resultName(Texture::SaveResult r) { static const char* n[] = {"Success", "Invalid", "UnknownFormat", "Unsupported", "WriteError"}; return (unsigned)r < 5 ? n[(int)r] : "?"; }
const char* fileTypeName(Texture::FileType t) { static const char* n[] = {"Auto", "DDS", "KTX", "PVR"}; return (unsigned)t < 4 ? n[(int)t] : "bogus"; }

// ---- images -------------------------------------------------------------------------------------
typedef Image::Format IF;
unsigned imgBits(IF f) {
  switch (f) {
    case IF::Gray8: return 8; case IF::Gray16: case IF::RGB5: case IF::RGB565: case IF::Int16: case IF::UInt16: return 16;
    case IF::RGB8: return 24; case IF::RGBA8: case IF::Int32: case IF::UInt32: case IF::Float: return 32;
    case IF::RGB16: return 48; case IF::RGBA16: case IF::Double: return 64; case IF::RGBF: return 96; case IF::RGBAF: case IF::Complex: return 128;
    default: return 0;
  }
}
const char* imgName(IF f) {
  static const char* n[] = {"Invalid", "Gray8", "Gray16", "RGB5", "RGB565", "RGB8", "RGB16", "RGBF", "RGBA8", "RGBA16", "RGBAF", "Int16", "UInt16", "Int32", "UInt32", "Float", "Double", "Complex"};
  return (unsigned)f < 18 ? n[(int)f] : "?";
}
void fillPixels(Image& img, uint64_t seed) {
  unsigned w = img.width(), h = img.height();
  Rng r(seed);
  bool wild = seed % 5 == 0;
  for (unsigned y = 0; y < h; ++y) {
    uint8_t* p = (uint8_t*)img.scanline(y);
    size_t n = (size_t)w * imgBits(img.format()) / 8;
    switch (img.format()) {
      case IF::RGBF: case IF::RGBAF: case IF::Float: {
        float* f = (float*)p;
        for (size_t i = 0; i < n / 4; ++i) { uint64_t v = r.next(); f[i] = wild ? (float)((double)(v & 0xffff) / 32768.0 - 0.5) : (float)((double)(v & 0xffff) / 65535.0); }
        break;
      }
      case IF::Double: case IF::Complex: {
        double* f = (double*)p;
        for (size_t i = 0; i < n / 8; ++i) f[i] = (double)(r.next() & 0xffff) / 65535.0;
        break;
      }
      default:
        for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)(r.next() >> 20);
        if (img.format() == IF::RGB5) for (size_t i = 1; i < n; i += 2) p[i] &= 0x7f;
    }
  }
}
Image mkImage(IF f, unsigned w, unsigned h, ColorSpace cs, uint64_t seed) {
  Image img;
  { Sut s; img.initialize(f, w, h, cs); }
  if (!img.isValid()) return img;
  fillPixels(img, seed);
  return img;
}
uint64_t imgHash(const Image& img) {
  if (!img.isValid()) return 0;
  unsigned w = img.width(), h = img.height();
  uint64_t v = mix(((uint64_t)w << 32 | h) ^ (uint64_t)img.format() << 50 ^ (uint64_t)img.colorSpace() << 60);
  size_t n = (size_t)w * imgBits(img.format()) / 8;
  for (unsigned y = 0; y < h; ++y) { const void* p = img.scanline(y); if (!p) return 1; v = hashBytes(p, n, v); }
  return v;
}
std::string imgDesc(const Image& i) { return i.isValid() ? fmtStr("%s %ux%u %s", imgName(i.format()), i.width(), i.height(), i.colorSpace() == ColorSpace::sRGB ? "sRGB" : "linear") : std::string("invalid"); }
void checkImage(const Image& img, const char* where) {
  Sut s;
  ColorRGBAd c;
  if (!img.isValid()) {
    if (img.width() || img.height() || img.bitsPerPixel()) { Harness h; violate("image-query", "%s: an invalid image reports size %ux%u, %u bpp", where, img.width(), img.height(), img.bitsPerPixel()); }
    if (img.format() != IF::Invalid) { Harness h; violate("image-query", "%s: an invalid image reports format %s", where, imgName(img.format())); }
    if (img.scanline(0) || img.getPixel(c, 0, 0)) { Harness h; violate("image-query", "%s: an invalid image hands out pixels", where); }
    if ((bool)img) { Harness h; violate("image-query", "%s: bool and isValid disagree", where); }
    if (img.redMask() || img.greenMask() || img.blueMask() || img.alphaMask() || img.redShift() || img.greenShift() || img.blueShift() || img.alphaShift()) { Harness h; violate("image-query", "%s: an invalid image reports colour masks", where); }
    return;
  }
  unsigned w = img.width(), h = img.height();
  if (!w || !h) { Harness hs; violate("image-query", "%s: a valid image reports size %ux%u", where, w, h); }
  if (img.format() == IF::Invalid) { Harness hs; violate("image-query", "%s: a valid image reports an invalid format", where); }
  if (img.bitsPerPixel() != imgBits(img.format())) { Harness hs; violate("image-query", "%s: %s image reports %u bits per pixel", where, imgName(img.format()), img.bitsPerPixel()); }
  size_t row = (size_t)w * imgBits(img.format()) / 8;
  volatile uint8_t sink = 0;
  for (unsigned y = 0; y < h; ++y) {
    const uint8_t* p = (const uint8_t*)img.scanline(y);
    if (!p) { Harness hs; violate("image-query", "%s: scanline %u of %u is null", where, y, h); }
    sink = sink + p[0] + p[row - 1];
  }
  if (img.scanline(h) || img.scanline(h + 1) || img.scanline(~0u)) { Harness hs; violate("image-query", "%s: out of range scanline is not null", where); }
  if (!img.getPixel(c, 0, 0) || !img.getPixel(c, w - 1, h - 1)) { Harness hs; violate("image-query", "%s: cannot read a corner pixel of a valid %s image", where, imgName(img.format())); }
  // the channel masks describe the pixels of 16 and 32 bit images
  IF f = img.format();
  if (f == IF::RGB5 || f == IF::RGB565 || f == IF::RGBA8) {
    const uint8_t* p = (const uint8_t*)img.scanline(h - 1) + (w - 1) * (imgBits(f) / 8);
    uint32_t v = p[0] | p[1] << 8; if (f == IF::RGBA8) v |= (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24;
    img.getPixel(c, w - 1, h - 1);
    double want[4] = {c.r, c.g, c.b, c.a};
    uint32_t mask[4] = {img.redMask(), img.greenMask(), img.blueMask(), img.alphaMask()}, shift[4] = {img.redShift(), img.greenShift(), img.blueShift(), img.alphaShift()};
    for (int i = 0; i < (f == IF::RGBA8 ? 4 : 3); ++i) {
      uint32_t top = mask[i] >> (shift[i] & 31), got = (v & mask[i]) >> (shift[i] & 31);
      if (!(top & 1) || (top & (top + 1)) || std::fabs((double)got / top - want[i]) > 1e-6) { Harness hs; violate("image-query", "%s: the mask %08x and shift %u of channel %d of a %s image don't describe its pixels", where, mask[i], shift[i], i, imgName(f)); }
    }
  }
  if (img.getPixel(c, w, 0) || img.getPixel(c, 0, h) || img.getPixel(c, ~0u, ~0u)) { Harness hs; violate("image-query", "%s: out of range pixel was read", where); }
}

// ---- textures -----------------------------------------------------------------------------------
std::string Spec::str() const {
  return fmtStr("%s %ux%u depth %u mips %u%s %s %s %s alpha %d mask %d%d%d%d quality %d", dimName(dim), w, h, depth, mips, genMips ? " generated" : "", cs == ColorSpace::sRGB ? "sRGB" : "linear", fmtName(f), typeName(t), (int)a, m.r, m.g, m.b, m.a, (int)q);
}
void drawFormat(Spec& s) {
  const auto& p = fmtPairs();
  // choose among the pairs the colour space allows
  static const TF srgbF[] = {TF::R8G8B8, TF::B8G8R8, TF::R8G8B8A8, TF::B8G8R8A8, TF::A8B8G8R8};
  if (s.cs == ColorSpace::sRGB) { s.f = srgbF[ch(5)]; s.t = Texture::Type::UNorm; }
  else { FT ft = p[ch(p.size())]; s.f = ft.f; s.t = ft.t; }
  s.q = (Texture::Quality)ch(5);
  s.a = chance(3, 4) ? (Texture::Alpha)ch(4) : Texture::Alpha::Standard;
  s.m = Texture::ColorMask();
  if (chance(1, 4)) { uint64_t b = ch(16); s.m = Texture::ColorMask(!(b & 1), !(b & 2), !(b & 4), !(b & 8)); }
}
static unsigned bitsOf(unsigned v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n; }
unsigned specMaxMips(const Spec& s) { unsigned n = std::max(bitsOf(s.w), bitsOf(s.h)); if (s.dim == Dim::Dim3D) n = std::max(n, bitsOf(s.depth)); return n; }
unsigned specDepth(const Spec& s, unsigned mip) { return s.dim == Dim::Dim3D ? std::max(s.depth >> mip, 1u) : std::max(s.depth, 1u); }
unsigned specFaces(const Spec& s) { return s.dim == Dim::Cube ? 6 : 1; }
Spec drawSpec(const SpecOpt& o) {
  Spec s{};
  static const Dim dims[] = {Dim::Dim2D, Dim::Cube, Dim::Dim3D, Dim::Dim1D};
  do s.dim = dims[ch(4)]; while ((s.dim == Dim::Cube && !o.cubes) || (s.dim == Dim::Dim3D && !o.d3) || (s.dim == Dim::Dim1D && !o.d1));
  auto size = [&]() -> unsigned {
    // small sizes, and sizes around multiples of the conversion tile
    if (o.maxDim >= 33 && chance(1, 2)) { unsigned tile = 32 * (unsigned)chRange(1, o.maxDim / 32); int64_t d = chRange(0, 2) - 1; return (unsigned)std::max<int64_t>(1, std::min<int64_t>(o.maxDim, (int64_t)tile + d)); }
    return 1 + (unsigned)chLog(o.maxDim);
  };
  s.w = size(); s.h = s.dim == Dim::Dim1D ? 1 : size();
  if (s.dim == Dim::Cube) s.h = s.w;
  s.depth = s.dim == Dim::Dim3D ? 1 + (unsigned)ch(5) : o.arrays && chance(1, 3) ? 1 + (unsigned)ch(3) : 0;
  // now and then a shape far from the others: many small layers or slices, or a long thin strip
  unsigned maxMips = o.maxMips;
  if (o.odd && chance(1, o.oddOneIn)) {
    maxMips = 16;
    // a size where counters and lengths wrap or change their width
    auto edge = [&](unsigned least, unsigned most) { static const unsigned e[] = {16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 65536}; unsigned v = e[ch(most > 5000 ? 10 : 9)] + (unsigned)ch(3) - 1; return std::min(std::max(v, least), most); };
    if (s.dim == Dim::Dim3D || (o.arrays && chance(1, 2))) {
      s.w = 1 + (s.w - 1) % 9; s.h = s.dim == Dim::Dim1D ? 1 : s.dim == Dim::Cube ? s.w : 1 + (s.h - 1) % 9;
      s.depth = (s.dim == Dim::Cube ? 1 : 4) + (unsigned)ch(s.dim == Dim::Cube ? 6 : 30);
      if (chance(1, 4)) { s.w = 1 + (s.w - 1) % 2; s.h = s.dim == Dim::Cube ? s.w : 1 + (s.h - 1) % 2; s.depth = edge(4, s.dim == Dim::Cube ? 65 : 257); }
    } else if (s.dim != Dim::Cube) {
      bool big = chance(1, 4);
      s.w = big ? edge(100, 65537) : 200 + (unsigned)ch(400); s.h = s.dim == Dim::Dim1D || big ? 1 : 1 + (s.h - 1) % 4; if (s.dim != Dim::Dim1D && chance(1, 2)) std::swap(s.w, s.h);
    } else if (chance(1, 4)) s.w = s.h = 33 + (unsigned)ch(33);
  }
  s.cs = chance(1, 4) ? ColorSpace::sRGB : ColorSpace::Linear;
  unsigned mm = std::min(specMaxMips(s), maxMips);
  s.mips = chance(1, 2) ? 1 + (unsigned)ch(mm) : 1;
  s.genMips = s.mips > 1 && chance(1, 2);
  s.filter = (Image::ResizeFilter)ch(5);
  s.seed = ch(1u << 20) + 1;
  drawFormat(s);
  return s;
}
Image specImage(const Spec& s, unsigned mip, unsigned d, unsigned f) {
  uint64_t seed = mix(s.seed * 1000003 + mip * 7919 + d * 131 + f);
  // mostly the native format, sometimes one that has to be converted
  IF fm = IF::RGBAF;
  if (seed % 7 == 3) fm = IF::RGBA8; else if (seed % 7 == 4) fm = IF::RGB8; else if (seed % 11 == 5) fm = IF::Gray8;
  return mkImage(fm, std::max(s.w >> mip, 1u), std::max(s.h >> mip, 1u), s.cs, seed);
}
bool fillTexture(Texture& t, const Spec& s) {
  unsigned levels = s.genMips ? 1 : s.mips;
  for (unsigned mip = 0; mip < levels; ++mip)
    for (unsigned d = 0; d < specDepth(s, mip); ++d)
      for (unsigned f = 0; f < specFaces(s); ++f) {
        Image img = specImage(s, mip, d, f);
        Sut su;
        if (!t.setImage(img, (Texture::CubeFace)f, mip, d)) return false;
      }
  if (s.genMips) { Sut su; if (!t.generateMipmaps(s.filter, s.mips)) return false; }
  return true;
}
void buildTexture(Texture& t, const Spec& s) {
  { Sut su; if (!t.initialize(s.dim, s.w, s.h, s.depth, s.mips, s.cs)) { Harness h; violate("refused", "initialize refused for %s", s.str().c_str()); } }
  if (!fillTexture(t, s)) violate("refused", "setting the images refused for %s", s.str().c_str());
}
bool convertTexture(Texture& t, const Spec& s, unsigned threads) { return t.convert(s.f, s.t, s.q, s.a, s.m, threads); }
TexData texData(const Texture& t) {
  TexData d;
  Sut su;
  for (unsigned mip = 0; mip < t.mipLevelCount(); ++mip)
    for (unsigned z = 0; z < t.depth(mip); ++z)
      for (unsigned f = 0; f < t.faceCount(); ++f) {
        const uint8_t* p = (const uint8_t*)t.data((Texture::CubeFace)f, mip, z);
        size_t n = t.dataSize((Texture::CubeFace)f, mip, z);
        Harness h;
        if (n > (1u << 30)) violate("data-size", "dataSize(%u,%u,%u) is %zu", f, mip, z, n);
        d.emplace_back(p ? p : (const uint8_t*)"", p ? p + n : (const uint8_t*)"");
      }
  return d;
}
uint64_t texHash(const Texture& t, bool images) {
  uint64_t h = 99;
  auto add = [&](uint64_t v) { h = mix(h ^ v) + 1; };
  Sut su;
  add(t.isValid()); add((int)t.dimension()); add((int)t.colorSpace()); add(t.isArray()); add(t.mipLevelCount()); add(t.faceCount());
  for (unsigned m = 0; m <= t.mipLevelCount(); ++m) { add(t.width(m)); add(t.height(m)); add(t.depth(m)); }
  add(t.imagesComplete()); add(t.converted()); add((int)t.format()); add((int)t.type()); add((int)t.alphaType());
  Texture::ColorMask cm = t.colorMask(); add(cm.r | cm.g << 1 | cm.b << 2 | cm.a << 3);
  for (unsigned mip = 0; mip < t.mipLevelCount(); ++mip)
    for (unsigned z = 0; z < t.depth(mip); ++z)
      for (unsigned f = 0; f < t.faceCount(); ++f) {
        if (images) add(imgHash(t.getImage((Texture::CubeFace)f, mip, z)));
        const void* p = t.data((Texture::CubeFace)f, mip, z);
        size_t n = t.dataSize((Texture::CubeFace)f, mip, z);
        if (p && n) add(hashBytes(p, n)); else add(n);
      }
  return h;
}
void checkTexture(const Texture& t, const char* where, int expectConverted) {
  Sut su;
#define BAD(...) do { Harness hs; violate("texture-query", __VA_ARGS__); } while (0)
  if (!t.isValid()) {
    if (t.mipLevelCount() || t.faceCount() || t.width() || t.height() || t.depth() || t.isArray()) BAD("%s: an invalid texture reports a size", where);
    if (t.converted() || t.imagesComplete() || t.data() || t.dataSize() || t.format() != TF::Unknown) BAD("%s: an invalid texture reports contents", where);
    if (t.getImage().isValid() || t.getImage(Texture::CubeFace::NegZ, 3, 2).isValid()) BAD("%s: an invalid texture hands out an image", where);
    return;
  }
  unsigned mips = t.mipLevelCount(), faces = t.faceCount();
  if (!mips || (faces != 1 && faces != 6) || (faces == 6) != (t.dimension() == Dim::Cube)) BAD("%s: %u mip levels, %u faces", where, mips, faces);
  if (mips > Texture::maxMipmapLevels(t.dimension(), t.width(), t.height(), t.depth())) BAD("%s: %u mip levels for %ux%u", where, mips, t.width(), t.height());
  bool conv = t.converted(), complete = true, dataOk = true;
  if (expectConverted >= 0 && conv != (bool)expectConverted) BAD("%s: converted() is %d", where, conv);
  unsigned bpp = conv ? fmtBytes(t.format()) : 0;
  if (!conv && t.format() != TF::Unknown) BAD("%s: not converted, but format() is %s", where, fmtName(t.format()));
  if (conv && !bpp) BAD("%s: converted but the format is %s", where, fmtName(t.format()));
  for (unsigned m = 0; m < mips; ++m) {
    unsigned w = std::max(t.width() >> m, 1u), h = std::max(t.height() >> m, 1u), d = t.dimension() == Dim::Dim3D ? std::max(t.depth() >> m, 1u) : t.depth();
    if (t.width(m) != w || t.height(m) != h || t.depth(m) != d) BAD("%s: level %u reports %ux%ux%u", where, m, t.width(m), t.height(m), t.depth(m));
    for (unsigned z = 0; z < d; ++z)
      for (unsigned f = 0; f < faces; ++f) {
        Texture::CubeFace cf = (Texture::CubeFace)f;
        const Image& img = t.getImage(cf, m, z);
        if (!img.isValid()) complete = false;
        else {
          if (img.width() != w || img.height() != h) BAD("%s: image of level %u is %ux%u, not %ux%u", where, m, img.width(), img.height(), w, h);
          if (img.format() != IF::RGBAF) BAD("%s: image of level %u has format %s", where, m, imgName(img.format()));
          if (!img.scanline(0) || !img.scanline(h - 1)) BAD("%s: image of level %u has no scanlines", where, m);
        }
        const uint8_t* p = (const uint8_t*)t.data(cf, m, z); size_t n = t.dataSize(cf, m, z);
        if (!conv) { if (p || n) BAD("%s: not converted, but level %u slice %u face %u hands out %zu bytes", where, m, z, f, n); }
        else {
          if (!p || n != (size_t)w * h * bpp) { dataOk = false; BAD("%s: converted, but level %u slice %u face %u has %zu bytes at %s instead of %zu", where, m, z, f, n, p ? "data" : "null", (size_t)w * h * bpp); }
          volatile uint8_t touch = p[0]; touch = p[n - 1]; (void)touch;
        }
        if (faces == 1 && f == 0 && (t.data(m, z) != (const void*)p || t.dataSize(m, z) != n || &t.getImage(m, z) != &img)) BAD("%s: face and faceless queries disagree", where);
        if (faces == 6 && (t.data(m, z) || t.dataSize(m, z) || t.getImage(m, z).isValid())) BAD("%s: a faceless query of a cube map is answered", where);
      }
    // out of range
    if (t.data(Texture::CubeFace::PosX, m, d) || t.dataSize(Texture::CubeFace::PosX, m, d) || t.getImage(Texture::CubeFace::PosX, m, d).isValid() || t.data(m, d) || t.dataSize(m, d) || t.getImage(m, d).isValid()) BAD("%s: slice %u of level %u is answered", where, d, m);
    if (faces == 1 && (t.data(Texture::CubeFace::NegX, m, 0) || t.dataSize(Texture::CubeFace::PosZ, m, 0) || t.getImage(Texture::CubeFace::NegZ, m, 0).isValid())) BAD("%s: face of a texture without faces is answered", where);
  }
  static const unsigned far[] = {0, 1, 7, 1000000, ~0u};
  for (unsigned k = 0; k < 5; ++k) {
    unsigned m = k < 3 ? mips + far[k] : far[k];
    if (t.width(m) || t.height(m) || t.depth(m) || t.data(m, 0) || t.dataSize(m, 0) || t.getImage(m, 0).isValid() || t.data(Texture::CubeFace::PosX, m, 0) || t.dataSize(Texture::CubeFace::PosX, m, 0) || t.getImage(Texture::CubeFace::PosX, m, 0).isValid()) BAD("%s: level %u of %u is answered", where, m, mips);
  }
  if (t.imagesComplete() != complete) BAD("%s: imagesComplete() is %d although the images are %scomplete", where, t.imagesComplete(), complete ? "" : "in");
  (void)dataOk;
#undef BAD
}
void checkNotConverted(Texture& t, const char* where) {
  checkTexture(t, where, 0);
  if (t.format() != TF::Unknown) violate("texture-query", "%s: not converted, but format() is %s", where, fmtName(t.format()));
  Bytes v{1, 2, 3};
  Texture::SaveResult r;
  { Sut s; r = t.save(v, Texture::FileType::PVR); }
  if (r != Texture::SaveResult::Invalid || v != Bytes{1, 2, 3}) violate("saved-unconverted", "%s: saving an unconverted texture gave %s and %zu bytes", where, resultName(r), v.size());
}
unsigned drawThreads() { static const unsigned t[] = {1, 2, 3, 4, 0, 5, 8, 16, 33, Texture::allCores}; return t[ch(10)]; }
unsigned drawCores() { static const unsigned c[] = {2, 1, 4, 8, 3, 0, 16, 40}; unsigned v = c[ch(8)]; return v; }
std::string firstDiff(const Bytes& a, const Bytes& b) {
  if (a.size() != b.size()) return fmtStr("%zu bytes instead of %zu", a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return fmtStr("byte %zu of %zu is %02x instead of %02x", i, a.size(), a[i], b[i]);
  return "";
}
std::string firstDiff(const TexData& a, const TexData& b) {
  if (a.size() != b.size()) return fmtStr("%zu surfaces instead of %zu", a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) { std::string d = firstDiff(a[i], b[i]); if (!d.empty()) return fmtStr("surface %zu: ", i) + d; }
  return "";
}

// ---- streams ------------------------------------------------------------------------------------
std::streamsize SinkBuf::put(const char* s, std::streamsize n) {
  Harness h;
  std::streamsize m = n;
  if (limit >= 0 && (int64_t)data.size() - (int64_t)base + m > limit) { m = std::max<int64_t>(0, limit - ((int64_t)data.size() - (int64_t)base)); }
  // writes go to the current position
  if (pos > data.size()) data.resize(pos);
  size_t over = std::min<size_t>(m, data.size() - pos);
  memcpy(data.data() + pos, s, over);
  data.insert(data.end(), s + over, s + m);
  pos += m;
  if (m < n && !refused) { refused = true; count(F_sink_refused_bytes); logf("  sink: refuses after %zu bytes", data.size()); }
  return m;
}
bool SinkBuf::flushBuf() {
  std::streamsize n = pptr() - pbase();
  if (!n) return true;
  std::streamsize m = put(pbase(), n);
  setp(buf, buf + sizeof buf);
  return m == n;
}
std::streamsize SinkBuf::xsputn(const char* s, std::streamsize n) {
  { Harness h; schedPoint(0); }
  if (mode == 2) { std::streamsize i = 0; for (; i < n; ++i) if (overflow((unsigned char)s[i]) == EOF) break; return i; }
  if (mode == 3) {
    std::streamsize i = 0;
    while (i < n) {
      if (pptr() == epptr() && !flushBuf()) return i;
      std::streamsize k = std::min<std::streamsize>(n - i, epptr() - pptr());
      memcpy(pptr(), s + i, k); pbump((int)k); i += k;
    }
    return i;
  }
  if (mode == 1) {   // pieces
    std::streamsize i = 0;
    while (i < n) { std::streamsize k = std::min<std::streamsize>(n - i, chunk); std::streamsize m = put(s + i, k); i += m; if (m < k) break; }
    count(F_sink_chunked);
    return i;
  }
  std::streamsize m = put(s, n);
  if (m < n && mode == 4) throw std::runtime_error("sink refuses");
  return m;
}
int SinkBuf::overflow(int c) {
  if (c == EOF) return 0;
  if (mode == 3) { if (!flushBuf()) return EOF; *pptr() = (char)c; pbump(1); return c; }
  char b = (char)c;
  if (put(&b, 1) == 1) return (unsigned char)c;
  if (mode == 4) throw std::runtime_error("sink refuses");
  return EOF;
}
int SinkBuf::sync() { if (mode == 3) return flushBuf() ? 0 : -1; return 0; }
SinkBuf::pos_type SinkBuf::seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode) {
  if (!seekable) return pos_type(off_type(-1));
  if (mode == 3 && !flushBuf()) return pos_type(off_type(-1));
  int64_t b = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (int64_t)pos : (int64_t)data.size();
  int64_t p = b + off;
  if (p < 0 || p > (1 << 28)) return pos_type(off_type(-1));
  pos = (size_t)p;
  return pos_type(off_type(pos));
}
int SourceBuf::underflow() {
  Harness h;
  schedPoint(0);
  size_t end = data.size();
  if (failAt >= 0 && pos >= (size_t)failAt && pos < end) {
    if (!failed) { failed = true; count(failMode ? F_source_error : F_source_truncated); logf("  source: %s at byte %zu of %zu", failMode ? "throws" : "ends", pos, end); }
    if (failMode) throw std::runtime_error("source error");
    return EOF;
  }
  if (pos >= end) return EOF;
  size_t n = std::min(chunk, end - pos);
  if (failAt >= 0 && pos + n > (size_t)failAt) n = (size_t)failAt - pos;
  buf.assign(data.begin() + pos, data.begin() + pos + n);
  pos += n; ++reads;
  setg(buf.data(), buf.data(), buf.data() + n);
  return (unsigned char)buf[0];
}
SourceBuf::pos_type SourceBuf::seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode) {
  Harness h;
  if (!seekable) return pos_type(off_type(-1));
  ++seeks;
  int64_t cur = (int64_t)pos - (egptr() - gptr());
  int64_t end = failAt >= 0 && failMode == 0 ? std::min<int64_t>(failAt, data.size()) : (int64_t)data.size();
  int64_t p = (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? cur : end) + off;
  if (end < (int64_t)data.size() && (d == std::ios_base::end || p > end) && !failed) { failed = true; count(F_source_truncated); logf("  source: asked for its end, %lld of %zu", (long long)end, data.size()); }
  if (p < 0 || p > end) return pos_type(off_type(-1));
  if (p == cur) return pos_type(off_type(cur));
  pos = (size_t)p; setg(nullptr, nullptr, nullptr);
  return pos_type(off_type(p));
}

// ---- faults -------------------------------------------------------------------------------------
void zeroAttempts() { clearResourceFaults(); g_newFired = g_threadFired = g_fiFired = 0; g_fiFallback = false; g_threadAttempts = g_newAttempts = g_fiAttempts = 0; }
Attempts attempts() { return {g_threadAttempts, g_newAttempts, g_fiAttempts}; }
int drawResourceFault(const Attempts& a, int kinds) {
  std::vector<int> av;
  if ((kinds & RK_THREAD) && a.thread) av.push_back(RK_THREAD);
  if ((kinds & RK_NEW) && a.nw) av.push_back(RK_NEW);
  if ((kinds & RK_FI) && a.fi) av.push_back(RK_FI);
  if (av.empty()) return 0;
  int k = av[ch(av.size())];
  int64_t n = k == RK_THREAD ? a.thread : k == RK_NEW ? a.nw : a.fi;
  int64_t at = chance(1, 4) ? n - 1 - std::min<int64_t>(n - 1, (int64_t)chLog(16)) : (int64_t)ch(n);   // often near the end
  static const int64_t cnts[] = {1, 1ll << 40, 2, 1};
  int64_t cnt = cnts[ch(4)];
  if (k == RK_THREAD) { g_threadFailAt = at; g_threadFailCount = cnt; }
  if (k == RK_NEW) { g_newFailAt = at; g_newFailCount = cnt; }
  if (k == RK_FI) { g_fiFailAt = at; g_fiFailCount = cnt; }
  // occasionally a second kind at the same time
  if (chance(1, 6) && (kinds & RK_NEW) && a.nw && k != RK_NEW) { g_newFailAt = (int64_t)ch(a.nw); g_newFailCount = 1; k |= RK_NEW; }
  logf("fault: %s%s%s fails at attempt %lld of %lld%s", k & RK_THREAD ? "thread start " : "", k & RK_NEW ? "allocation " : "", k & RK_FI ? "image library " : "", (long long)at, (long long)n, cnt > 2 ? " and all later ones" : cnt == 2 ? " and the next" : "");
  return k;
}
bool resourceFired() { return g_newFired || g_threadFired || g_fiFired; }
