// C01, C02, C03: conversion under schedules, concurrent callers, failing threads and memory.
#include "common.h"
#include <sstream>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>


// One conversion that must equal the single-threaded one.
void runC01() {
  fs::reset();
  g_cores = drawCores(); count(F_cores_reported);
  drawSched();
  startSchedule();
  unsigned n = 1 + (unsigned)ch(2);
  logf("cores reported %u", g_cores);
  for (unsigned i = 0; i < n; ++i) {
    SpecOpt o; o.maxDim = 100; o.maxMips = 4; o.odd = true;
    Spec s; unsigned threads;
    bool huge = g_in.tier == "thorough" ? chance(1, 200) : chance(1, 600);
    if (huge) {
      s = Spec{}; s.dim = Dim::Dim2D; s.w = 2048; s.h = 1056; s.depth = 0; s.mips = 1; s.cs = ColorSpace::Linear; s.seed = 7; s.q = Texture::Quality::Normal;
      s.f = Texture::Format::R8; s.t = Texture::Type::UNorm; count(P_huge_surface); i = n;
      threads = 2 + (unsigned)ch(4);
    } else {
      s = drawSpec(o);
      threads = drawThreads(); if (chance(1, 40)) threads = 60 + (unsigned)ch(80);
      // keep the run affordable: cubes, arrays and volumes multiply the work
      uint64_t px = (uint64_t)s.w * s.h * std::max(s.depth, 1u) * specFaces(s);
      if (px > 24000) { s.depth = s.dim == Dim::Dim3D ? 1 : 0; if (s.dim == Dim::Cube) { s.w = s.h = std::min(s.w, 65u); } s.mips = std::min(s.mips, specMaxMips(s)); }
    }
    logf("convert %s with %u threads", s.str().c_str(), threads);
    Texture t, ref;
    buildTexture(t, s);
    { Sut su; ref = t; }
    bool ok;
    { Sut su; ok = convertTexture(ref, s, 1); }
    if (!ok) violate("refused", "the single-threaded conversion was refused: %s", s.str().c_str());
    TexData want = texData(ref);
    uint64_t started0 = g_res->counters[P_threads_started];
    { Sut su; ok = convertTexture(t, s, threads); }
    uint64_t started = g_res->counters[P_threads_started] - started0;
    if (liveThreads()) violate("thread-left", "%d worker threads still exist after convert() returned", liveThreads());
    if (!ok) violate("refused", "conversion with %u threads on %u cores failed: %s", threads, g_cores, s.str().c_str());
    TexData got = texData(t);
    std::string d = firstDiff(got, want);
    if (!d.empty()) violate("bytes-differ", "%s: converting with %u threads on %u cores differs from one thread: %s", s.str().c_str(), threads, g_cores, d.c_str());
    checkTexture(t, "after a parallel conversion", 1);
    count(P_convert_ok); count(P_reference_checked); count(started ? P_convert_parallel : P_convert_serial);
    if (started) nontrivial();
    unsigned jobs = ((s.w + 31) / 32) * ((s.h + 31) / 32);
    if (started && threads > jobs) count(P_more_threads_than_jobs);
  }
}

// ---- C02 ----------------------------------------------------------------------------------------
struct Step { int op; uint64_t a, b, c; Spec s; std::string dir; };
struct Shared2 { Image img; Texture tex; Texture conv; };

static uint64_t fileHash(const std::string& n) { Bytes b; return fs::readFile(n, b) ? hashBytes(b) : 7; }
static uint64_t doStep(const Step& st, Shared2* sh, std::vector<Image>& mine) {
  static const Image::Format ff[] = {Image::Format::RGBA8, Image::Format::RGB8, Image::Format::RGBAF, Image::Format::Gray8, Image::Format::RGBA16, Image::Format::Float, Image::Format::Gray16, Image::Format::RGB565};
  unsigned w = 1 + st.a % 20, h = 1 + st.b % 20;
  switch (st.op) {
    case 0: {   // new image, some in-place operations
      Image i = mkImage(ff[st.c % 8], w, h, st.c & 64 ? ColorSpace::sRGB : ColorSpace::Linear, st.a * 31 + st.b);
      if (!i.isValid()) return 1;
      { Sut s; if (st.c & 128) i.flipHorizontal(); if (st.c & 256) i.changeColorSpace(ColorSpace::Linear); if (st.c & 512) i.swizzle(Image::Channel::Green, Image::Channel::Red, Image::Channel::None, Image::Channel::Alpha); if (st.c & 1024) i.grayscale(); }
      uint64_t v = imgHash(i);
      Sut s; mine.push_back(std::move(i));
      return v;
    }
    case 1: {   // derived image
      Image src = mine.empty() ? mkImage(Image::Format::RGBA8, w, h, ColorSpace::Linear, st.a) : Image();
      const Image& from = mine.empty() ? src : mine[st.a % mine.size()];
      Image r;
      { Sut s; switch (st.c % 4) { case 0: r = from.convert(ff[st.b % 8]); break; case 1: r = from.resize(1 + st.b % 33, 1 + st.c % 17, (Image::ResizeFilter)(st.a % 5)); break; case 2: r = from.rotate((Image::RotateAngle)(st.b % 6)); break; default: r = from; } }
      return imgHash(r);
    }
    case 2: {   // texture conversion
      Texture t; buildTexture(t, st.s);
      bool ok; { Sut s; ok = convertTexture(t, st.s, (unsigned)(1 + st.a % 3)); }
      return ok ? texHash(t, false) : 2;
    }
    case 3: {   // conversion and save into memory
      Texture t; buildTexture(t, st.s);
      Bytes v; Texture::SaveResult r = Texture::SaveResult::Invalid;
      { Sut s; if (convertTexture(t, st.s, 1)) r = t.save(v, (Texture::FileType)(1 + st.a % 3)); }
      return hashBytes(v) + (int)r;
    }
    case 4: {   // encode an image and load it again
      Image i = mkImage(st.c & 1 ? Image::Format::RGB8 : Image::Format::RGBA8, w, h, ColorSpace::Linear, st.b);
      Bytes v; bool ok, ok2 = false; Image j;
      { Sut s; static const char* ext[] = {"a.png", "a.tga", "a.bmp", "a.tif"}; ok = i.save(v, ext[st.a % 4]); if (ok) ok2 = j.load(v.data(), v.size()); }
      return hashBytes(v) + ok * 2 + ok2 + imgHash(j);
    }
    case 5: {   // read a shared image
      if (!sh) return 3;
      count(P_shared_reads);
      Image r; uint64_t v;
      { Sut s; switch (st.c % 4) { case 0: r = sh->img; break; case 1: r = sh->img.convert(ff[st.b % 8]); break; case 2: r = sh->img.resize(1 + st.b % 40, 1 + st.a % 40, (Image::ResizeFilter)(st.c / 4 % 5)); break; default: r = sh->img.rotate((Image::RotateAngle)(st.b % 6)); }
        ColorRGBAd c{}; sh->img.getPixel(c, (unsigned)st.a % sh->img.width(), (unsigned)st.b % sh->img.height()); v = (uint64_t)(c.r * 1e6);
        const Image& i = sh->img;
        v = v * 31 + i.bitsPerPixel() + i.redMask() + i.greenMask() * 3 + i.blueMask() * 5 + i.alphaMask() * 7 + i.redShift() + i.greenShift() + i.blueShift() + i.alphaShift() + (i.scanline(i.height() - 1) != nullptr); }
      if (st.c & 64) {   // into a texture of its own, and as the custom level of its mipmaps
        Texture t; bool ok;
        { Sut s; t.initialize(Dim::Dim2D, sh->img.width(), sh->img.height(), 0, 1, ColorSpace::Linear); ok = t.setImage(sh->img);
          Texture::CustomMipImages custom; custom.emplace(Texture::ImageIndex(1), Texture::CustomMipImage(sh->img, Texture::MipReplacement((st.c >> 7) & 1)));
          ok = ok && t.generateMipmaps(Image::ResizeFilter::Box, Texture::allMipLevels, custom); }
        v = v * 31 + texHash(t) + ok;
      }
      return imgHash(r) + v;
    }
    case 6: {   // copy a shared unconverted texture and convert the copy
      if (!sh) return 3;
      count(P_shared_reads);
      Texture t; bool ok;
      { Sut s; t = sh->tex; ok = t.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1 + st.a % 2); }
      return texHash(t) + ok;
    }
    case 7: {   // read a shared converted texture
      if (!sh) return 3;
      count(P_shared_reads);
      Texture t; { Sut s; t = sh->conv; }
      return texHash(sh->conv) * 3 + texHash(t);
    }
    case 9: {   // save an image to a stream of its own, load it from another
      unsigned big = st.c >> 6 == 63 ? 500 : 20;     // sometimes larger than any buffer
      Image i = mkImage(st.c & 1 ? Image::Format::RGB8 : Image::Format::RGBA8, w + big, h + big, ColorSpace::Linear, st.b);
      static const char* ext[] = {"png", "tga", "bmp", "tif"}; const char* e = ext[st.a % 4];
      bool ok, ok2 = false; Image j; Bytes v;
      if (st.c & 2) { std::ostringstream os; { Sut s; ok = i.save(os, e); } std::string x = os.str(); v.assign(x.begin(), x.end()); }
      else { SinkBuf b; b.mode = (int)(st.c >> 2) & 3; if (b.mode == 3) b.setBuffered(); std::ostream os(&b); { Sut s; ok = i.save(os, e); os.flush(); } v = b.data; }
      if (ok) {
        if ((st.c >> 4) % 3 == 0) { std::istringstream is(std::string(v.begin(), v.end())); Sut s; ok2 = j.load(is); }
        else { SourceBuf b; b.data = v; b.seekable = (st.c >> 4) % 3 == 1; b.chunk = 1 + st.a % 300; std::istream is(&b); Sut s; ok2 = j.load(is); }
      }
      return hashBytes(v) + ok * 2 + ok2 + imgHash(j);
    }
    case 10: {  // files of its own
      Image i = mkImage(st.c & 1 ? Image::Format::RGB8 : Image::Format::Gray8, w, h, ColorSpace::Linear, st.b);
      static const char* ext[] = {".png", ".tga", ".bmp", ".tif"}; std::string n = st.dir + "/i" + ext[st.a % 4];
      bool ok, ok2; Image j;
      { Sut s; ok = i.save(n.c_str()); ok2 = j.load(n.c_str(), st.c & 2 ? ColorSpace::sRGB : ColorSpace::Linear); }
      return imgHash(j) + ok * 2 + ok2 + fileHash(n);
    }
    case 11: {  // a texture file of its own, and a stream
      Texture t; buildTexture(t, st.s);
      Texture::SaveResult r = Texture::SaveResult::Invalid, r2 = r; Texture::FileType ft = (Texture::FileType)(1 + st.a % 3);
      static const char* ext[] = {".dds", ".ktx", ".pvr"}; std::string n = st.dir + "/t" + ext[st.b % 3];
      SinkBuf b; b.mode = (int)st.c & 3; if (b.mode == 3) b.setBuffered(); std::ostream os(&b);
      { Sut s; if (convertTexture(t, st.s, 1 + st.c % 2)) { r = t.save(n.c_str()); r2 = t.save(os, ft); } os.flush(); }
      return hashBytes(b.data) + fileHash(n) * 3 + (int)r * 5 + (int)r2;
    }
    case 12: {  // pixel operations that keep working state
      Image i = mkImage(st.c & 1 ? Image::Format::RGBAF : Image::Format::RGB8, w, h, st.c & 2 ? ColorSpace::sRGB : ColorSpace::Linear, st.a);
      Image n; uint64_t v = 0;
      { Sut s;
        if (st.c & 4) n = i.createNormalMap((Image::NormalOptions)(st.c >> 3 & 7), 1.0 + st.b % 3, st.c & 64 ? Image::Format::RGB8 : Image::Format::RGBF);
        if (st.c & 128) i.preMultiplyAlpha();
        if (st.c & 256) i.flipVertical();
        if (st.c & 512) {
          static const Texture::Type ty[] = {Texture::Type::UNorm, Texture::Type::SNorm, Texture::Type::UInt, Texture::Type::Int};
          static const Image::Format of[] = {Image::Format::RGBA8, Image::Format::RGB16, Image::Format::RGB5, Image::Format::RGB565, Image::Format::Gray8, Image::Format::RGBAF, Image::Format::Invalid};
          Texture::adjustImageValueRange(i, ty[(st.c >> 10) & 3], of[(st.a + st.b) % 7]);
        }
        if (st.c & 2048) i.changeColorSpace(ColorSpace::sRGB);
        v = i.bitsPerPixel() + i.redMask() * 3 + i.alphaShift() * 7;
        ColorRGBAd c{.25, .5, .75, 1}; i.setPixel(w - 1, h - 1, c); }
      return imgHash(i) + imgHash(n) * 3 + v;
    }
    case 13: {  // mipmaps, some of them its own images
      Texture t; Spec p = st.s; p.mips = 1; p.genMips = false; buildTexture(t, p);
      unsigned d = p.dim == Dim::Dim3D ? std::max(p.depth, 1u) : 0;
      unsigned levels = Texture::maxMipmapLevels(p.dim, p.w, p.h, d);
      Texture::CustomMipImages custom;
      bool ok; { Sut s;
        if (levels > 1 && st.c & 1) {
          Image c(Image::Format::RGBA8, 1 + st.a % 9, 1 + st.b % 9);
          for (unsigned y = 0; y < c.height(); ++y) for (unsigned x = 0; x < c.width(); ++x) c.setPixel(x, y, ColorRGBAd{.1 * (x % 10), .1 * (y % 10), .3, .5});
          if (p.dim == Dim::Cube) custom.emplace(Texture::ImageIndex(Texture::CubeFace::PosY, 1), Texture::CustomMipImage(c, Texture::MipReplacement((st.c >> 1) & 1)));
          else if (p.dim == Dim::Dim3D) { for (unsigned k = 0; k < std::max(d / 2, 1u); ++k) custom.emplace(Texture::ImageIndex(1, k), Texture::CustomMipImage(Image(c), Texture::MipReplacement((st.c >> 1) & 1))); }
          else custom.emplace(Texture::ImageIndex(1), Texture::CustomMipImage(Image(c), Texture::MipReplacement((st.c >> 1) & 1)));
        }
        ok = t.generateMipmaps((Image::ResizeFilter)(st.b % 5), st.c & 4 ? Texture::allMipLevels : 2, custom); }
      return texHash(t) + ok;
    }
    default: {  // static queries
      uint64_t v = 0; Sut s;
      for (unsigned f = 0; f < 64; ++f) for (unsigned t = 0; t < 6; ++t) v = v * 3 + Texture::isFormatValid((Texture::Format)f, (Texture::Type)t) + Texture::isFormatValid((Texture::Format)f, (Texture::Type)t, (Texture::FileType)(1 + st.a % 3));
      Image e; Texture x;
      for (unsigned f = 0; f < 64; ++f) { Texture::Format F = (Texture::Format)f; v = v * 7 + Texture::hasAlpha(F) + Texture::blockWidth(F) * 3 + Texture::blockHeight(F) * 5 + Texture::blockSize(F) * 11 + Texture::minWidth(F) + Texture::minHeight(F) + Texture::hasNativeSRGB(F, Texture::Type::UNorm); }
      v += (int)Texture::fileType("some/name.ktx") * 5 + (int)Texture::fileType("x.DDS") + Texture::maxMipmapLevels(Dim::Dim3D, 1 + st.a, 1 + st.b, 4);
      v = v * 5 + x.getImage(0, 0).isValid() + x.getImage(Texture::CubeFace::NegX, 1, 2).isValid();
      return v;
    }
  }
}

void runC02() {
  fs::reset();
  g_cores = drawCores();
  drawSched();
  unsigned nt = 2 + (unsigned)ch(3);
  bool shared = chance(1, 2);        // the other runs make the first use of the library concurrently
  std::vector<std::vector<Step>> script(nt);
  for (unsigned t = 0; t < nt; ++t) {
    unsigned n = 1 + (unsigned)ch(4);
    for (unsigned i = 0; i < n; ++i) {
      Step st; st.op = (int)ch(14); st.dir = fmtStr("/sim/t%u_%u", t, i);
      if (!shared && st.op >= 5 && st.op <= 7) st.op = 8;
      st.a = ch(1000); st.b = ch(1000); st.c = ch(4096);
      SpecOpt o; o.maxDim = 20; o.maxMips = 3; if (st.op == 2 && chance(1, 2)) o.maxDim = 40;
      if (st.op == 2 || st.op == 3 || st.op == 11 || st.op == 13) { st.s = drawSpec(o); if (st.s.dim == Dim::Cube) st.s.w = st.s.h = std::min(st.s.w, 8u), st.s.mips = std::min(st.s.mips, specMaxMips(st.s)); }
      script[t].push_back(st);
    }
  }
  for (unsigned t = 0; t < nt; ++t) { std::string l; for (auto& s : script[t]) l += fmtStr(" op%d(%llu,%llu,%llu)", s.op, (unsigned long long)s.a, (unsigned long long)s.b, (unsigned long long)s.c); logf("thread %u:%s", t + 1, l.c_str()); }
  for (auto& sc : script) for (auto& s : sc) fs::makeDir(s.dir);
  std::unique_ptr<Shared2> sh;
  uint64_t shHash = 0;
  Spec ss{}; ss.dim = Dim::Dim2D; ss.w = 9; ss.h = 34; ss.depth = 2; ss.mips = 2; ss.genMips = true; ss.cs = ColorSpace::Linear; ss.seed = 5; ss.f = Texture::Format::R16G16; ss.t = Texture::Type::UNorm; ss.q = Texture::Quality::Normal; ss.a = Texture::Alpha::Standard;
  if (shared) {
    sh.reset(new Shared2);
    static const Image::Format ff[] = {Image::Format::RGBA8, Image::Format::RGB8, Image::Format::RGBAF, Image::Format::Float, Image::Format::Int16, Image::Format::Double};
    sh->img = mkImage(ff[ch(6)], 1 + (unsigned)ch(30), 1 + (unsigned)ch(30), chance(1, 3) ? ColorSpace::sRGB : ColorSpace::Linear, 11);
    buildTexture(sh->tex, ss); buildTexture(sh->conv, ss);
    { Sut s; if (!convertTexture(sh->conv, ss, 1)) { Harness h; violate("refused", "conversion refused"); } }
    shHash = imgHash(sh->img) ^ texHash(sh->tex) * 3 ^ texHash(sh->conv) * 5;
  }
  std::vector<std::vector<uint64_t>> got(nt), want(nt);
  for (unsigned t = 0; t < nt; ++t) { got[t].resize(script[t].size()); want[t].resize(script[t].size()); }
  startSchedule();
  Shared2* shp = sh.get();
  for (unsigned t = 0; t < nt; ++t)
    spawn([&, t]() { std::vector<Image> mine; for (size_t i = 0; i < script[t].size(); ++i) got[t][i] = doStep(script[t][i], shp, mine); });
  joinAll();
  nontrivial();
  for (unsigned t = 0; t < nt; ++t) { std::vector<Image> mine; for (size_t i = 0; i < script[t].size(); ++i) want[t][i] = doStep(script[t][i], shp, mine); }
  for (unsigned t = 0; t < nt; ++t)
    for (size_t i = 0; i < script[t].size(); ++i)
      if (got[t][i] != want[t][i]) violate("result-differs", "thread %u step %zu (op %d) gave a different result while other threads were running (%s) than alone", t + 1, i, script[t][i].op, script[t][i].op == 2 || script[t][i].op == 3 ? script[t][i].s.str().c_str() : "image operation");
  if (shared) {
    uint64_t v = imgHash(sh->img) ^ texHash(sh->tex) * 3 ^ texHash(sh->conv) * 5;
    if (v != shHash) violate("shared-changed", "an object that was only read changed");
  }
  count(P_reference_checked);
}

// ---- C19 ----------------------------------------------------------------------------------------
// What an operation on new objects yields does not depend on the past of the process.
static Step drawStep(const char* dir, unsigned i) {
  Step st; st.op = (int)ch(14); if (st.op >= 5 && st.op <= 7) st.op += 6;
  st.dir = fmtStr("/sim/%s%u", dir, i);
  st.a = ch(1000); st.b = ch(1000); st.c = ch(4096);
  SpecOpt o; o.maxDim = 20; o.maxMips = 3; if (st.op == 2 && chance(1, 2)) o.maxDim = 40;
  if (st.op == 2 || st.op == 3 || st.op == 11 || st.op == 13) { st.s = drawSpec(o); if (st.s.dim == Dim::Cube) st.s.w = st.s.h = std::min(st.s.w, 8u), st.s.mips = std::min(st.s.mips, specMaxMips(st.s)); }
  return st;
}
static void probe(const std::vector<Step>& sc, uint64_t* out, Attempts* made = nullptr) {
  fs::reset();
  for (auto& s : sc) fs::makeDir(s.dir);
  std::vector<Image> mine;
  for (size_t i = 0; i < sc.size(); ++i) {
    if (made) zeroAttempts();
    try { out[i] = doStep(sc[i], nullptr, mine); }
    catch (const std::exception& e) { Harness h; logf("step %zu threw %s", i, e.what()); out[i] = 0xdead0000 + hashBytes(Bytes(e.what(), e.what() + strlen(e.what()))); }
    catch (const SoftViolation&) { out[i] = 0xbad; }
    if (made) made[i] = attempts();
  }
}
void runC19() {
  fs::reset();
  g_cores = drawCores(); count(F_cores_reported);
  drawSched();
  unsigned n = 1 + (unsigned)ch(4), m = 1 + (unsigned)ch(5);
  std::vector<Step> sc, hist;
  for (unsigned i = 0; i < n; ++i) sc.push_back(drawStep("p", i));
  std::string l; for (auto& s : sc) l += fmtStr(" op%d(%llu,%llu,%llu)%s", s.op, (unsigned long long)s.a, (unsigned long long)s.b, (unsigned long long)s.c, s.op == 2 || s.op == 3 || s.op == 11 || s.op == 13 ? (" " + s.s.str()).c_str() : "");
  logf("probe:%s", l.c_str());
  // the same steps in a process without a past
  struct Fresh { volatile uint64_t done; uint64_t v[8]; Attempts at[8]; };
  auto* fresh = (Fresh*)mmap(nullptr, sizeof(Fresh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  startSchedule();
  pid_t pid = fork();
  if (pid < 0) fatal("fork failed");
  if (pid == 0) {
    auto* r = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_res = r;
    g_softViolate = true; g_sched.policy = 0;
    probe(sc, fresh->v, fresh->at);
    fresh->done = 1;
    _exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0) {}
  bool have = fresh->done && WIFEXITED(st) && WEXITSTATUS(st) == 0;
  uint64_t want[8], got[8]; memcpy(want, fresh->v, sizeof want);
  std::vector<Attempts> made(fresh->at, fresh->at + 8);
  munmap(fresh, sizeof(Fresh));
  if (!have) { count(P_other_property); logf("the steps fail in a fresh process too"); return; }
  // the past
  bool again = chance(1, 3);
  for (unsigned round = 0; round < 1u + again; ++round) {
    g_softViolate = true;
    for (unsigned i = 0; i < m; ++i) {
      unsigned k = (unsigned)ch(8);
      if (k == 7 && chance(1, 2)) {
        static const struct { const char* name; void (*run)(); } parts[] = {{"conversion under faults", runC03}, {"texture save", runC04}, {"refused saves", runC06}, {"texture history", runC11}, {"mipmaps", runC12}, {"texture saves", runC05}};
        unsigned q = (unsigned)ch(6);
        logf("past: %s", parts[q].name);
        try { parts[q].run(); nontrivial(); } catch (const SoftViolation&) {}
        clearResourceFaults(); fs::reset();
        continue;
      }
      int own = chance(2, 3) ? (int)ch(n) : -1;                      // often one of the probe's own steps
      Step h = own >= 0 ? sc[own] : drawStep("h", i);
      auto prep = [&]() { clearResourceFaults(); fs::reset(); fs::makeDir(h.dir); };
      prep();
      Attempts at{3, 1 + (int64_t)chLog(400), 1 + (int64_t)chLog(30)};
      if (own >= 0 && chance(7, 8)) at = made[own];      // as many as the fresh process made
      unsigned reps = k >= 1 && k <= 4 && chance(1, 2) ? 2 + (unsigned)ch(7) : 1;    // the same step fails in several places
      bool fired = false;
      for (unsigned q = 0; q < reps; ++q) {
        prep(); zeroAttempts();
        if (k >= 1 && k <= 4) drawResourceFault(at, k < 3 ? RK_NEW : k == 3 ? RK_FI : RK_THREAD);
        else if (k == 5) { static const fs::OpKind kk[] = {fs::K_OPEN_W, fs::K_WRITE, fs::K_CLOSE_W, fs::K_OPEN_R, fs::K_READ}; fs::addRule(kk[ch(5)], (int64_t)ch(3), 1 << 30, EIO); }
        logf("past: op%d(%llu,%llu,%llu)%s", h.op, (unsigned long long)h.a, (unsigned long long)h.b, (unsigned long long)h.c, k == 0 || k > 5 ? "" : " with a fault");
        std::vector<Image> mine;
        try { doStep(h, nullptr, mine); }
        catch (const std::exception& e) { Harness hs; count(P_history_threw); logf("  threw %s", e.what()); }
        catch (const SoftViolation&) { count(P_history_failed); }
        if (resourceFired() || fs::hardFaults()) { nontrivial(); count(P_failed_op); fired = true; }
        prep();
        if (liveThreads()) { g_softViolate = false; violate("thread-left", "threads are still running"); }
        { Sut s; mine.clear(); }
        if (fired && own >= 0 && h.op != 1) {      // at once again, undisturbed
          uint64_t v = 0xbad;
          try { v = doStep(h, nullptr, mine); }
          catch (const std::exception& e) { Harness hs; v = 0xdead0000 + hashBytes(Bytes(e.what(), e.what() + strlen(e.what()))); }
          catch (const SoftViolation&) {}
          { Sut s; mine.clear(); }
          if (v != want[own]) { g_softViolate = false; violate("past-matters", "step %d (op %d) of the probe, repeated after it failed, gives a different result than in a fresh process", own, h.op); }
        }
      }
      prep();
    }
    advance(ch(3) * 86400000000000ull);
    unsigned cores = drawCores(); g_cores = cores;
    logf("probe again");
    probe(sc, got);
    g_softViolate = false;
    for (unsigned i = 0; i < n; ++i)
      if (got[i] != want[i]) violate("past-matters", "step %u (op %d) of the probe gives a different result after other operations than in a fresh process%s", i + 1, sc[i].op, got[i] == 0xbad ? ": it fails" : "");
    count(P_reference_checked);
  }
}

// ---- C03 ----------------------------------------------------------------------------------------
void runC03() {
  fs::reset();
  g_cores = drawCores(); count(F_cores_reported);
  drawSched();
  startSchedule();
  SpecOpt o; o.maxDim = 70; o.maxMips = 3;
  Spec s = drawSpec(o);
  uint64_t px = (uint64_t)s.w * s.h * std::max(s.depth, 1u) * specFaces(s);
  if (px > 9000) { s.depth = s.dim == Dim::Dim3D ? 1 : 0; if (s.dim == Dim::Cube) s.w = s.h = std::min(s.w, 40u); s.mips = std::min(s.mips, specMaxMips(s)); }
  unsigned threads = drawThreads();
  bool before = chance(1, 3);      // a previous successful conversion
  logf("convert %s with %u threads on %u cores%s", s.str().c_str(), threads, g_cores, before ? ", converted before" : "");
  Texture base, ref, dry, t;
  buildTexture(base, s);
  { Sut su; ref = base; if (!convertTexture(ref, s, 1)) { Harness h; violate("refused", "conversion refused: %s", s.str().c_str()); } }
  TexData want = texData(ref);
  { Sut su; t = base; }
  Spec prev = s;
  if (before) {
    drawFormat(prev);
    { Sut su; if (!convertTexture(t, prev, 1)) { Harness h; violate("refused", "conversion refused: %s", prev.str().c_str()); } }
    for (unsigned m = 0; m < s.mips; ++m) for (unsigned d = 0; d < specDepth(s, m); ++d) for (unsigned f = 0; f < specFaces(s); ++f) { Sut su; if (!t.setImage(base.getImage((Texture::CubeFace)f, m, d), (Texture::CubeFace)f, m, d)) { Harness h; violate("refused", "setImage refused after a conversion"); } }
  }
  { Sut su; dry = t; }
  zeroAttempts();
  bool ok;
  { Sut su; ok = convertTexture(dry, s, threads); }
  if (!ok) violate("refused", "rehearsal failed");
  Attempts at = attempts();
  { Sut su; dry.reset(); }
  for (int round = 0; round < 3; ++round) {
    zeroAttempts();
    int k = drawResourceFault(at, RK_THREAD | RK_NEW | RK_FI);
    if (!k) break;
    bool threw = false;
    ok = false;
    int64_t th0 = g_threadFired;
    try { Sut su; ok = convertTexture(t, s, threads); }
    catch (const std::exception& e) { threw = true; logf("conversion threw %s", e.what()); }
    int64_t started = g_threadAttempts - (g_threadFired - th0);
    bool fired = resourceFired();
    if (k & RK_THREAD && fired) count(started > 0 ? P_partial_thread_start : P_no_thread_started);
    clearResourceFaults();
    if (liveThreads()) violate("thread-left", "%d worker threads still exist after a conversion that %s", liveThreads(), threw ? "threw" : ok ? "succeeded" : "failed");
    if (fired) nontrivial();
    logf("conversion %s%s", threw ? "threw" : ok ? "succeeded" : "failed", fired ? "" : " (no fault fired)");
    if (!fired && !ok) violate("spurious-failure", "conversion failed although no fault occurred: %s", s.str().c_str());
    if (ok && !threw) {
      count(P_convert_ok);
      checkTexture(t, "after a conversion under faults", 1);
      if (t.format() != s.f || t.type() != s.t) violate("wrong-format", "conversion reports %s %s", fmtName(t.format()), typeName(t.type()));
      std::string d = firstDiff(texData(t), want);
      if (!d.empty()) violate("bytes-differ", "%s: a conversion that reported success while resources failed differs from the undisturbed one: %s", s.str().c_str(), d.c_str());
    } else {
      count(threw ? P_convert_threw : P_convert_failed);
      checkNotConverted(t, threw ? "after a conversion that threw" : "after a conversion that failed");
    }
    // resources are back: set the images and convert again
    for (unsigned m = 0; m < s.mips; ++m) for (unsigned d = 0; d < specDepth(s, m); ++d) for (unsigned f = 0; f < specFaces(s); ++f) { bool sok; { Sut su; sok = t.setImage(base.getImage((Texture::CubeFace)f, m, d), (Texture::CubeFace)f, m, d); } if (!sok) violate("refused", "setImage(face %u, level %u, slice %u) refused after a failed conversion", f, m, d); }
    bool again = round == 2 || chance(1, 2);
    if (again) {
      { Sut su; ok = convertTexture(t, s, threads); }
      if (!ok) violate("no-recovery", "converting again without faults fails: %s", s.str().c_str());
      std::string d = firstDiff(texData(t), want);
      if (!d.empty()) violate("bytes-differ", "%s: converting again after a failure differs: %s", s.str().c_str(), d.c_str());
      count(P_retry_ok);
      break;
    }
  }
}
