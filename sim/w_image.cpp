// C07, C08, C13: images from and to files, streams and memory, and image operations under failing memory.
#include "common.h"
#include <sys/resource.h>
#include <FreeImage.h>
#include <errno.h>
#include <fstream>
#include <sstream>

typedef Image::Format IF;
static const IF kAllIF[] = {IF::RGBA8, IF::RGB8, IF::Gray8, IF::RGBAF, IF::RGBF, IF::Float, IF::RGBA16, IF::RGB16, IF::Gray16, IF::RGB565, IF::RGB5, IF::Int16, IF::UInt16, IF::Int32, IF::UInt32, IF::Double, IF::Complex};
enum { NIF = sizeof kAllIF / sizeof *kAllIF };

// ---- corpus -------------------------------------------------------------------------------------
static std::vector<Enc>* g_corpus;
static std::vector<Enc>* g_small;           // without the files of more than a megabyte
const std::vector<Enc>& imageCorpus() { return *g_small; }
static void picture(Enc& e, FIBITMAP* b);
static void addEnc(FREE_IMAGE_FORMAT fif, FIBITMAP* b, int flags, const char* what) {
  FIMEMORY* m = FreeImage_OpenMemory();
  BYTE* p; DWORD n;
  if (FreeImage_SaveToMemory(fif, b, m, flags) && FreeImage_AcquireMemory(m, &p, &n) && n && n < 4000000) {
    const char* e = FreeImage_GetFIFExtensionList(fif);
    Enc x; x.ext = std::string(e ? e : "bin"); x.ext = x.ext.substr(0, x.ext.find(',')); x.what = std::string(FreeImage_GetFormatFromFIF(fif)) + " " + what; x.data.assign(p, p + n);
    FreeImage_SeekMemory(m, 0, SEEK_SET);
    bool known = FreeImage_GetFileTypeFromMemory(m) == fif;             // e.g. PFM is only recognised by its extension
    FreeImage_SeekMemory(m, 0, SEEK_SET);
    FIBITMAP* back = !known ? nullptr : FreeImage_LoadFromMemory(fif, m);
    // gray images of less than 8 bits have no image format to go to
    x.must = back && (FreeImage_GetBPP(back) >= 8 || FreeImage_GetColorType(back) == FIC_PALETTE);
    if (back && fif == FIF_TARGA && n > 44 && !memcmp(p + n - 18, "TRUEVISION-XFILE", 16)) {
      // the older version without a footer, whose files can be very short
      Enc v = x; v.what += " version 1"; v.data.resize(n - 26);
      FIMEMORY* mv = FreeImage_OpenMemory(v.data.data(), (DWORD)v.data.size());
      FIBITMAP* bv = FreeImage_GetFileTypeFromMemory(mv) == fif ? FreeImage_LoadFromMemory(fif, mv) : nullptr;
      if (bv) { picture(v, bv); FreeImage_Unload(bv); g_corpus->push_back(v); }
      FreeImage_CloseMemory(mv);
    }
    if (back) { picture(x, back); FreeImage_Unload(back); bool dup = false; for (auto& q : *g_corpus) if (q.data == x.data) dup = true; if (!dup) g_corpus->push_back(x); }
  }
  FreeImage_CloseMemory(m);
}
// The picture in a decoded file, row by row from the top; empty for kinds that have no colours of their own.
static void picture(Enc& e, FIBITMAP* b) {
  e.w = FreeImage_GetWidth(b); e.h = FreeImage_GetHeight(b);
  FREE_IMAGE_TYPE t = FreeImage_GetImageType(b); unsigned bpp = FreeImage_GetBPP(b);
  if (t == FIT_BITMAP && bpp < 8 && FreeImage_GetColorType(b) != FIC_PALETTE) return;
  BYTE* tr = FreeImage_GetTransparencyTable(b); unsigned ntr = FreeImage_IsTransparent(b) ? FreeImage_GetTransparencyCount(b) : 0;
  for (unsigned y = 0; y < e.h; ++y)
    for (unsigned x = 0; x < e.w; ++x) {
      unsigned fy = e.h - 1 - y; BYTE* line = FreeImage_GetScanLine(b, (int)fy);
      ColorRGBAd c{0, 0, 0, 1};
      if (t == FIT_BITMAP && bpp <= 8) {
        BYTE i = 0; FreeImage_GetPixelIndex(b, x, fy, &i);
        if (FreeImage_GetColorType(b) == FIC_PALETTE) { RGBQUAD q = FreeImage_GetPalette(b)[i]; c = {q.rgbRed / 255., q.rgbGreen / 255., q.rgbBlue / 255., i < ntr ? tr[i] / 255. : 1.}; }
        else c.r = c.g = c.b = i / 255.;
      } else if (t == FIT_BITMAP && bpp == 16) {
        unsigned v = ((uint16_t*)line)[x]; auto ch1 = [&](unsigned m) { unsigned s = 0; while (m && !(m >> s & 1)) ++s; return m ? (double)((v & m) >> s) / (m >> s) : 0; };
        c = {ch1(FreeImage_GetRedMask(b)), ch1(FreeImage_GetGreenMask(b)), ch1(FreeImage_GetBlueMask(b)), 1};
      } else if (t == FIT_BITMAP) { BYTE* p = line + x * (bpp / 8); c = {p[FI_RGBA_RED] / 255., p[FI_RGBA_GREEN] / 255., p[FI_RGBA_BLUE] / 255., bpp == 32 ? p[FI_RGBA_ALPHA] / 255. : 1}; }
      else if (t == FIT_UINT16) c.r = c.g = c.b = ((uint16_t*)line)[x] / 65535.;
      else if (t == FIT_RGB16) { uint16_t* p = (uint16_t*)line + x * 3; c = {p[0] / 65535., p[1] / 65535., p[2] / 65535., 1}; }
      else if (t == FIT_RGBA16) { uint16_t* p = (uint16_t*)line + x * 4; c = {p[0] / 65535., p[1] / 65535., p[2] / 65535., p[3] / 65535.}; }
      else if (t == FIT_RGBF) { float* p = (float*)line + x * 3; c = {p[0], p[1], p[2], 1}; }
      else if (t == FIT_RGBAF) { float* p = (float*)line + x * 4; c = {p[0], p[1], p[2], p[3]}; }
      else return;
      e.px.push_back(c);
    }
}
void prepareImages() {
  g_corpus = new std::vector<Enc>;
  FreeImage_Initialise(TRUE);
  struct K { FREE_IMAGE_TYPE t; int bpp; const char* n; unsigned r, g, b; };
  static const K kinds[] = {{FIT_BITMAP, 24, "RGB8"}, {FIT_BITMAP, 32, "RGBA8"}, {FIT_BITMAP, 8, "gray 8"}, {FIT_BITMAP, 8, "palette 8"}, {FIT_BITMAP, 8, "transparent palette 8"}, {FIT_BITMAP, 4, "palette 4"}, {FIT_BITMAP, 1, "palette 1"},
    {FIT_BITMAP, 16, "RGB565", FI16_565_RED_MASK, FI16_565_GREEN_MASK, FI16_565_BLUE_MASK}, {FIT_BITMAP, 16, "RGB555", FI16_555_RED_MASK, FI16_555_GREEN_MASK, FI16_555_BLUE_MASK},
    {FIT_UINT16, 16, "UINT16"}, {FIT_INT16, 16, "INT16"}, {FIT_UINT32, 32, "UINT32"}, {FIT_INT32, 32, "INT32"}, {FIT_FLOAT, 32, "FLOAT"}, {FIT_DOUBLE, 64, "DOUBLE"}, {FIT_COMPLEX, 128, "COMPLEX"}, {FIT_RGB16, 48, "RGB16"}, {FIT_RGBA16, 64, "RGBA16"}, {FIT_RGBF, 96, "RGBF"}, {FIT_RGBAF, 128, "RGBAF"}};
  static const int sizes[][2] = {{5, 4}, {37, 21}, {1, 1}, {100, 90}, {331, 250}};
  Rng r(12345);
  size_t small = 0;
  for (auto& sz : sizes) {
    if (sz[0] > 300) small = g_corpus->size();
    for (auto& k : kinds) {
      bool large = sz[0] > 300;                                       // more than a megabyte: only some kinds
      if (large && strcmp(k.n, "RGB8") && strcmp(k.n, "RGBAF") && strcmp(k.n, "RGBA16")) continue;
      FIBITMAP* b = FreeImage_AllocateT(k.t, sz[0], sz[1], k.bpp, k.r, k.g, k.b);
      if (!b) continue;
      if (k.t == FIT_BITMAP && k.bpp <= 8) {
        RGBQUAD* pal = FreeImage_GetPalette(b); unsigned n = FreeImage_GetColorsUsed(b);
        bool gray = !strcmp(k.n, "gray 8");
        for (unsigned i = 0; i < n; ++i) { pal[i].rgbRed = gray ? i : (BYTE)r.next(); pal[i].rgbGreen = gray ? i : (BYTE)r.next(); pal[i].rgbBlue = gray ? i : (BYTE)r.next(); pal[i].rgbReserved = 0; }
        if (!strcmp(k.n, "transparent palette 8")) { BYTE tr[256]; for (auto& t : tr) t = (BYTE)r.next(); FreeImage_SetTransparencyTable(b, tr, 256); }
      }
      for (int y = 0; y < sz[1]; ++y) {
        BYTE* p = FreeImage_GetScanLine(b, y); unsigned n = FreeImage_GetLine(b);
        if (k.t == FIT_FLOAT || k.t == FIT_RGBF || k.t == FIT_RGBAF) for (unsigned i = 0; i < n / 4; ++i) ((float*)p)[i] = (float)(r.next() & 1023) / 1023.f;
        else if (k.t == FIT_DOUBLE || k.t == FIT_COMPLEX) for (unsigned i = 0; i < n / 8; ++i) ((double*)p)[i] = (double)(r.next() & 1023) / 1023.;
        else for (unsigned i = 0; i < n; ++i) p[i] = (BYTE)((r.next() & 3) ? i * 3 + y : r.next());
      }
      for (int f = 0; f < FreeImage_GetFIFCount(); ++f) {
        FREE_IMAGE_FORMAT fif = (FREE_IMAGE_FORMAT)f;
        if (!FreeImage_FIFSupportsWriting(fif) || !FreeImage_FIFSupportsReading(fif)) continue;
        if (!(k.t == FIT_BITMAP ? FreeImage_FIFSupportsExportBPP(fif, k.bpp) : FreeImage_FIFSupportsExportType(fif, k.t))) continue;
        if (fif == FIF_JXR || fif == FIF_WEBP || fif == FIF_PSD) continue;       // these encoders read or write stray memory
        if (large && fif != FIF_TIFF && fif != FIF_BMP && fif != FIF_PNG && fif != FIF_TARGA) continue;
        std::string w = fmtStr("%s %dx%d", k.n, sz[0], sz[1]);
        if (large) { addEnc(fif, b, fif == FIF_TIFF ? TIFF_NONE : 0, w.c_str()); continue; }
        addEnc(fif, b, 0, w.c_str());
        if (fif == FIF_TIFF) { addEnc(fif, b, TIFF_NONE, (w + " plain").c_str()); addEnc(fif, b, TIFF_DEFLATE, (w + " deflate").c_str()); addEnc(fif, b, TIFF_PACKBITS, (w + " packbits").c_str()); }
        if (fif == FIF_PNG) addEnc(fif, b, PNG_INTERLACED, (w + " interlaced").c_str());
        if (fif == FIF_TARGA) addEnc(fif, b, TARGA_SAVE_RLE, (w + " rle").c_str());
        if (fif == FIF_BMP) addEnc(fif, b, BMP_SAVE_RLE, (w + " rle").c_str());
        if (fif == FIF_JPEG) addEnc(fif, b, JPEG_PROGRESSIVE, (w + " progressive").c_str());
      }
      FreeImage_Unload(b);
    }
  }
  g_small = new std::vector<Enc>(g_corpus->begin(), g_corpus->begin() + (ptrdiff_t)small);
  if (getenv("SIM_VERBOSE")) { std::map<std::string, int> n; for (auto& e : *g_corpus) ++n[e.ext]; for (auto& e : n) fprintf(stderr, "%s:%d ", e.first.c_str(), e.second); fprintf(stderr, "\n"); }
}
static Bytes garbage(const Enc& e) {
  Bytes b = e.data;
  switch (ch(3)) {
    case 0: b.assign(ch(200), 0); break;                             // nothing known
    case 1: b.assign(1 + ch(200), 0); for (auto& c : b) c = (uint8_t)(33 + ch(60)); b[0] = '~'; break;
    default: b.clear();
  }
  return b;
}
struct Outcome { bool ok = false, threw = false; uint64_t hash = 0; std::string desc; };
static Outcome seen(const Image& img, bool ok, bool threw) {
  Outcome o; o.ok = ok; o.threw = threw;
  if (!threw && ok != img.isValid()) violate("load-result", "load returned %d but the image is %svalid", ok, img.isValid() ? "" : "in");
  if (threw && img.isValid()) violate("load-result", "load threw but the image is valid");
  checkImage(img, "after a load");
  o.hash = imgHash(img); o.desc = imgDesc(img);
  return o;
}
static void expectSame(const Outcome& a, const Outcome& want, const char* how, const std::string& what) {
  if (a.ok != want.ok || a.hash != want.hash) violate("load-differs", "%s: loading %s gives %s, from memory %s%s", what.c_str(), how, a.desc.c_str(), want.desc.c_str(), a.ok && want.ok && a.desc == want.desc ? " with other pixels" : "");
}
static std::ios_base::iostate drawExceptions() {
  using S = std::ios_base;
  static const S::iostate m[] = {S::goodbit, S::failbit | S::badbit, S::failbit | S::badbit | S::eofbit, S::badbit};
  S::iostate e = chance(1, 3) ? m[ch(4)] : S::goodbit;
  if (e) { count(P_stream_exceptions); logf("the stream throws exceptions (%d)", (int)e); }
  return e;
}
void runC07() {
  fs::reset(); fs::makeDir("/sim/in");
  const Enc& e = (*g_corpus)[ch(g_corpus->size())];
  Bytes data = e.data; std::string what = e.what;
  bool bad = chance(1, 12);
  bool exr = e.ext == "exr" || e.ext == "gif" || e.ext == "tga" || e.ext == "jng" ||  // these readers take what a short read leaves in their buffers for data; JNG's may never return
    (e.ext == "bmp" && e.data.size() > 30 && e.data[30] == 3);                 // as does BMP's for channel masks
  if (bad) { data = garbage(e); what = "unknown data"; }
  ColorSpace cs = chance(1, 3) ? ColorSpace::sRGB : ColorSpace::Linear;
  logf("%s, %zu bytes", what.c_str(), data.size());
  Outcome want;
  { Image m; bool ok; { Sut s; ok = m.load(data.data(), data.size(), cs); } want = seen(m, ok, false); }
  if (!bad && e.must && !want.ok) violate("refused", "%s cannot be loaded from memory", what.c_str());
  if (bad && want.ok) violate("load-result", "unknown data loaded as %s", want.desc.c_str());
  if (want.ok) { Image m; Sut s; m.load(data.data(), data.size(), cs); if (m.colorSpace() != cs) { Harness h; violate("load-result", "the loaded image has the wrong colour space"); } }
  if (want.ok && !bad && e.px.size() && chance(1, 3)) {  // the picture that is in the file
    Image m; { Sut s; m.load(data.data(), data.size(), cs); }
    if (m.width() != e.w || m.height() != e.h) violate("wrong-picture", "%s loads as %s", what.c_str(), want.desc.c_str());
    for (unsigned y = 0; y < e.h; ++y)
      for (unsigned x = 0; x < e.w; ++x) {
        ColorRGBAd c{}; const ColorRGBAd& q = e.px[(size_t)y * e.w + x]; bool ok; { Sut s; ok = m.getPixel(c, x, y); }
        auto near = [](double a, double b) { return std::abs(a - b) < 1e-6 || a == b || (a != a && b != b); };
        if (!ok || !near(c.r, q.r) || !near(c.g, q.g) || !near(c.b, q.b) || !near(c.a, q.a)) violate("wrong-picture", "%s: pixel %u, %u is loaded as %g %g %g %g instead of %g %g %g %g", what.c_str(), x, y, c.r, c.g, c.b, c.a, q.r, q.g, q.b, q.a);
      }
  }
  unsigned rounds = 1 + (unsigned)ch(4);
  for (unsigned r = 0; r < rounds; ++r) {
    Image img;
    bool before = chance(1, 2);
    if (before) img = mkImage(IF::RGB8, 3, 3, ColorSpace::Linear, 9);
    bool ok = false, threw = false;
    int src = (int)ch(6);
    nontrivial();
    if (src == 0) {                       // file, possibly with read faults
      // what the file is called says nothing about what is in it
      std::string name = "/sim/in/a." + e.ext;
      if (chance(1, 3)) switch (ch(4)) { case 0: name = "/sim/in/a.dat"; break; case 1: name = "/sim/in/a." + (*g_corpus)[ch(g_corpus->size())].ext; break; case 2: name = "/sim/in/a"; break; default: for (char& c : name) if (name.find_last_of('.') < (size_t)(&c - &name[0])) c = (char)toupper(c); }
      fs::putFile(name, data);
      fs::clearFaults(); fs::clearOps();
      Bytes part; int64_t failing = -1; bool mayFail = false;
      Outcome w = want;
      switch (ch(exr ? 2 : 5)) {
        case 0: break;
        case 1: for (unsigned i = 0, n = 1 + (unsigned)ch(4); i < n; ++i) fs::addRule(fs::K_READ, (int64_t)ch(6), 1 + (int64_t)ch(3), 0, ch(5000)); logf("fault: short reads"); break;
        case 2: failing = (int64_t)ch(4); fs::addRule(fs::K_READ, failing, chance(1, 2) ? 1 : 1 << 30, EIO); mayFail = true; logf("fault: read %lld fails", (long long)failing); break;
        case 3: { size_t n = (size_t)ch(data.size() + 1); part.assign(data.begin(), data.begin() + n); fs::putFile(name, part); count(F_file_truncated); logf("fault: the file has only %zu bytes", n); mayFail = true; break; }
        default: fs::addRule(fs::K_OPEN_R, (int64_t)ch(2), 1, chance(1, 2) ? EACCES : EMFILE); mayFail = true; logf("fault: open fails"); break;
      }
      try { Sut s; ok = img.load(name.c_str(), cs); } catch (const std::exception& ex) { threw = true; logf("threw %s", ex.what()); }
      bool fired = fs::hardFaults() > 0;
      fs::clearFaults();
      Outcome o = seen(img, ok, threw);
      if (threw) violate("threw", "loading a file threw");
      logf("file: %s", o.desc.c_str());
      if (!mayFail || (!fired && part.empty() && failing >= 0)) expectSame(o, want, "from a file", what);
      else {
        // data that could not be read must not pass for the image
        if (o.ok && part.empty() && data.size()) expectSame(o, want, "from a file that fails to be read", what);
        count(o.ok ? P_load_ok : P_load_failed);
      }
      if (fs::openFds()) violate("fd-left", "a file is still open after a load");
      (void)w;
    } else if (src == 1) {                // memory at another place, exactly as long
      uint8_t* p = (uint8_t*)malloc(data.size() + 3);
      size_t off = ch(3);
      memcpy(p + off, data.data(), data.size());
      { Sut s; ok = img.load(p + off, data.size(), cs); }
      Outcome o = seen(img, ok, false);
      memset(p, 0xAB, data.size() + 3);
      uint64_t h2 = imgHash(img); if (h2 != o.hash) violate("load-result", "the image changed with the memory it was loaded from");
      free(p);
      expectSame(o, want, "from other memory", what);
      Bytes part(data.begin(), data.begin() + ch(data.size() + 1)); if (exr) part.clear();
      bool ok2 = false; { Sut s; ok2 = img.load(part.data(), part.size(), cs); }
      Outcome o2 = seen(img, ok2, false); count(F_source_truncated);
      logf("memory: %s, first %zu bytes: %s", o.desc.c_str(), part.size(), o2.desc.c_str());
      count(o2.ok ? P_load_ok : P_load_failed);
    } else if (src == 2) {                // standard streams
      std::ios_base::iostate exc = drawExceptions();
      bool file = chance(1, 2);
      auto load = [&](std::istream& st) {
        if (exc) st.exceptions(exc);
        try { Sut s; ok = img.load(st, cs); } catch (const std::exception& ex) { violate("threw", "loading a readable stream with exceptions enabled threw %s", ex.what()); }
        if (st.exceptions() != exc) violate("stream-changed", "loading changed which exceptions a stream throws");
      };
      size_t at = chance(1, 3) ? (size_t)ch(300) : 0;   // the picture may start in the middle of the stream
      if (file) {
        Bytes whole(at, 0x55); whole.insert(whole.end(), data.begin(), data.end());
        fs::putFile("/sim/in/s", whole);
        if (chance(1, 2)) for (unsigned i = 0; i < 3; ++i) fs::addRule(fs::K_READ, (int64_t)ch(6), 1 + (int64_t)ch(3), chance(1, 2) ? EINTR : 0, ch(5000));
        std::unique_ptr<std::ifstream> f;
        { Sut s; f.reset(new std::ifstream("/sim/in/s", std::ios::binary)); if (at) { if (at & 1) f->seekg((std::streamoff)at); else f->ignore((std::streamsize)at); } }
        load(*f);
        Sut s; f.reset();
      } else { std::string whole(at, 'U'); whole.append(data.begin(), data.end()); std::istringstream st(whole, std::ios::binary); st.seekg((std::streamoff)at); load(st); }
      fs::clearFaults();
      Outcome o = seen(img, ok, false);
      logf("%s stream at %zu: %s", file ? "file" : "string", at, o.desc.c_str());
      expectSame(o, want, file ? "from a file stream" : "from a string stream", what);
    } else {                              // custom streams
      SourceBuf b; std::istream st(&b);
      b.data = data; b.seekable = src != 5; b.chunk = chance(1, 4) ? 1 : 1 + (size_t)ch(500);
      size_t prefix = 0;
      if (!b.seekable) count(F_source_nonseekable);
      prefix = chance(1, 3) ? (size_t)ch(30) : 0; b.data.insert(b.data.begin(), prefix, 0x77);
      count(F_source_chunked);
      bool fail = !exr && chance(2, 5), mode1 = false;
      if (fail) { b.failAt = (int64_t)(prefix + ch(data.size() + 1)); mode1 = chance(1, 2); b.failMode = mode1 ? 1 : 0; logf("fault: the stream %s after %lld of %zu bytes", mode1 ? "throws" : "ends", (long long)b.failAt - (long long)prefix, data.size()); }
      for (size_t i = 0; i < prefix; ++i) st.get();
      std::ios_base::iostate exc = drawExceptions();
      st.exceptions(exc);
      try { Sut s; ok = img.load(st, cs); } catch (const std::exception& ex) { threw = true; logf("threw %s", ex.what()); }
      Outcome o = seen(img, ok, threw);
      if (threw && !(exc && b.failed)) violate("threw", "loading a stream threw although %s", exc ? "all of it can be read" : "its exceptions are off");
      if (st.exceptions() != exc) violate("stream-changed", "loading changed which exceptions a stream throws");
      logf("%sseekable stream at %zu in pieces of %zu: %s", b.seekable ? "" : "non-", prefix, b.chunk, o.desc.c_str());
      if (!b.failed) expectSame(o, want, b.seekable ? "from a seekable stream" : "from a stream that cannot seek", what);
      else {
        count(o.ok ? P_load_ok : P_load_failed);
        if (mode1 && o.ok) expectSame(o, want, "from a stream that fails to be read", what);
        if (!mode1 && !b.seekable) {      // the same as the shorter data in memory
          Image m; bool k; size_t n = (size_t)b.failAt - prefix; { Sut s; k = m.load(data.data(), n, cs); }
          Outcome w2 = seen(m, k, false);
          expectSame(o, w2, fmtStr("the first %zu bytes from a stream that cannot seek", n).c_str(), what);
        }
      }
    }
    // a second load into the same image works and replaces it
    if (chance(1, 2)) {
      { Sut s; ok = img.load(data.data(), data.size(), cs); }
      Outcome o = seen(img, ok, false);
      expectSame(o, want, "again", what);
      count(P_retry_ok);
    }
  }
  // things that are not files
  if (chance(1, 6)) {
    Image img = mkImage(IF::RGB8, 2, 2, ColorSpace::Linear, 3); bool ok;
    static const char* names[] = {"/sim/in/none.png", "/sim/in", "/sim/none/x.png", ""};
    const char* n = names[ch(4)];
    { Sut s; ok = img.load(n, cs); }
    if (ok || img.isValid()) violate("load-result", "loading '%s' gives %s", n, imgDesc(img).c_str());
    if (fs::openFds()) violate("fd-left", "a file is still open after a failed load");
  }
}

// Loads and saves with failing allocations and image library calls; only what they leave behind matters (C14).
void runLoadFaults() {
  fs::reset(); fs::makeDir("/sim/in");
  const Enc& e = (*g_small)[ch(g_small->size())];
  std::string name = "/sim/in/a." + e.ext;
  fs::putFile(name, e.data);
  logf("%s", e.what.c_str());
  auto act = [&](int how) {
    Sut s;
    Image img(IF::RGB8, 2, 2);
    bool ok = false;
    switch (how) {
      case 0: ok = img.load(name.c_str()); break;
      case 1: ok = img.load(e.data.data(), e.data.size()); break;
      case 2: { std::istringstream st(std::string(e.data.begin(), e.data.end())); ok = img.load(st); break; }
      case 3: { SourceBuf b; b.data = e.data; b.seekable = false; std::istream st(&b); ok = img.load(st); break; }
      default: { std::ifstream st(name, std::ios::binary); ok = img.load(st); break; }
    }
    if (!ok) return;
    Image c(img), d;
    d = img.convert(IF::RGBA16); c = d;
    Bytes out; c.save(out, "png"); img.save("/sim/in/o.tif");
    std::ostringstream os; img.save(os, "bmp");
  };
  for (unsigned r = 0, n = 1 + (unsigned)ch(3); r < n; ++r) {
    int how = (int)ch(5);
    zeroAttempts(); act(how); Attempts at = attempts(); zeroAttempts();
    if (at.nw > 12 && chance(1, 2)) at.nw = 12;       // the load itself
    drawResourceFault(at, RK_NEW | RK_FI);
    try { act(how); } catch (const std::exception& ex) { t_sut = 0; logf("threw %s", ex.what()); }
    clearResourceFaults();
  }
}

// Damaged files of every kind, and whatever comes out of them through the rest of the library; only memory matters (C21).
void runCorrupt() {
  fs::reset(); fs::makeDir("/sim/in");
  g_fiLimit = 48u << 20; g_damagedInput = true;
  struct rlimit rl{5, 10}; setrlimit(RLIMIT_CPU, &rl);       // decoders that never finish are not our business
  const Enc* pe = &(*g_small)[ch(g_small->size())];
  if (pe->ext == "exr") pe = &(*g_small)[0];                  // OpenEXR takes gigabytes and minutes before it gives up
  const Enc& e = *pe;
  Bytes d = e.data;
  unsigned n = 1 + (unsigned)ch(6);
  for (unsigned i = 0; i < n && !d.empty(); ++i) {
    size_t at = chance(2, 3) ? ch(std::min<size_t>(d.size(), 80)) : ch(d.size());
    switch (ch(6)) {
      case 0: d[at] ^= (uint8_t)(1u << ch(8)); break;
      case 1: d[at] = (uint8_t)ch(256); break;
      case 2: d[at] = chance(1, 2) ? 0 : 0xFF; break;
      case 3: d.erase(d.begin() + (ptrdiff_t)at, d.begin() + (ptrdiff_t)std::min(d.size(), at + 1 + (size_t)ch(8))); break;
      case 4: d.insert(d.begin() + (ptrdiff_t)at, 1 + (size_t)ch(8), (uint8_t)ch(256)); break;
      default: if (chance(1, 3)) d.resize(at); else d[at] = (uint8_t)(d[at] + 1); break;
    }
  }
  count(P_source_corrupt); nontrivial();
  logf("%s with %u damages, %zu bytes", e.what.c_str(), n, d.size());
  std::string name = "/sim/in/a." + e.ext;
  fs::putFile(name, d);
  int how = (int)ch(4), then = (int)ch(6);
  uint64_t a = ch(1000), b = ch(1000);
  Image img; bool ok = false;
  try {
    Sut s;
    switch (how) {
      case 0: ok = img.load(name.c_str()); break;
      case 1: ok = img.load(d.data(), d.size()); break;
      case 2: { std::istringstream st(std::string(d.begin(), d.end())); ok = img.load(st); break; }
      default: { SourceBuf sb; sb.data = d; sb.seekable = false; sb.chunk = 100; std::istream st(&sb); ok = img.load(st); break; }
    }
  } catch (const std::exception& ex) { logf("threw %s", ex.what()); return; }
  logf("%s", ok ? imgDesc(img).c_str() : "not loaded");
  count(ok ? P_load_ok : P_load_failed);
  if (!ok || (uint64_t)img.width() * img.height() > 40000) return;
  try {
    Sut s;
    unsigned w = img.width(), h = img.height();
    ColorRGBAd c{}; img.getPixel(c, w - 1, h - 1); img.getPixel(c, w, h - 1); img.getPixel(c, w - 1, h); img.setPixel(w, h - 1, c); img.setPixel(0, h, c); img.setPixel(0, h - 1, c); img.setPixel(w - 1, 0, c);
    switch (then) {
      case 0: { static const IF f[] = {IF::Gray8, IF::Gray16, IF::RGB5, IF::RGB565, IF::RGB8, IF::RGB16, IF::RGBF, IF::RGBA8, IF::RGBA16, IF::RGBAF, IF::Int16, IF::Int32, IF::Float, IF::Double, IF::Complex};
        Image o = img.convert(f[a % 15]); Image q = o.rotate((Image::RotateAngle)(b % 6)); break; }
      case 1: { Image o = img.resize(1 + a % 100, 1 + b % 100, (Image::ResizeFilter)(a % 5)); o.flipHorizontal(); o.flipVertical(); break; }
      case 2: { img.changeColorSpace(ColorSpace::sRGB); img.preMultiplyAlpha(); img.grayscale(); img.swizzle(Image::Channel::Alpha, Image::Channel::None, Image::Channel::Red, Image::Channel::Green); break; }
      case 3: { Image o = img.createNormalMap((Image::NormalOptions)(a % 8), 1.0); Image q = o; q = img; img = std::move(o); break; }
      case 4: { static const char* ex[] = {"png", "tga", "bmp", "tif", "jpg", "hdr"}; Bytes v; if (img.save(v, ex[a % 6])) { Image o; o.load(v.data(), v.size()); } break; }
      default: { Texture t; if (t.initialize(Dim::Dim2D, w, h, 0, 1, img.colorSpace()) && t.setImage(img)) { t.generateMipmaps(); if (t.convert((Texture::Format)(1 + a % 28), (Texture::Type)(b % 6), Texture::Quality::Lowest, Texture::Alpha::Standard, Texture::ColorMask(), 2)) { Bytes v; t.save(v, Texture::FileType::KTX); } } break; }
    }
  } catch (const std::exception& ex) { logf("threw %s", ex.what()); }
  Sut s; img.reset();
}

// ---- C08 ----------------------------------------------------------------------------------------
bool drawFileFault(int64_t writes, int64_t size);
struct Lossless { const char* ext; IF f; bool must; };
static const Lossless kLossless[] = {
  {"png", IF::RGBA8, true}, {"png", IF::RGB8, true}, {"png", IF::Gray8, true}, {"png", IF::Gray16, true}, {"png", IF::RGB16, true}, {"png", IF::RGBA16, true},
  {"bmp", IF::RGB8, true}, {"bmp", IF::RGBA8, true}, {"tga", IF::RGB8, true}, {"tga", IF::RGBA8, true},
  {"tif", IF::RGB8, true}, {"tif", IF::RGBA8, true}, {"tif", IF::Gray16, true}, {"tif", IF::RGB16, true}, {"tif", IF::RGBA16, true}, {"tif", IF::Float, true}, {"tif", IF::RGBF, true}, {"tif", IF::RGBAF, true}, {"tif", IF::Double, true}, {"tif", IF::Int32, true}, {"tif", IF::UInt32, true}, {"tif", IF::Int16, true}, {"tiff", IF::Gray8, true},
  {"pfm", IF::Float, true}, {"pfm", IF::RGBF, true}, {"ppm", IF::RGB8, true}, {"pgm", IF::Gray8, true},
};
static std::string samePixels(const Image& a, const Image& b) {
  Sut s;
  if (a.width() != b.width() || a.height() != b.height()) return fmtStr("%ux%u instead of %ux%u", a.width(), a.height(), b.width(), b.height());
  for (unsigned y = 0; y < a.height(); ++y) for (unsigned x = 0; x < a.width(); ++x) {
    ColorRGBAd p{}, q{};
    if (!a.getPixel(p, x, y) || !b.getPixel(q, x, y)) return "a pixel cannot be read";
    if (memcmp(&p, &q, sizeof p)) return fmtStr("pixel %u,%u is (%g %g %g %g) instead of (%g %g %g %g)", x, y, p.r, p.g, p.b, p.a, q.r, q.g, q.b, q.a);
  }
  return "";
}
void runC08() {
  fs::reset(); fs::makeDir("/sim/out");
  bool lossless = chance(3, 4);
  std::string ext; IF f; 
  if (lossless) { const Lossless& l = kLossless[ch(sizeof kLossless / sizeof *kLossless)]; ext = l.ext; f = l.f; }
  else { static const char* e[] = {"jpg", "png", "tif", "bmp", "tga", "exr", "hdr", "jp2", "gif", "pbm", "j2k", "xpm", "wbmp", "ico"}; ext = e[ch(14)]; f = kAllIF[ch(NIF)]; }
  unsigned w = 1 + (unsigned)chLog(ext == "tif" ? 90 : 60), h = 1 + (unsigned)chLog(60);
  Image img = mkImage(f, w, h, chance(1, 3) ? ColorSpace::sRGB : ColorSpace::Linear, 1 + ch(1000));
  if (!img.isValid()) violate("refused", "initialize refused");
  uint64_t ih = imgHash(img);
  logf("%s as %s", imgDesc(img).c_str(), ext.c_str());
  if (chance(1, 4)) for (auto& c : ext) c = (char)toupper(c);
  Bytes ref; bool can;
  zeroAttempts();
  { Sut s; can = img.save(ref, ext.c_str()); }
  Attempts at = attempts();
  if (!can && lossless) violate("refused", "%s cannot be saved as %s", imgDesc(img).c_str(), ext.c_str());
  if (can) {
    nontrivial();
    Image back; bool ok; { Sut s; ok = back.load(ref.data(), ref.size()); }
    if (!ok) violate("not-loadable", "%s saved as %s to a vector cannot be loaded again (%zu bytes)", imgDesc(img).c_str(), ext.c_str(), ref.size());
    if (back.width() != w || back.height() != h) violate("not-loadable", "%s saved as %s comes back as %s", imgDesc(img).c_str(), ext.c_str(), imgDesc(back).c_str());
    if (lossless) { std::string d = samePixels(back, img); if (!d.empty()) violate("not-loadable", "%s saved as %s and loaded again: %s", imgDesc(img).c_str(), ext.c_str(), d.c_str()); }
    count(P_reload_ok);
  } else if (!ref.empty()) violate("destination-touched", "a refused save filled the vector");
  unsigned rounds = 1 + (unsigned)ch(3);
  for (unsigned round = 0; round < rounds; ++round) {
    bool r = false, threw = false, mayFail = false;
    Bytes got;
    switch (ch(4)) {
      case 0: case 1: {
        static const char* stem[] = {"out", "a.b", "x y", "o.dds", "\xc3\xa4"};
        std::string name = std::string("/sim/out/") + stem[ch(5)] + "." + ext;
        if (chance(1, 2)) { static const size_t n[] = {0, 20, 300000}; fs::putFile(name, Bytes(n[ch(3)], 0xEE)); }
        fs::clearFaults(); fs::clearOps();
        { Sut s; r = img.save("/sim/out/rehearsal"); }
        if (r) violate("load-result", "saved without an extension");
        std::string reh = "/sim/out/rehearsal." + ext;
        { Sut s; r = img.save(reh.c_str()); }
        Bytes g2; fs::readFile(reh, g2);
        if (r != can || (can && g2 != ref)) violate("sinks-differ", "%s as %s: saving to a file gives %d, %s", imgDesc(img).c_str(), ext.c_str(), r, firstDiff(g2, ref).c_str());
        int64_t writes = 0; for (auto& o : fs::ops()) if (o.kind == fs::K_WRITE) ++writes;
        fs::clearFaults(); fs::clearOps();
        if (!can) break;
        mayFail = drawFileFault(writes, (int64_t)ref.size());
        if (chance(1, 8)) { fs::addRule(fs::K_LSEEK, (int64_t)ch(3), 1, EIO); mayFail = true; }
        try { Sut s; r = img.save(name.c_str()); } catch (const std::exception& e) { threw = true; }
        int64_t hard = fs::hardFaults();
        bool atClose = false; for (auto& o : fs::ops()) if (o.kind == fs::K_CLOSE_W && o.injected) atClose = true;
        fs::clearFaults();
        bool there = fs::readFile(name, got);
        logf("save to %s: %s, %lld hard faults", name.c_str(), threw ? "threw" : r ? "true" : "false", (long long)hard);
        if (hard && !mayFail) violate("harness", "soft fault counted as hard");
        if (threw) violate("threw", "saving to a file threw");
        if (r && (!there || got != ref)) violate("false-success", "%s as %s: saving to a file returned true but the file %s", imgDesc(img).c_str(), ext.c_str(), there ? firstDiff(got, ref).c_str() : "does not exist");
        if (!r && !hard) violate("false-failure", "saving to a file failed although no call that it depends on failed");
        count(r ? P_save_ok : P_save_write_error);
        if (!r && !atClose) count(P_fault_in_data);
        if (fs::openFds()) violate("fd-left", "a file is still open after a save");
        // again without faults, and load it from there
        { Sut s; r = img.save(name.c_str()); }
        got.clear(); fs::readFile(name, got);
        if (!r || got != ref) violate("no-recovery", "saving again gives %d, %s", r, firstDiff(got, ref).c_str());
        Image back; bool ok; { Sut s; ok = back.load(name.c_str()); }
        if (!ok || back.width() != w || back.height() != h) violate("not-loadable", "%s saved as %s to a file comes back as %s", imgDesc(img).c_str(), ext.c_str(), imgDesc(back).c_str());
        count(P_retry_ok);
        break;
      }
      case 2: {
        SinkBuf b; std::ostream os(&b);
        b.seekable = chance(1, 2); b.mode = (int)ch(5); b.chunk = 1 + (size_t)ch(300); if (b.mode == 3) b.setBuffered();
        int64_t size = (int64_t)ref.size(); bool badEntry = false;
        size_t prefix = chance(1, 3) ? (size_t)ch(40) : 0; b.data.assign(prefix, 0x31); b.base = b.pos = prefix;
        if (can) switch (ch(4)) {
          case 0: if (b.mode != 3) b.limit = (int64_t)ch(size); break;
          case 1: if (b.mode != 3) b.limit = size - 1 - (int64_t)ch(std::min<int64_t>(size, 6)); break;
          case 2: badEntry = true; os.setstate(chance(1, 2) ? std::ios::badbit : std::ios::failbit); count(F_sink_bad_on_entry); break;
          default: break;
        }
        if (b.limit >= 0) logf("fault: the stream refuses everything after %lld of %lld bytes (mode %d)", (long long)b.limit, (long long)size, b.mode);
        std::ios_base::iostate exc = badEntry ? std::ios_base::goodbit : drawExceptions();
        os.exceptions(exc);
        try { Sut s; r = img.save(os, ext.c_str()); } catch (const std::exception& e) { threw = true; }
        if (os.exceptions() != exc) violate("stream-changed", "saving changed which exceptions a stream throws");
        b.flushBuf();
        logf("stream: %s", threw ? "threw" : r ? "true" : "false");
        if (threw && !(exc && b.refused)) violate("threw", "saving to a stream threw although %s", exc ? "it accepted everything" : "its exceptions are off");
        if (!threw && !b.refused && !badEntry && !os.good()) violate("stream-changed", "a stream that accepted everything is not good after a save");
        Bytes exp(prefix, 0x31); exp.insert(exp.end(), ref.begin(), ref.end());
        if (r && (!can || b.data != exp)) violate("false-success", "%s as %s: saving to a stream returned true but it received %s", imgDesc(img).c_str(), ext.c_str(), firstDiff(b.data, exp).c_str());
        if (!r && can && !b.refused && !badEntry) violate("false-failure", "saving %s as %s to a %sseekable stream failed although it accepted everything", imgDesc(img).c_str(), ext.c_str(), b.seekable ? "" : "non-");
        count(r ? P_save_ok : P_save_write_error);
        break;
      }
      default: {
        Bytes v(ch(3) * 100000, 0x44);
        zeroAttempts();
        if (chance(3, 4)) drawResourceFault(at, RK_NEW | RK_FI);
        try { Sut s; r = img.save(v, ext.c_str()); } catch (const std::bad_alloc&) { threw = true; }
        bool fired = resourceFired(); clearResourceFaults();
        logf("vector: %s", threw ? "threw" : r ? "true" : "false");
        if (!threw && r && (!can || v != ref)) violate("false-success", "%s as %s: saving to a vector returned true but it holds %s", imgDesc(img).c_str(), ext.c_str(), firstDiff(v, ref).c_str());
        if ((threw || !r) && can && !fired) violate("false-failure", "saving to a vector failed without a fault");
        count(!threw && r ? P_save_ok : P_save_write_error);
        break;
      }
    }
    if (imgHash(img) != ih) violate("object-changed", "saving changed the image");
  }
}

// ---- C13 ----------------------------------------------------------------------------------------
struct Op13 { int op; unsigned a, b; uint64_t x, y, z; };
static const char* opName13[] = {"initialize", "copy-construct", "copy-assign", "move-assign", "self-assign", "reset", "load", "convert", "resize", "rotate", "flip-h", "flip-v", "premultiply", "colour-space", "grayscale", "swizzle", "normal-map", "set-pixel", "save", "swap", "chain"};
enum { NOPS13 = 21 };
static IF fmt13(uint64_t x) { return x >= 975 ? IF::Invalid : kAllIF[x % NIF]; }
static unsigned dim13(uint64_t x, unsigned n) { return x >= 835 && x < 850 ? 0 : 1 + (unsigned)(x % n); }
struct Ret { int ok = -1; uint64_t extra = 0; };
static Ret apply13(const Op13& o, std::vector<Image>& v) {
  Image &A = v[o.a], &B = v[o.b];
  Ret r;
  Sut s;
  switch (o.op) {
    case 0: if ((o.x & 128) && B.isValid()) { r.ok = A.initialize(B.format(), B.width(), B.height(), o.x & 64 ? ColorSpace::sRGB : ColorSpace::Linear); if (r.ok) { Harness h; fillPixels(A, o.y * 7 + o.z); } break; }
      r.ok = A.initialize(fmt13(o.x), dim13(o.y, 40), dim13(o.z, 40), o.x & 64 ? ColorSpace::sRGB : ColorSpace::Linear); if (r.ok) { Harness h; fillPixels(A, o.y * 7 + o.z); } break;
    case 1: { Image c(B); A = std::move(c); break; }
    case 2: A = B; break;
    case 3: { if (o.a == o.b) break; A = std::move(B); if (B.isValid()) { Harness h; violate("moved-from", "a moved-from image is still valid"); } break; }
    case 4: { Image& alias = A; A = alias; break; }
    case 5: A.reset(); break;
    case 6: { const Enc& e = (*g_small)[o.x % g_small->size()]; r.ok = A.load(e.data.data(), e.data.size(), o.y & 1 ? ColorSpace::sRGB : ColorSpace::Linear); break; }
    case 7: A = B.convert(fmt13(o.x), o.y & 1); break;
    case 8: A = B.resize(o.x >= 850 && B.isValid() ? B.width() : dim13(o.x, 50), o.y >= 850 && B.isValid() ? B.height() : dim13(o.y, 50), (Image::ResizeFilter)(o.z % 5)); break;
    case 9: A = B.rotate((Image::RotateAngle)(o.x % 6)); break;
    case 10: r.ok = A.flipHorizontal(); break;
    case 11: r.ok = A.flipVertical(); break;
    case 12: r.ok = A.preMultiplyAlpha(); break;
    case 13: r.ok = A.changeColorSpace(o.x & 1 ? ColorSpace::sRGB : ColorSpace::Linear); break;
    case 14: r.ok = A.grayscale(); break;
    case 15: r.ok = A.swizzle((Image::Channel)(o.x % 5), (Image::Channel)(o.x / 5 % 5), (Image::Channel)(o.x / 25 % 5), (Image::Channel)(o.x / 125 % 5)); break;
    case 16: { Image n = B.createNormalMap((Image::NormalOptions)(o.x % 8), 1.0 + (double)(o.y % 5), (o.z & 1) ? IF::RGBF : fmt13(o.z)); A = std::move(n); break; }
    case 17: { ColorRGBAd c{(double)(o.x % 100) / 100, (double)(o.y % 100) / 100, (double)(o.z % 100) / 100, 0.5}; unsigned x = (unsigned)(o.x % (A.width() + 2)), y = (unsigned)(o.y % (A.height() + 2)); r.ok = A.setPixel(x, y, c, o.z & 1); if (r.ok && (x >= A.width() || y >= A.height())) violate("outside", "setPixel(%u, %u) succeeded on an image of %ux%u", x, y, A.width(), A.height()); break; }
    case 18: { static const char* e[] = {"png", "bmp", "tga", "tif"}; Bytes d; r.ok = A.save(d, e[o.x % 4]); Harness h; r.extra = hashBytes(d); break; }
    case 19: std::swap(A, B); break;
    default: { Image c = B.convert(IF::RGBAF); c = c.resize(1 + o.x % 30, 1 + o.y % 30, (Image::ResizeFilter)(o.z % 5)); c.swizzle(Image::Channel::Green, Image::Channel::Blue, Image::Channel::Red, Image::Channel::None); A = c.rotate((Image::RotateAngle)(o.z % 6)); break; }
  }
  return r;
}
// const operations and the images they must leave alone; -1: none
static int source13(int op) { return op == 1 || op == 2 || op == 7 || op == 8 || op == 9 || op == 16 || op == 20; }
static std::string shape(const Image& i) { return i.isValid() ? fmtStr("%s %ux%u %d", imgName(i.format()), i.width(), i.height(), (int)i.colorSpace()) : std::string("invalid"); }
// an image with the same observable state, made from scratch
static void rebuild(const Image& from, Image& to) {
  if (!from.isValid()) { Sut s; to.reset(); return; }
  bool ok; { Sut s; ok = to.initialize(from.format(), from.width(), from.height(), from.colorSpace()); }
  if (!ok) violate("refused", "cannot create a %s", imgDesc(from).c_str());
  size_t n = (size_t)from.width() * imgBits(from.format()) / 8;
  for (unsigned y = 0; y < from.height(); ++y) { Sut s; memcpy(to.scanline(y), from.scanline(y), n); }
}
// What an undisturbed operation must hand out, from the state before it.
static void expect13(const Op13& o, const Ret& r, const Image& A, const Image& B, const Image& a, const Image& b, const std::string& desc) {
  struct S { bool ok; IF f; unsigned w, h; ColorSpace cs; };
  auto of = [](const Image& i) { return S{i.isValid(), i.format(), i.width(), i.height(), i.colorSpace()}; };
  S w = of(b), have = of(A); bool must = true;       // must: a valid source gives a valid result
  auto turned = [&](uint64_t angle) { if (angle % 3 != 1) std::swap(w.w, w.h); };
  switch (o.op) {
    case 0: w = (o.x & 128) && b.isValid() ? w : S{true, fmt13(o.x), dim13(o.y, 40), dim13(o.z, 40), ColorSpace::Linear}; w.cs = o.x & 64 ? ColorSpace::sRGB : ColorSpace::Linear; if (w.f == IF::Invalid || !w.w || !w.h) w.ok = false; break;
    case 1: case 2: break;
    case 3: case 19: if (o.a == o.b) w = of(a); break;
    case 5: w.ok = false; break;
    case 6: { if (r.ok == 1 && have.ok) { if (have.cs != (o.y & 1 ? ColorSpace::sRGB : ColorSpace::Linear)) violate("wrong-result", "%s gave %s", desc.c_str(), shape(A).c_str()); return; } if ((*g_small)[o.x % g_small->size()].must) violate("wrong-result", "%s failed", desc.c_str()); return; }
    case 7: w.f = fmt13(o.x); if (w.f == IF::Invalid) w.ok = false; break;
    case 8: must = false; w.w = o.x >= 850 ? b.width() : dim13(o.x, 50); w.h = o.y >= 850 ? b.height() : dim13(o.y, 50); if (!w.w || !w.h) w.ok = false; break;
    case 9: turned(o.x % 6); break;
    case 13: w = of(a); w.cs = o.x & 1 ? ColorSpace::sRGB : ColorSpace::Linear; break;
    case 16: w.f = (o.z & 1) ? IF::RGBF : fmt13(o.z); if (w.f == IF::Invalid) w.ok = false; break;
    case 20: w.f = IF::RGBAF; w.w = (unsigned)(1 + o.x % 30); w.h = (unsigned)(1 + o.y % 30); turned(o.z % 6); break;
    default: w = of(a); break;
  }
  if (have.ok ? !w.ok : w.ok && must) violate("wrong-result", "%s gave %s", desc.c_str(), shape(A).c_str());
  if (have.ok && (have.f != w.f || have.w != w.w || have.h != w.h || have.cs != w.cs)) violate("wrong-result", "%s gave %s", desc.c_str(), shape(A).c_str());
  if (o.op == 1 || o.op == 2 || o.op == 3 || o.op == 19) if (o.a != o.b && imgHash(A) != imgHash(b)) violate("wrong-result", "%s gave other pixels", desc.c_str());
  if (o.op == 19 && o.a != o.b && imgHash(B) != imgHash(a)) violate("wrong-result", "%s gave other pixels", desc.c_str());
  if ((o.op == 4 || o.op == 18 || ((o.op == 3 || o.op == 19) && o.a == o.b)) && imgHash(A) != imgHash(a)) violate("wrong-result", "%s changed the image", desc.c_str());
  if (have.ok && o.op == 13 && a.colorSpace() == w.cs && imgHash(A) != imgHash(a)) violate("wrong-result", "%s changed the pixels", desc.c_str());
}
// turning and mirroring move pixels and nothing else
static void moved13(const Op13& o, const Image& A, const Image& from, const std::string& desc) {
  unsigned w = from.width(), h = from.height(), px = imgBits(from.format()) / 8;
  for (unsigned y = 0; y < h; ++y)
    for (unsigned x = 0; x < w; ++x) {
      unsigned dx = x, dy = y;
      if (o.op == 10) dx = w - 1 - x; else if (o.op == 11) dy = h - 1 - y;
      else switch (o.x % 6) {
        case 0: case 5: dx = h - 1 - y; dy = x; break;     // clockwise
        case 1: case 4: dx = w - 1 - x; dy = h - 1 - y; break;
        default: dx = y; dy = w - 1 - x; break;            // counter-clockwise
      }
      const uint8_t *p = (const uint8_t*)from.scanline(y) + (size_t)x * px, *q = (const uint8_t*)A.scanline(dy) + (size_t)dx * px;
      bool same = from.format() == IF::RGB5 ? ((p[0] | p[1] << 8) & 0x7fff) == ((q[0] | q[1] << 8) & 0x7fff) : !memcmp(p, q, px); // RGB5 has a bit of no meaning
      if (!same) violate("wrong-result", "%s: pixel %u, %u is not at %u, %u", desc.c_str(), x, y, dx, dy);
    }
}
void runC13() {
  fs::reset();
  enum { N = 3 };
  std::vector<Image> v(N);
  bool alike = chance(1, 3), loadedAny = false; IF af = kAllIF[ch(NIF)]; unsigned aw = 1 + (unsigned)chLog(40), ah = 1 + (unsigned)chLog(40);
  for (unsigned i = 0; i < N; ++i) if (chance(3, 4)) v[i] = mkImage(alike ? af : kAllIF[ch(NIF)], alike ? aw : 1 + (unsigned)chLog(40), alike ? ah : 1 + (unsigned)chLog(40), chance(1, 3) ? ColorSpace::sRGB : ColorSpace::Linear, 1 + ch(5000));
  unsigned n = 2 + (unsigned)ch(10);
  for (unsigned step = 0; step < n; ++step) {
    Op13 o; o.op = (int)ch(NOPS13); o.a = (unsigned)ch(N); o.b = (unsigned)ch(N); o.x = ch(1000); o.y = ch(1000); o.z = ch(1000);
    count(P_ops_total);
    // the same operation undisturbed, on copies
    std::vector<Image> twin; uint64_t before[N];
    // (decoded files may carry a palette or transparency beyond what can be rebuilt)
    if (o.op == 6) loadedAny = true;
    if (loadedAny || chance(1, 4)) { Sut s; twin = v; }
    else { twin.resize(N); for (unsigned i = 0; i < N; ++i) rebuild(v[i], twin[i]); }
    for (unsigned i = 0; i < N; ++i) { before[i] = imgHash(v[i]); if (imgHash(twin[i]) != before[i]) violate("copy-differs", "a copy of %s differs from its source", imgDesc(v[i]).c_str()); }
    std::string desc = fmtStr("%s(%u,%u,%llu,%llu,%llu) on %s / %s", opName13[o.op], o.a, o.b, (unsigned long long)o.x, (unsigned long long)o.y, (unsigned long long)o.z, imgDesc(v[o.a]).c_str(), imgDesc(v[o.b]).c_str());
    // what the target held before makes no difference
    if (((source13(o.op) || o.op == 0) && o.a != o.b) || o.op == 6) { Sut s; twin[o.a].reset(); }
    std::vector<Image> old; { Sut s; old = v; }
    zeroAttempts();
    Ret want = apply13(o, twin);
    Attempts at = attempts();
    expect13(o, want, twin[o.a], twin[o.b], old[o.a], old[o.b], desc);
    if (twin[o.a].isValid()) { if (o.op == 9 && old[o.b].isValid()) moved13(o, twin[o.a], old[o.b], desc); if (o.op == 10 || o.op == 11) moved13(o, twin[o.a], old[o.a], desc); }
    for (unsigned i = 0; i < N; ++i) if (imgHash(v[i]) != before[i]) violate("shared-pixels", "%s on copies changed image %u", desc.c_str(), i);
    if (source13(o.op) && o.a != o.b && imgHash(twin[o.b]) != before[o.b]) violate("source-changed", "%s changed its source", desc.c_str());
    for (unsigned i = 0; i < N; ++i) { checkImage(twin[i], opName13[o.op]); if (i != o.a && i != o.b && imgHash(twin[i]) != before[i]) violate("other-changed", "%s changed image %u", desc.c_str(), i); }
    if (want.ok == 0 && o.op >= 10 && o.op <= 17 && imgHash(twin[o.a]) != before[o.a]) violate("refused-changed", "%s returned false but changed the image", desc.c_str());
    if (want.ok == 0) count(P_refused_op);
    logf("%s -> %d %s", desc.c_str(), want.ok, imgDesc(twin[o.a]).c_str());
    zeroAttempts();
    if (chance(1, 2)) drawResourceFault(at, RK_NEW | RK_FI);
    Ret got; bool threw = false;
    try { got = apply13(o, v); } catch (const std::exception& e) { threw = true; t_sut = 0; logf("threw %s", e.what()); }
    bool fired = resourceFired(), fiFired = g_fiFallback;
    clearResourceFaults();
    for (unsigned i = 0; i < N; ++i) checkImage(v[i], fired ? "after an operation under faults" : "after an operation");
    for (unsigned i = 0; i < N; ++i) if (i != o.a && i != o.b && imgHash(v[i]) != before[i]) violate("other-changed", "%s changed image %u", desc.c_str(), i);
    if (source13(o.op) && o.a != o.b && imgHash(v[o.b]) != before[o.b]) violate("source-changed", "%s %schanged its source", desc.c_str(), fired ? "under faults " : "");
    if (!fired) {
      if (threw) violate("threw", "%s threw without a fault", desc.c_str());
      if (got.ok != want.ok || got.extra != want.extra) violate("result-differs", "%s returned %d the second time, %d the first", desc.c_str(), got.ok, want.ok);
      for (unsigned i = 0; i < N; ++i) if (imgHash(v[i]) != imgHash(twin[i])) violate("result-differs", "%s gave %s the second time, %s the first", desc.c_str(), imgDesc(v[i]).c_str(), imgDesc(twin[i]).c_str());
    } else {
      nontrivial();
      bool wantValid = twin[o.a].isValid();
      bool failed = threw || (want.ok == 1 && got.ok == 0) || (want.ok < 0 && wantValid && !v[o.a].isValid());
      if (o.op == 18 && got.ok == 1 && !fiFired && got.extra != want.extra) violate("result-differs", "%s gave other bytes under faults", desc.c_str());
      if (failed) { count(threw ? P_image_op_threw : P_image_op_failed); count(P_failed_op);
        // what a failing operation leaves behind must not be its result in part: either the old image, or nothing, for operations that hand out a new image
        if (!threw && want.ok < 0 && v[o.a].isValid()) violate("half-done", "%s failed but left %s", desc.c_str(), imgDesc(v[o.a]).c_str());
        if ((o.op == 0 || o.op == 6) && v[o.a].isValid()) violate("half-done", "%s failed but left %s", desc.c_str(), imgDesc(v[o.a]).c_str());
      } else {
        // completed: the same result; a failing image library call may switch to another algorithm, then only the shape counts
        if (want.ok != got.ok) violate("result-differs", "%s returned %d under faults, %d without", desc.c_str(), got.ok, want.ok);
        for (unsigned i = 0; i < N; ++i) {
          if (shape(v[i]) != shape(twin[i])) violate("result-differs", "%s completed under faults with %s instead of %s", desc.c_str(), shape(v[i]).c_str(), shape(twin[i]).c_str());
          if ((!fiFired || (o.op == 9 && v[i].format() != IF::RGB5)) && imgHash(v[i]) != imgHash(twin[i])) violate("result-differs", "%s completed under faults with other pixels", desc.c_str());
        }
      }
    }
    // copies never share pixels
    if (chance(1, 3)) {
      unsigned k = (unsigned)ch(N);
      Image c; { Sut s; c = v[k]; }
      uint64_t h = imgHash(v[k]);
      if (imgHash(c) != h) violate("copy-differs", "a copy differs from its source");
      if (c.isValid()) {
        if (c.scanline(0) == v[k].scanline(0)) violate("shared-pixels", "a copy shares its pixels");
        memset(c.scanline(0), 0x5a, (size_t)c.width() * imgBits(c.format()) / 8);
        if (imgHash(v[k]) != h) violate("shared-pixels", "writing a copy changed its source");
      }
    }
  }
}
