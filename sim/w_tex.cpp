// C11, C12, C14: textures under random histories, mipmap generation, and the resource ledger.
#include "common.h"
#include <cmath>
#include <fstream>
#include <sstream>
#include <utility>

typedef Image::Format IF;
typedef Texture::CubeFace CF;
void runLoadFaults();
bool canStore(Texture::Format f, Texture::Type t, Texture::FileType ft);

// ---- what can be seen of a texture --------------------------------------------------------------
struct Seen {
  bool valid = false; Dim dim = Dim::Dim2D; unsigned w = 0, h = 0, depth = 0, mips = 0; ColorSpace cs = ColorSpace::Linear; bool array = false;
  std::vector<uint64_t> img;            // per level, slice, face; 0: none
  bool conv = false; Texture::Format f = Texture::Format::Unknown; Texture::Type t = Texture::Type::UNorm; Texture::Alpha a = Texture::Alpha::None; unsigned mask = 15;
  TexData data;
  unsigned slices(unsigned m) const { return dim == Dim::Dim3D ? std::max(depth >> m, 1u) : std::max(depth, 1u); }
  unsigned faces() const { return dim == Dim::Cube ? 6 : 1; }
  size_t at(unsigned m, unsigned d, unsigned f) const { size_t n = 0; for (unsigned k = 0; k < m; ++k) n += slices(k) * faces(); return n + d * faces() + f; }
  size_t total() const { return at(mips, 0, 0); }
  bool complete() const { if (!valid) return false; for (auto v : img) if (!v) return false; return true; }
};
static Seen see(const Texture& t) {
  Seen s;
  Sut su;
  s.valid = t.isValid();
  if (!s.valid) return s;
  s.dim = t.dimension(); s.w = t.width(); s.h = t.height(); s.array = t.isArray(); s.depth = s.dim == Dim::Dim3D || s.array ? t.depth() : 0; s.mips = t.mipLevelCount(); s.cs = t.colorSpace();
  for (unsigned m = 0; m < s.mips; ++m) for (unsigned d = 0; d < t.depth(m); ++d) for (unsigned f = 0; f < t.faceCount(); ++f) s.img.push_back(imgHash(t.getImage((CF)f, m, d)));
  s.conv = t.converted();
  if (s.conv) {
    s.f = t.format(); s.t = t.type(); s.a = t.alphaType(); Texture::ColorMask c = t.colorMask(); s.mask = c.r | c.g << 1 | c.b << 2 | c.a << 3;
    s.data = texData(t);
  }
  return s;
}
static std::string diff(const Seen& a, const Seen& b, bool images = true) {
  if (a.valid != b.valid) return a.valid ? "it is valid" : "it is invalid";
  if (!a.valid) return "";
  if (a.dim != b.dim || a.w != b.w || a.h != b.h || a.depth != b.depth || a.array != b.array || a.cs != b.cs) return fmtStr("it is %s %ux%ux%u%s %d instead of %s %ux%ux%u%s %d", dimName(a.dim), a.w, a.h, a.depth, a.array ? " array" : "", (int)a.cs, dimName(b.dim), b.w, b.h, b.depth, b.array ? " array" : "", (int)b.cs);
  if (a.mips != b.mips) return fmtStr("it has %u mip levels instead of %u", a.mips, b.mips);
  if (images) for (unsigned m = 0; m < a.mips; ++m) for (unsigned d = 0; d < a.slices(m); ++d) for (unsigned f = 0; f < a.faces(); ++f) { uint64_t x = a.img[a.at(m, d, f)], y = b.img[a.at(m, d, f)]; if (x != y) return fmtStr("level %u slice %u face %u holds %s image", m, d, f, !x ? "no" : !y ? "an" : "another"); }
  if (a.conv != b.conv) return a.conv ? "it is converted" : "it is not converted";
  if (!a.conv) return "";
  if (a.f != b.f || a.t != b.t || a.a != b.a || a.mask != b.mask) return fmtStr("it is %s %s alpha %d mask %x instead of %s %s alpha %d mask %x", fmtName(a.f), typeName(a.t), (int)a.a, a.mask, fmtName(b.f), typeName(b.t), (int)b.a, b.mask);
  std::string d = firstDiff(a.data, b.data);
  return d.empty() ? "" : "its converted data differs: " + d;
}
static unsigned maskOf(const Texture::ColorMask& m) { return m.r | m.g << 1 | m.b << 2 | m.a << 3; }
static std::string brief(const Seen& s) { if (!s.valid) return "invalid"; size_t n = 0; for (auto v : s.img) n += v != 0; return fmtStr("%s %ux%ux%u mips %u, %zu/%zu images%s%s", dimName(s.dim), s.w, s.h, s.depth, s.mips, n, s.img.size(), s.conv ? ", " : "", s.conv ? fmtName(s.f) : ""); }
static unsigned maxLevels(Dim dim, unsigned w, unsigned h, unsigned depth) { unsigned m = std::max(w, h); if (dim == Dim::Dim3D) m = std::max(m, depth); unsigned n = 0; while (m) { ++n; m >>= 1; } return n; }

// ---- C11 ----------------------------------------------------------------------------------------
enum Op11 { O_INIT, O_INIT_BAD, O_SET, O_SET_MOVE, O_FILL, O_MIPS, O_CONVERT, O_COPY, O_ASSIGN, O_MOVE, O_SELF, O_SWAP, O_RESET, O_SAVE, O_CTOR, O_SET_BAD, O_CONVERT_BAD, O_SAVE_FILE, NOPS11 };
static const char* opName11[] = {"initialize", "initialize badly", "set image", "move image in", "fill", "generate mipmaps", "convert", "copy-construct", "copy-assign", "move-assign", "self-assign", "swap", "reset", "save", "construct", "set image badly", "convert badly", "save file"};
static const int weight11[] = {2, 1, 3, 2, 6, 4, 7, 2, 3, 1, 1, 1, 1, 3, 1, 2, 1, 1};
struct Args { int op; unsigned a, b; Spec s; unsigned mip, d, f, d2, f2; Image img; unsigned threads; int bad; unsigned levels; Texture::FileType ft; };
struct Ret11 { int ok = -1; Texture::SaveResult sr = Texture::SaveResult::Success; Bytes bytes; };
static Ret11 apply11(const Args& o, std::vector<Texture>& v, const std::vector<Image>& fill) {
  Texture &A = v[o.a], &B = v[o.b];
  Ret11 r;
  Sut s;
  const Spec& p = o.s;
  switch (o.op) {
    case O_INIT: r.ok = A.initialize(p.dim, p.w, p.h, p.depth, o.levels, p.cs); break;
    case O_INIT_BAD: r.ok = A.initialize(o.bad == 2 ? Dim::Dim3D : p.dim, o.bad == 0 ? 0 : p.w, o.bad == 1 ? 0 : p.h, o.bad == 2 ? 0 : p.depth, p.mips, p.cs); break;
    case O_SET: case O_SET_BAD:
      if (o.bad & 128) { Image c(o.img); if (o.bad & 64) r.ok = A.setImage(std::move(c), o.mip, o.d); else r.ok = A.setImage(std::move(c), (CF)o.f, o.mip, o.d); }
      else {
        const Image& i = o.bad & 256 ? A.getImage((CF)o.f2, o.mip, o.d2) : o.img;    // a picture of its own
        if (o.bad & 64) r.ok = A.setImage(i, o.mip, o.d); else r.ok = A.setImage(i, (CF)o.f, o.mip, o.d);
      }
      break;
    case O_SET_MOVE: { Image c(o.img); if (o.bad & 64) r.ok = A.setImage(std::move(c), o.mip, o.d); else r.ok = A.setImage(std::move(c), (CF)o.f, o.mip, o.d); break; }
    case O_FILL: {
      size_t k = 0; r.ok = 1;
      for (unsigned m = 0; m < A.mipLevelCount(); ++m) for (unsigned d = 0; d < A.depth(m); ++d) for (unsigned f = 0; f < A.faceCount(); ++f) if (!A.setImage(fill[k++], (CF)f, m, d)) r.ok = 0;
      break;
    }
    case O_MIPS: r.ok = A.generateMipmaps(p.filter, o.levels); break;
    case O_CONVERT: case O_CONVERT_BAD: r.ok = A.convert(p.f, p.t, p.q, p.a, p.m, o.threads); break;
    case O_COPY: { Texture c(B); A = std::move(c); break; }
    case O_ASSIGN: A = B; break;
    case O_MOVE: if (o.a != o.b) { A = std::move(B); if (B.isValid()) { Harness h; violate("moved-from", "a moved-from texture is still valid"); } } break;
    case O_SELF: { Texture& alias = A; A = alias; break; }
    case O_SWAP: std::swap(A, B); break;
    case O_RESET: A.reset(); break;
    case O_SAVE: r.sr = A.save(r.bytes, o.ft); break;
    case O_SAVE_FILE: r.sr = A.save("/sim/t.bin", o.ft); break;
    case O_CTOR: { Texture c(p.dim, p.w, p.h, p.depth, o.levels, p.cs); A = std::move(c); break; }
  }
  return r;
}
static Seen fresh(Dim dim, unsigned w, unsigned h, unsigned depth, unsigned levels, ColorSpace cs) {
  Seen s; s.valid = true; s.dim = dim; s.w = w; s.h = h; s.depth = depth; s.array = dim != Dim::Dim3D && depth > 0; s.cs = cs;
  s.mips = std::min(std::max(levels, 1u), maxLevels(dim, w, h, depth));
  s.img.assign(s.total(), 0);
  return s;
}
void runC11() {
  fs::reset(); fs::makeDir("/sim");
  drawSched();
  startSchedule();
  g_cores = drawCores();
  enum { N = 3 };
  std::vector<Texture> v(N);
  Seen model[N];
  static int total = 0; if (!total) for (int w : weight11) total += w;
  unsigned n = 3 + (unsigned)ch(14);
  SpecOpt so; so.maxDim = 12; so.maxMips = 4; so.odd = true; so.oddOneIn = 40;
  for (unsigned step = 0; step < n; ++step) {
    Args o; { int k = (int)ch(total); o.op = 0; while (k >= weight11[o.op]) k -= weight11[o.op++]; }
    o.a = (unsigned)ch(N); o.b = (unsigned)ch(N); o.bad = 0; o.mip = o.d = o.f = 0; o.threads = 1; o.levels = 1; o.ft = Texture::FileType::DDS;
    // steer: an operation that needs contents goes to a texture that has them, or else provides them first
    if (chance(5, 6)) {
      auto needs = [&](int op, const Seen& m) { bool base = m.valid && !m.img.empty(); if (base) for (size_t i = 0; i < m.slices(0) * m.faces(); ++i) if (!m.img[i]) base = false;
        return op == O_MIPS ? base ? -1 : (int)O_FILL : op == O_CONVERT || op == O_CONVERT_BAD ? m.complete() ? -1 : (int)O_FILL : op == O_SAVE || op == O_SAVE_FILE ? m.conv ? -1 : (int)O_CONVERT : op == O_FILL || op == O_SET || op == O_SET_MOVE || op == O_SET_BAD ? m.valid ? -1 : (int)O_INIT : op == O_COPY || op == O_ASSIGN || op == O_MOVE || op == O_SWAP ? model[o.b].valid ? -1 : (int)O_INIT : -1; };
      for (unsigned i = 0; i < N && needs(o.op, model[o.a]) >= 0; ++i) o.a = (o.a + 1) % N;
      for (int k; (k = needs(o.op, model[o.a])) >= 0;) { o.op = k; if (k == O_INIT) break; }
    }
    const Seen before = model[o.a], srcBefore = model[o.b];
    const Seen& m = before;
    std::vector<Image> fill;
    Seen want = before; int ok = -1; Texture::SaveResult sr = Texture::SaveResult::Success; bool checkOk = true;
    std::string what;
    switch (o.op) {
      case O_INIT: case O_CTOR:
        o.s = drawSpec(so); static const unsigned extra[] = {0, 0, 1, 5, ~0u}; { unsigned e = extra[ch(5)]; o.levels = e == ~0u ? e : o.s.mips + e; if (chance(1, 8)) o.levels = 0; }
        want = fresh(o.s.dim, o.s.w, o.s.h, o.s.depth, o.levels, o.s.cs); ok = o.op == O_INIT ? 1 : -1;
        what = o.s.str() + fmtStr(" levels %u", o.levels); break;
      case O_INIT_BAD: o.s = drawSpec(so); o.bad = (int)ch(3); want = Seen(); ok = 0; what = fmtStr("size %d is zero", o.bad); break;
      case O_SET: case O_SET_MOVE: case O_SET_BAD: {
        if (!m.valid) { o.img = mkImage(IF::RGBAF, 2, 2, ColorSpace::Linear, 1); ok = 0; what = "no texture"; if (chance(1, 2)) o.bad = 64; break; }
        o.mip = (unsigned)ch(m.mips); o.d = (unsigned)ch(m.slices(o.mip)); o.f = (unsigned)ch(m.faces());
        static const IF k[] = {IF::RGBAF, IF::RGBA8, IF::RGBAF, IF::RGB8, IF::Gray8, IF::RGBA16, IF::RGBF};
        unsigned w = std::max(m.w >> o.mip, 1u), h = std::max(m.h >> o.mip, 1u);
        ok = 1;
        if (m.faces() == 1 && chance(1, 2)) o.bad = 64;
        if (o.op == O_SET_BAD) {
          ok = 0;
          switch (ch(7)) {
            case 0: if (w > 1 && chance(1, 2)) w -= 1 + (unsigned)ch(w - 1); else w += 1 + (unsigned)ch(w + 1); what = "wrong width"; break;
            case 1: if (h > 1 && chance(1, 2)) h -= 1 + (unsigned)ch(h - 1); else h += 1 + (unsigned)ch(h + 1); what = "wrong height"; break;
            case 2: o.mip = m.mips + (unsigned)ch(3); what = "level out of range"; break;
            case 3: o.d = m.slices(o.mip) + (unsigned)ch(3); what = "slice out of range"; break;
            case 4: if (m.faces() == 1) { o.f = 1 + (unsigned)ch(5); o.bad = 0; what = "face of a texture without faces"; } else { o.bad = 64; what = "no face for a cube map"; } break;
            case 5: w = 0; what = "invalid image"; break;
            default: o.mip = ~0u; what = "level out of range"; break;
          }
          if (chance(1, 2)) o.bad |= 128;
        }
        if (o.op == O_SET && chance(1, 4)) {
          o.bad |= 256; o.d2 = (unsigned)ch(m.slices(o.mip)); o.f2 = (unsigned)ch(m.faces());
          uint64_t src = m.img[m.at(o.mip, o.d2, o.f2)];
          ok = src != 0;
          if (ok) want.img[m.at(o.mip, o.d, o.f)] = src;
          what = fmtStr("level %u slice %u face %u from its own slice %u face %u", o.mip, o.d, o.f, o.d2, o.f2);
          break;
        }
        if (w) o.img = mkImage(k[ch(7)], w, h, chance(1, 3) ? ColorSpace::sRGB : ColorSpace::Linear, 1 + ch(5000));
        if (ok) { Image e; { Sut s; e = o.img.convert(IF::RGBAF); e.changeColorSpace(m.cs); } want.img[m.at(o.mip, o.d, o.f)] = imgHash(e); what = fmtStr("level %u slice %u face %u %s", o.mip, o.d, o.f, imgDesc(o.img).c_str()); }
        break;
      }
      case O_FILL: {
        ok = 1; uint64_t seed = 1 + ch(100000);
        if (m.valid) for (unsigned mip = 0; mip < m.mips; ++mip) for (unsigned d = 0; d < m.slices(mip); ++d) for (unsigned f = 0; f < m.faces(); ++f) {
          fill.push_back(mkImage(IF::RGBAF, std::max(m.w >> mip, 1u), std::max(m.h >> mip, 1u), m.cs, seed * 31 + mip * 1009 + d * 61 + f));
          want.img[m.at(mip, d, f)] = imgHash(fill.back());
        }
        break;
      }
      case O_MIPS: {
        o.s.filter = (Image::ResizeFilter)ch(5); static const unsigned l[] = {2, 1, 3, 0, 4, ~0u}; o.levels = l[ch(6)];
        bool base = m.valid; if (m.valid) for (size_t i = 0; i < m.slices(0) * m.faces(); ++i) if (!m.img[i]) base = false;
        ok = base; what = fmtStr("levels %u", o.levels);
        if (base) {
          want.mips = std::min(std::max(o.levels, 1u), maxLevels(m.dim, m.w, m.h, m.depth));
          // level by level from a fresh texture
          Texture t; { Sut s; t.initialize(m.dim, m.w, m.h, m.depth, want.mips, m.cs); }
          for (unsigned d = 0; d < m.slices(0); ++d) for (unsigned f = 0; f < m.faces(); ++f) { Sut s; t.setImage(v[o.a].getImage((CF)f, 0, d), (CF)f, 0, d); }
          bool k; { Sut s; k = t.generateMipmaps(o.s.filter, want.mips); }
          if (!k) violate("refused", "generating mipmaps is refused for %s", brief(m).c_str());
          want.img = see(t).img;
          if (want.mips != m.mips) { want.conv = false; want.f = Texture::Format::Unknown; want.data.clear(); }
        }
        break;
      }
      case O_CONVERT: case O_CONVERT_BAD: {
        o.s = Spec(); o.s.cs = m.valid ? m.cs : ColorSpace::Linear; drawFormat(o.s); o.threads = drawThreads();
        ok = m.complete();
        if (o.op == O_CONVERT_BAD) {
          ok = 0;
          switch (ch(4)) {
            case 0: o.s.f = Texture::Format::Unknown; break;
            case 1: o.s.f = (Texture::Format)((int)Texture::Format::BC1_RGB + (int)ch(10)); break;
            case 2: o.s.f = Texture::Format::R5G6B5; o.s.t = Texture::Type::Float; break;
            default: if (m.valid && m.cs == ColorSpace::sRGB) { o.s.f = Texture::Format::R16; o.s.t = Texture::Type::UNorm; } else { o.s.f = Texture::Format::B10G11R11_UFloat; o.s.t = Texture::Type::UNorm; } break;
          }
        }
        what = fmtStr("%s %s threads %d", fmtName(o.s.f), typeName(o.s.t), (int)o.threads);
        if (ok) {
          Texture t; { Sut s; t.initialize(m.dim, m.w, m.h, m.depth, m.mips, m.cs); }
          for (unsigned mip = 0; mip < m.mips; ++mip) for (unsigned d = 0; d < m.slices(mip); ++d) for (unsigned f = 0; f < m.faces(); ++f) { Sut s; t.setImage(v[o.a].getImage((CF)f, mip, d), (CF)f, mip, d); }
          bool k; { Sut s; k = convertTexture(t, o.s, 1); }
          if (!k) violate("refused", "converting %s to %s %s is refused", brief(m).c_str(), fmtName(o.s.f), typeName(o.s.t));
          Seen r = see(t);
          want.conv = true; want.f = o.s.f; want.t = o.s.t; want.a = o.s.a; want.mask = maskOf(o.s.m); want.data = r.data; want.img = r.img;
        }
        break;
      }
      case O_COPY: case O_ASSIGN: want = srcBefore; break;
      case O_MOVE: case O_SWAP: if (o.a != o.b) want = srcBefore; break;
      case O_SELF: break;
      case O_RESET: want = Seen(); break;
      case O_SAVE: case O_SAVE_FILE:
        o.ft = (Texture::FileType)(1 + ch(3));
        sr = !m.conv ? Texture::SaveResult::Invalid : canStore(m.f, m.t, o.ft) ? Texture::SaveResult::Success : Texture::SaveResult::Unsupported;
        what = fileTypeName(o.ft); break;
    }
    Seen wantSrc = o.a == o.b ? want : o.op == O_MOVE ? Seen() : o.op == O_SWAP ? before : srcBefore;
    std::string desc = fmtStr("%s(%u%s) %s on %s", opName11[o.op], o.a, o.op == O_COPY || o.op == O_ASSIGN || o.op == O_MOVE || o.op == O_SWAP ? fmtStr(",%u", o.b).c_str() : "", what.c_str(), brief(m).c_str());
    logf("%s", desc.c_str());
    count(P_ops_total); if (ok == 0) count(P_refused_op); if (o.op == O_SELF) count(P_self_assign);
    // a fault in one operation of four, after counting its allocations on copies
    bool armed = false;
    if (chance(1, 4)) {
      std::vector<Texture> twin; { Sut s; twin = v; }
      zeroAttempts();
      apply11(o, twin, fill);
      Attempts at = attempts();
      zeroAttempts();
      armed = drawResourceFault(at, RK_NEW | RK_FI | RK_THREAD) != 0;
    }
    if (!armed) zeroAttempts();
    Ret11 got; bool threw = false;
    try { got = apply11(o, v, fill); } catch (const std::exception& e) { threw = true; t_sut = 0; logf("  threw %s", e.what()); }
    bool fired = resourceFired();
    clearResourceFaults();
    for (unsigned i = 0; i < N; ++i) checkTexture(v[i], fired ? "after an operation under faults" : desc.c_str());
    Seen now[N]; for (unsigned i = 0; i < N; ++i) now[i] = see(v[i]);
    for (unsigned i = 0; i < N; ++i) {
      if (i == o.a || i == o.b) continue;
      std::string d = diff(now[i], model[i]);
      if (!d.empty()) violate("other-changed", "%s changed texture %u: %s", desc.c_str(), i, d.c_str());
    }
    if (o.a != o.b) { std::string d = diff(now[o.b], fired && threw ? srcBefore : wantSrc); if (!d.empty()) violate("source-changed", "%s leaves texture %u wrong: %s", desc.c_str(), o.b, d.c_str()); }
    if (!fired) {
      if (threw) violate("threw", "%s threw without a fault", desc.c_str());
      if (checkOk && ok != got.ok && ok >= 0) violate("result-differs", "%s returned %d", desc.c_str(), got.ok);
      if ((o.op == O_SAVE || o.op == O_SAVE_FILE) && got.sr != sr) violate("result-differs", "%s returned %s instead of %s", desc.c_str(), resultName(got.sr), resultName(sr));
      std::string d = diff(now[o.a], want);
      if (!d.empty()) violate(ok == 0 ? "refused-changed" : "state-differs", "%s: afterwards %s", desc.c_str(), d.c_str());
    } else {
      nontrivial();
      bool failed = threw || (ok == 1 && got.ok == 0) || got.sr != sr || (o.op == O_CTOR && !now[o.a].valid);
      if (failed) count(P_failed_op);
      if (ok == 0 && got.ok == 1) violate("result-differs", "%s succeeded under faults", desc.c_str());
      std::string d;
      if (!failed) {      // complete, except that a fallback of the image library may give other pixels
        Seen w = want, g = now[o.a];
        // an image that cannot be copied is missing in the copy
        if (g_fiFired && (o.op == O_COPY || o.op == O_ASSIGN)) for (size_t i = 0; i < w.img.size() && i < g.img.size(); ++i) if (!g.img[i]) w.img[i] = 0;
        if (g_fiFallback) { for (auto& x : w.img) x = x != 0; for (auto& x : g.img) x = x != 0; }
        d = diff(g, w);
        if (!d.empty()) violate("state-differs", "%s completed under faults, but %s", desc.c_str(), d.c_str());
      } else {
        const Seen& g = now[o.a];
        switch (o.op) {
          case O_INIT: case O_CTOR: case O_INIT_BAD: if (g.valid && o.op != O_CTOR) violate("half-done", "%s failed but left %s", desc.c_str(), brief(g).c_str()); if (o.op == O_CTOR && g.valid && !diff(g, before).empty()) violate("half-done", "%s failed but left %s", desc.c_str(), brief(g).c_str()); break;
          case O_SET: case O_SET_MOVE: case O_SET_BAD: case O_FILL: {
            Seen w = before;
            for (size_t i = 0; i < w.img.size() && i < g.img.size(); ++i) { bool slot = o.op == O_FILL || (before.valid && ok && i == before.at(o.mip, o.d, o.f)); if (slot && (!g.img[i] || (o.op == O_FILL && g.img[i] == want.img[i]))) w.img[i] = g.img[i]; }
            d = diff(g, w); if (!d.empty()) violate("half-done", "%s failed, and %s", desc.c_str(), d.c_str());
            break;
          }
          case O_CONVERT: case O_CONVERT_BAD: {
            // not converted (the images may be used up), or as before
            Seen w = before; w.img = g.img; w.conv = false; w.f = Texture::Format::Unknown; w.data.clear();
            if (!diff(g, w).empty() && !(d = diff(g, before)).empty()) violate("half-done", "%s failed, and %s", desc.c_str(), d.c_str());
            for (size_t i = 0; i < g.img.size(); ++i) if (g.img[i] && g.img[i] != before.img[i]) violate("half-done", "%s failed and changed an image", desc.c_str());
            break;
          }
          case O_MIPS: {
            d = diff(g, before);
            if (!d.empty()) {      // the base must be as before and nothing may be converted wrongly
              for (size_t i = 0; i < before.slices(0) * before.faces(); ++i) if (g.img.size() <= i || g.img[i] != before.img[i]) violate("half-done", "%s failed and changed the base level", desc.c_str());
              if (g.complete() && g.mips != before.mips && want.img != g.img) violate("half-done", "%s failed but left complete images that are not the result", desc.c_str());
              if (g.conv) { if (g.mips != before.mips || !firstDiff(g.data, before.data).empty()) violate("half-done", "%s failed, and %s", desc.c_str(), d.c_str()); }
            }
            break;
          }
          case O_ASSIGN: case O_COPY:   // the old contents, or none
            if (g.valid && !(d = diff(g, before)).empty()) violate("half-done", "%s failed, and %s", desc.c_str(), d.c_str());
            break;
          default: d = diff(g, before); if (!d.empty()) violate("half-done", "%s failed, and %s", desc.c_str(), d.c_str());
        }
      }
    }
    for (unsigned i = 0; i < N; ++i) model[i] = now[i];
    if (now[o.a].conv) { nontrivial(); count(P_reference_checked); }
    if (liveThreads()) violate("thread-left", "%s left %d threads running", desc.c_str(), liveThreads());
  }
}

// ---- C12 ----------------------------------------------------------------------------------------
struct Custom { Texture::ImageIndex idx; Image img; Texture::MipReplacement rep; unsigned face; };
static double toLin(double c) { return c <= 0.04045 ? c / 12.92 : std::pow((c + 0.055) / 1.055, 2.4); }
// One level of a volume from the one above, slice by slice, from the documented filter.
static std::vector<std::vector<double>> volumeStep(const std::vector<Image>& prev, unsigned w, unsigned h, unsigned depth, bool srgb, Image::ResizeFilter filter) {
  std::vector<Image> in(prev.size());
  { Sut s; for (size_t i = 0; i < prev.size(); ++i) in[i] = prev[i].resize(w, h, filter); }
  std::vector<std::vector<double>> out(depth, std::vector<double>((size_t)w * h * 4, 0));
  double inv = (double)prev.size() / depth, radius = std::max(inv, 1.0);
  for (unsigned d = 0; d < depth; ++d) {
    double c = (d + 0.5) * inv, sum = 0;
    for (size_t i = 0; i < prev.size(); ++i) {
      double dist = std::fabs((double)i + 0.5 - c) / radius;
      double k = filter == Image::ResizeFilter::Box ? (dist <= 0.5 ? 1 : 0) : std::max(1 - dist, 0.0);
      if (!k) continue;
      sum += k;
      for (unsigned y = 0; y < h; ++y) {
        const float* p = (const float*)((const Image&)in[i]).scanline(y);
        for (unsigned x = 0; x < w * 4; ++x) out[d][(size_t)y * w * 4 + x] += k * (srgb && x % 4 != 3 ? toLin(p[x]) : p[x]);
      }
    }
    for (auto& v : out[d]) v /= sum;
  }
  return out;
}
static void checkVolume(const std::vector<Image>& got, const std::vector<Image>& prev, bool srgb, Image::ResizeFilter filter, const char* what) {
  unsigned w = got[0].width(), h = got[0].height();
  auto want = volumeStep(prev, w, h, (unsigned)got.size(), srgb, filter);
  for (size_t d = 0; d < got.size(); ++d) for (unsigned y = 0; y < h; ++y) {
    const float* p = (const float*)got[d].scanline(y);
    for (unsigned x = 0; x < w * 4; ++x) {
      double a = srgb && x % 4 != 3 ? toLin(p[x]) : p[x], b = want[d][(size_t)y * w * 4 + x];
      if (std::fabs(a - b) > 1e-3 * std::max(1.0, std::fabs(b))) violate("mip-differs", "%s: slice %zu pixel %u,%u channel %u is %g instead of %g", what, d, x / 4, y, x % 4, a, b);
    }
  }
}
void runC12() {
  fs::reset(); fs::makeDir("/sim");
  SpecOpt so; so.maxDim = 20; so.maxMips = 6; so.odd = true;
  Spec s = drawSpec(so);
  s.genMips = false;
  unsigned start = chance(1, 3) ? s.mips : 1;      // levels before generating
  unsigned ask; { static const unsigned k[] = {~0u, 2, 3, 4, 5, 1, 0}; ask = k[ch(7)]; }
  unsigned levels = std::min(std::max(ask, 1u), specMaxMips(s));
  bool vol = s.dim == Dim::Dim3D, srgb = s.cs == ColorSpace::sRGB;
  Texture t;
  { Sut su; if (!t.initialize(s.dim, s.w, s.h, s.depth, start, s.cs)) { Harness h; violate("refused", "initialize refused for %s", s.str().c_str()); } }
  for (unsigned m = 0; m < std::min(start, 1 + (unsigned)ch(3)); ++m) for (unsigned d = 0; d < specDepth(s, m); ++d) for (unsigned f = 0; f < specFaces(s); ++f) {
    // 3D volumes stay in gamut so that the sRGB averages have an exact inverse
    Image img = vol ? mkImage(IF::RGBA8, std::max(s.w >> m, 1u), std::max(s.h >> m, 1u), s.cs, mix(s.seed + m * 77 + d * 5 + f) | 1) : specImage(s, m, d, f);
    Sut su; if (!t.setImage(img, (CF)f, m, d)) { Harness h; violate("refused", "setImage refused for %s", s.str().c_str()); }
  }
  if (chance(1, 14) && specDepth(s, 0) * specFaces(s) > 1 + (unsigned)ch(2)) {
    // one base image is missing: refused, and nothing happens
    unsigned gapD = (unsigned)ch(specDepth(s, 0)), gapF = (unsigned)ch(specFaces(s));
    Texture u; { Sut su; u.initialize(s.dim, s.w, s.h, s.depth, start, s.cs); }
    for (unsigned d = 0; d < specDepth(s, 0); ++d) for (unsigned f = 0; f < specFaces(s); ++f) if (d != gapD || f != gapF) { Image img = mkImage(IF::RGBA8, s.w, s.h, s.cs, d * 7 + f + 1); Sut su; u.setImage(img, (CF)f, 0, d); }
    Seen was = see(u);
    bool ok; { Sut su; ok = u.generateMipmaps(s.filter, ask); }
    logf("%s without base slice %u face %u, %u levels -> %d", s.str().c_str(), gapD, gapF, ask, ok);
    std::string d = diff(see(u), was);
    if (ok) violate("mip-missing", "%s: generating mipmaps reports success without the base image of slice %u face %u", s.str().c_str(), gapD, gapF);
    if (!d.empty()) violate("half-done", "%s: generating mipmaps without a base image is refused, and %s", s.str().c_str(), d.c_str());
    nontrivial(); count(P_mips_failed);
    return;
  }
  bool wasConverted = chance(1, 5);
  if (wasConverted) {
    bool full = t.imagesComplete();
    if (full) { Sut su; if (!convertTexture(t, s, 1)) { Harness h; violate("refused", "conversion refused for %s", s.str().c_str()); } }
    for (unsigned d = 0; d < specDepth(s, 0) && full; ++d) for (unsigned f = 0; f < specFaces(s); ++f) { Image img = mkImage(IF::RGBA8, s.w, s.h, s.cs, mix(s.seed + d * 5 + f) | 1); Sut su; t.setImage(img, (CF)f, 0, d); }
  }
  // custom images
  std::vector<Custom> cust; bool bad = false; std::string badWhy;
  if (chance(3, 5)) {
    unsigned n = 1 + (unsigned)ch(4);
    for (unsigned i = 0; i < n; ++i) {
      unsigned m = (unsigned)ch(levels + 1), d = 0, f = (unsigned)ch(specFaces(s));
      Texture::MipReplacement rep = chance(1, 2) ? Texture::MipReplacement::Continue : Texture::MipReplacement::Once;
      static const IF k[] = {IF::RGBAF, IF::RGBA8, IF::RGB8, IF::RGBA16, IF::RGBF, IF::Gray8};
      auto draw = [&](unsigned dd) {
        Custom c{Texture::ImageIndex((CF)f, m, dd), Image(), rep, f};
        bool exact = chance(1, 2), otherCs = chance(1, 6);
        c.img = mkImage(vol ? IF::RGBA8 : k[ch(6)], exact ? std::max(s.w >> m, 1u) : 1 + (unsigned)ch(9), exact ? std::max(s.h >> m, 1u) : 1 + (unsigned)ch(9), otherCs ? (srgb ? ColorSpace::Linear : ColorSpace::sRGB) : s.cs, 1 + ch(5000));
        for (auto& o : cust) if (o.idx == c.idx) return;
        cust.push_back(c);
      };
      if (vol) { f = 0; bool have = false; for (auto& c : cust) if (c.idx.mipLevel == m) have = true; if (have) continue; for (unsigned dd = 0; dd < specDepth(s, m); ++dd) draw(dd); }
      else { d = (unsigned)ch(specDepth(s, 0)); draw(d); }
    }
    if (chance(1, 6) && !cust.empty()) {
      // make them inconsistent
      if (vol) {
        unsigned m = 0; for (auto& c : cust) if (c.idx.mipLevel > 0 && c.idx.mipLevel < levels && specDepth(s, c.idx.mipLevel) > 1) m = c.idx.mipLevel;
        if (m) {
          size_t k = 0; std::vector<size_t> at; for (size_t i = 0; i < cust.size(); ++i) if (cust[i].idx.mipLevel == m) at.push_back(i);
          k = at[ch(at.size())];
          if (chance(1, 2)) { cust.erase(cust.begin() + k); badWhy = "a slice is missing"; } else { cust[k].rep = cust[k].rep == Texture::MipReplacement::Once ? Texture::MipReplacement::Continue : Texture::MipReplacement::Once; badWhy = "replacements differ"; }
          bad = true;
        }
      } else { cust[ch(cust.size())].img = Image(); bad = true; badWhy = "an image is invalid"; }
    }
  }
  Texture::CustomMipImages map;
  static int how; how = (int)ch(3);
  unsigned assign = (unsigned)ch(1024);
  for (auto& c : cust) {
    Sut su;
    switch (how) {
      case 0: map.emplace(c.idx, Texture::CustomMipImage(c.img, c.rep)); break;                    // refers to the image
      case 1: { Image copy(c.img); map.emplace(c.idx, Texture::CustomMipImage(std::move(copy), c.rep)); break; }
      default: {                                                                                    // overwritten by assignment
        // from and to: its own image, or one elsewhere
        auto rep2 = c.rep == Texture::MipReplacement::Once ? Texture::MipReplacement::Continue : Texture::MipReplacement::Once;
        bool own = (assign >> (c.idx.mipLevel % 4)) & 1, move = (assign >> (4 + (c.idx.mipLevel + c.idx.depth) % 4)) & 1, was = (assign >> 8) & 1;
        Texture::CustomMipImage other = was ? Texture::CustomMipImage(Image(c.img), rep2) : Texture::CustomMipImage(c.img, rep2);
        Texture::CustomMipImage mine = own ? Texture::CustomMipImage(Image(c.img), c.rep) : Texture::CustomMipImage(c.img, c.rep);
        auto it = map.emplace(c.idx, other).first;
        if (assign & 512) { Texture::CustomMipImage& self = it->second; self = it->second; }
        if (move) it->second = std::move(mine); else it->second = mine;
        if (it->second.image != (own ? &it->second.imageStorage : &c.img)) { Harness h; violate("custom-mip", "an assigned custom mip refers to another one's image"); }
      }
    }
  }
  std::string desc = s.str() + fmtStr(" start %u, generate %u filter %d, %zu custom%s%s", start, ask, (int)s.filter, cust.size(), bad ? ": " : "", badWhy.c_str());
  logf("%s", desc.c_str());
  for (auto& c : cust) logf("  custom level %u slice %u face %u %s %s", c.idx.mipLevel, c.idx.depth, c.face, c.rep == Texture::MipReplacement::Once ? "once" : "continue", imgDesc(c.img).c_str());
  Seen before = see(t);
  auto custom = [&](unsigned m, unsigned d, unsigned f) -> const Custom* { for (auto& c : cust) if (c.idx.mipLevel == m && c.idx.depth == d && c.face == f) return &c; return nullptr; };
  auto fit = [&](const Image& i, unsigned m) { Sut su; Image r = i.resize(std::max(s.w >> m, 1u), std::max(s.h >> m, 1u), s.filter); if (r.format() != IF::RGBAF) r = r.convert(IF::RGBAF); r.changeColorSpace(s.cs); return r; };
  // expected images
  std::vector<uint64_t> want(before.img.begin(), before.img.begin() + before.slices(0) * before.faces());
  auto baseImg = [&](unsigned d, unsigned f) { Sut su; Image i(t.getImage((CF)f, 0, d)); return i; };
  Seen shape = before; shape.mips = levels;
  want.resize(shape.total(), 0);
  std::vector<std::vector<Image>> shown(levels);          // volumes: what each level shows
  if (!bad) {
    if (!vol) {
      for (unsigned d = 0; d < specDepth(s, 0); ++d) for (unsigned f = 0; f < specFaces(s); ++f) {
        Image prev = baseImg(d, f);
        for (unsigned m = 1; m < levels; ++m) {
          const Custom* c = custom(m, d, f);
          Image gen = fit(prev, m), show = gen;
          if (c) { show = fit(c->img, m); count(c->rep == Texture::MipReplacement::Once ? P_custom_mip_once : P_custom_mip_continue); }
          want[shape.at(m, d, f)] = imgHash(show);
          prev = c && c->rep == Texture::MipReplacement::Continue ? show : gen;
        }
      }
    } else {
      std::vector<Image> prev; for (unsigned d = 0; d < s.depth; ++d) prev.push_back(baseImg(d, 0));
      shown[0] = prev; count(P_mips_3d);
      for (unsigned m = 1; m < levels; ++m) {
        unsigned n = specDepth(s, m);
        std::vector<Image> gen, show;
        // one step of a fresh, smaller volume
        { Texture u; unsigned w = std::max(s.w >> (m - 1), 1u), h = std::max(s.h >> (m - 1), 1u);
          { Sut su; u.initialize(Dim::Dim3D, w, h, (unsigned)prev.size(), 2, s.cs); for (unsigned d = 0; d < prev.size(); ++d) u.setImage(prev[d], 0, d); }
          bool k; { Sut su; k = u.generateMipmaps(s.filter, 2); }
          if (!k) violate("refused", "%s: a two-level volume is refused", desc.c_str());
          for (unsigned d = 0; d < n; ++d) { Sut su; gen.push_back(u.getImage(1, d)); } }
        checkVolume(gen, prev, srgb, s.filter, desc.c_str());
        show = gen;
        const Custom* c = custom(m, 0, 0);
        if (c) { count(c->rep == Texture::MipReplacement::Once ? P_custom_mip_once : P_custom_mip_continue); for (unsigned d = 0; d < n; ++d) show[d] = fit(custom(m, d, 0)->img, m); }
        for (unsigned d = 0; d < n; ++d) want[shape.at(m, d, 0)] = imgHash(show[d]);
        prev = c && c->rep == Texture::MipReplacement::Continue ? show : gen;
        shown[m] = show;
      }
    }
  }
  // faults
  bool armed = false;
  if (chance(1, 2)) {
    Texture twin; { Sut su; twin = t; }
    zeroAttempts();
    { Sut su; twin.generateMipmaps(s.filter, ask, map); }
    Attempts at = attempts(); zeroAttempts();
    armed = drawResourceFault(at, RK_NEW | RK_FI) != 0;
  }
  unsigned tries = 2;
  for (unsigned attempt = 0; attempt < tries; ++attempt) {
    if (!armed) zeroAttempts();
    bool ok = false, threw = false;
    try { Sut su; ok = t.generateMipmaps(s.filter, ask, map); } catch (const std::exception& e) { threw = true; t_sut = 0; logf("threw %s", e.what()); }
    bool fired = resourceFired(), fi = g_fiFallback;
    clearResourceFaults();
    logf("generate -> %s", threw ? "threw" : ok ? "true" : "false");
    checkTexture(t, desc.c_str());
    Seen g = see(t);
    if (threw && !fired) violate("threw", "%s: threw without a fault", desc.c_str());
    if (ok == bad && !fired) violate("result-differs", "%s: returned %d", desc.c_str(), ok);
    if (bad && ok) violate("result-differs", "%s: returned true", desc.c_str());
    nontrivial();
    // the base is never changed
    for (size_t i = 0; i < before.slices(0) * before.faces(); ++i) if (g.img.size() <= i || g.img[i] != before.img[i]) violate("base-changed", "%s: the base level changed", desc.c_str());
    if (ok) {
      count(P_mips_ok);
      if (g.mips != levels) violate("mip-count", "%s: %u levels instead of %u", desc.c_str(), g.mips, levels);
      for (unsigned m = 1; m < levels; ++m) for (unsigned d = 0; d < g.slices(m); ++d) for (unsigned f = 0; f < g.faces(); ++f) {
        uint64_t x = g.img[g.at(m, d, f)];
        if (!x) violate("mip-missing", "%s: reports success, but level %u slice %u face %u has no image", desc.c_str(), m, d, f);
        if (!fi && x != want[shape.at(m, d, f)]) violate("mip-differs", "%s: level %u slice %u face %u is not what its own base and custom images give", desc.c_str(), m, d, f);
        if (srgb != (t.getImage((CF)f, m, d).colorSpace() == ColorSpace::sRGB)) violate("mip-differs", "%s: level %u has the wrong colour space", desc.c_str(), m);
      }
      if (!t.imagesComplete()) violate("mip-missing", "%s: reports success, but the images are incomplete", desc.c_str());
    } else {
      count(threw ? P_mips_threw : P_mips_failed);
      if (g.complete() && before.mips != g.mips) violate("half-done", "%s: failed, but the images count as complete with %u levels", desc.c_str(), g.mips);
      if (g.complete()) { std::string d = diff(g, before); if (!d.empty()) violate("half-done", "%s: failed, but the images count as complete and %s", desc.c_str(), d.c_str()); }
      if (bad && !fired) { std::string d = diff(g, before); if (!d.empty()) violate("half-done", "%s: refused, and %s", desc.c_str(), d.c_str()); }
    }
    // whatever happened, going on must be safe
    Texture use; { Sut su; use = t; }
    bool conv; { Sut su; conv = convertTexture(use, s, 2); }
    bool full = g.complete();
    if (conv != full) violate("convert-incomplete", "%s: conversion afterwards returns %d although the images are %scomplete", desc.c_str(), conv, full ? "" : "in");
    checkTexture(use, "converted after generating mipmaps", conv ? 1 : -1);
    Bytes out; Texture::SaveResult r; { Sut su; r = use.save(out, Texture::FileType::KTX); }
    if (conv && r != (canStore(s.f, s.t, Texture::FileType::KTX) ? Texture::SaveResult::Success : Texture::SaveResult::Unsupported)) violate("result-differs", "%s: saving afterwards gives %s", desc.c_str(), resultName(r));
    if (bad) { for (auto& c : cust) if (!c.img.isValid()) return; if (attempt) return; map.clear(); cust.clear(); bad = false; desc += ", then without";
      // expected chain without custom images is checked by count and shape only
      bool k; { Sut su; k = t.generateMipmaps(s.filter, ask); }
      if (!k || !t.imagesComplete() || t.mipLevelCount() != levels) violate("retry-failed", "%s: generating afterwards fails", desc.c_str());
      checkTexture(t, desc.c_str());
      return; }
    if (armed && fired && attempt == 0) count(P_retry_ok);
    armed = false; before = see(t);
    if (attempt == 0 && !chance(1, 2)) break;
  }
}

// ---- C14 ----------------------------------------------------------------------------------------
static void warmUp() {
  fmtPairs();
  Sut s;
  { Texture t; t.getImage(); t.getImage(CF::NegZ, 2, 2); Image i; i.initialize(IF::RGB8, 2, 2); Bytes b; i.save(b, "png"); Image j; j.load(b.data(), b.size()); std::istringstream st("x"); j.load(st);
    Texture u(Dim::Dim2D, 2, 2); Image k = i.convert(IF::RGBAF); u.setImage(k); u.convert(Texture::Format::R8, Texture::Type::UNorm, Texture::Quality::Low); u.save(b, Texture::FileType::DDS); }
}
static const struct { const char* name; void (*run)(); } parts[] = {
    {"conversion under faults", runC03}, {"conversion", runC01}, {"concurrent callers", runC02}, {"texture save", runC04}, {"texture saves", runC05}, {"refused saves", runC06}, {"image loads", runC07}, {"image save", runC08}, {"texture history", runC11}, {"mipmaps", runC12}, {"image history", runC13}, {"image history", runC13}, {"texture history", runC11}, {"image loads under faults", runLoadFaults}, {"tool", runC09}, {"tool directories", runC10}};
void runC14() {
  g_leaksOnly = true;
  fs::reset();
  warmUp();
  Ledger base = ledger(); uint64_t mark = allocMark();
  unsigned k = (unsigned)ch(sizeof parts / sizeof *parts);
  logf("part: %s", parts[k].name);
  parts[k].run();
  if (fs::openFds()) violate("leak", "%s: %d files are still open at the end", parts[k].name, fs::openFds());
  Ledger l = ledger();
  std::string d; uint64_t n = liveSince(mark, &d);
  if (n) violate("leak", "%s: %llu blocks of memory are still allocated at the end, of sizes %s", parts[k].name, (unsigned long long)n, d.c_str());
  if (l.bitmaps != base.bitmaps) violate("leak", "%s: %llu bitmaps are still allocated at the end", parts[k].name, (unsigned long long)(l.bitmaps - base.bitmaps));
  if (l.memories != base.memories) violate("leak", "%s: %llu memory streams are still open at the end", parts[k].name, (unsigned long long)(l.memories - base.memories));
  count(P_leak_checked); nontrivial();
}

// ---- C21 ----------------------------------------------------------------------------------------
void runCorrupt();
void runC21() {
  g_memoryOnly = true;
  fs::reset();
  if (chance(2, 5)) { logf("part: damaged images"); runCorrupt(); return; }
  unsigned k = (unsigned)ch(sizeof parts / sizeof *parts);
  logf("part: %s", parts[k].name);
  parts[k].run();
  nontrivial();
}
