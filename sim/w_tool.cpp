// C09, C10: the command line tool, run in this process against the simulated disk.
#include "common.h"
#include <errno.h>
#include <algorithm>
#include <iostream>
#include <set>

int cuttlefish_tool_main(int argc, const char** argv);

typedef Texture::FileType FTy;
typedef Texture::CubeFace CF;
typedef Texture::MipReplacement MR;
typedef Image::ResizeFilter RF;
std::string decode(const Bytes& file, FTy ft, const Spec& s, unsigned mips, const TexData& want);
bool canStore(Texture::Format f, Texture::Type t, FTy ft);
const char* extOf(FTy t);

namespace {
struct CapBuf : std::streambuf {
  std::string* to;
  std::streamsize xsputn(const char* s, std::streamsize n) override { Harness h; to->append(s, (size_t)n); return n; }
  int overflow(int c) override { if (c >= 0) { Harness h; to->push_back((char)c); } return c < 0 ? 0 : c; }
};
struct ToolRun { int exit = -1; bool threw = false; std::string out, err; };
struct Capture {                        // both standard streams of all tool runs while it lives
  CapBuf o, e; std::streambuf *po, *pe; std::string so, se;
  Capture() { o.to = &so; e.to = &se; po = std::cout.rdbuf(&o); pe = std::cerr.rdbuf(&e); std::cout.clear(); std::cerr.clear(); }
  ~Capture() { std::cout.rdbuf(po); std::cerr.rdbuf(pe); }
};
void callTool(const std::vector<std::string>& args, ToolRun& r) {
  std::vector<const char*> argv; argv.push_back("cuttlefish");
  for (auto& a : args) argv.push_back(a.c_str());
  argv.push_back(nullptr);
  try { Sut s; r.exit = cuttlefish_tool_main((int)argv.size() - 1, argv.data()); }
  catch (const std::exception& e) { r.threw = true; r.exit = 134; }       // the process would terminate
  t_sut = 0;
  if (!r.threw) { static const Counter k[] = {P_tool_exit0, P_tool_exit1, P_tool_exit2, P_tool_exit3}; if (r.exit >= 0 && r.exit < 4) count(k[r.exit]); else violate("exit-status", "the tool exits with %d", r.exit); }
}
ToolRun runTool(const std::vector<std::string>& args) {
  ToolRun r;
  { Capture c; callTool(args, r); r.out = c.so; r.err = c.se; }
  logf("tool -> exit %d%s%s%s", r.exit, r.threw ? " (exception)" : "", r.err.empty() ? "" : ", says: ", r.err.substr(0, r.err.find('\n')).c_str());
  return r;
}
std::string joined(const std::vector<std::string>& a) { std::string s; for (auto& x : a) { if (!s.empty()) s += ' '; s += x; } return s; }

enum Kind { K_IMAGE, K_ARRAY, K_CUBE, K_CUBEARRAY };
struct In { const Enc* enc; std::string path; };
struct CMip { unsigned level, depth, face; bool once; In in; };
struct SizeOpt { std::string name; int fn; unsigned n; };   // fn 0: number, 1: nextpo2, 2: width, 3: height, 4: min, 5: max, 6: nearestpo2, 7: min-nextpo2
struct Cmd {
  Kind kind = K_IMAGE; std::vector<In> in; std::vector<CMip> mips;
  bool useList = false, useMipList = false; std::string list = "/sim/in/list.txt", mipList = "/sim/in/mips.txt";
  bool resize = false; SizeOpt w, h; RF filter = RF::CatmullRom;
  bool mipmap = false; unsigned levels = 0; RF mipFilter = RF::CatmullRom;
  bool flipX = false, flipY = false, gray = false, normal = false, swizzle = false, srgb = false, premul = false, alphaSet = false;
  int rotate = 0; int wrap = 0; bool nh = false; char sw[5] = "rgba";
  Dim dim = Dim::Dim2D; Texture::Format f; Texture::Type t; Texture::Alpha a = Texture::Alpha::Standard; Texture::Quality q = Texture::Quality::Lowest;
  FTy ft = FTy::DDS; bool fileFormat = false; std::string out; bool createDir = false;
  std::string jobs = "1";                                   // "", a number, or "none" for no option
  int log = 0;
};
const char* faceArg(unsigned f) { static const char* n[] = {"+x", "-x", "+y", "-y", "+z", "-z"}; return n[f]; }
const char* filterArg(RF f) { switch (f) { case RF::Box: return "box"; case RF::Linear: return "linear"; case RF::Cubic: return "cubic"; case RF::BSpline: return "b-spline"; default: return "catmull-rom"; } }
const char* typeArg(Texture::Type t) { static const char* n[] = {"unorm", "snorm", "uint", "int", "ufloat", "float"}; return n[(int)t]; }

unsigned np2(unsigned v) { unsigned p = 1; while (p < v) p <<= 1; return p; }
unsigned nearP2(unsigned v) { unsigned n = np2(v), p = n / 2; if (!p) return n; return n - v < v - p ? n : p; }
unsigned sizeOf(const SizeOpt& s, unsigned cur, unsigned w, unsigned h) {
  switch (s.fn) { case 0: return s.n; case 1: return np2(cur); case 2: return w; case 3: return h; case 4: return std::min(w, h); case 5: return std::max(w, h); case 6: return nearP2(cur); case 7: return np2(std::min(w, h));
    case 8: return np2(w); case 9: return nearP2(w); case 10: return np2(h); case 11: return nearP2(h); case 12: return nearP2(std::min(w, h)); case 13: return np2(std::max(w, h)); default: return nearP2(std::max(w, h)); }
}
SizeOpt drawSize() {
  static const char* n[] = {"", "nextpo2", "width", "height", "min", "max", "nearestpo2", "min-nextpo2",
    "width-nextpo2", "width-nearestpo2", "height-nextpo2", "height-nearestpo2", "min-nearestpo2", "max-nextpo2", "max-nearestpo2"};
  SizeOpt s; s.fn = (int)(chance(1, 2) ? ch(15) : 0); s.n = 1 + (unsigned)chLog(20); s.name = s.fn ? n[s.fn] : std::to_string(s.n); return s;
}
// What the documentation says happens to an image, on top of the library's own operations.
bool process(Image& img, const Cmd& c, const Enc& e, unsigned& w, unsigned& h, unsigned mip) {
  bool native = Texture::hasNativeSRGB(c.f, c.t);
  ColorSpace in = c.srgb ? ColorSpace::sRGB : ColorSpace::Linear, tex = c.srgb && native ? ColorSpace::sRGB : ColorSpace::Linear;
  if (!img.load(e.data.data(), e.data.size(), in)) return false;
  if (!w) { w = c.resize ? sizeOf(c.w, img.width(), img.width(), img.height()) : img.width(); h = c.resize ? sizeOf(c.h, img.height(), img.width(), img.height()) : img.height(); }
  Image::Format orig = img.format();
  if (orig != Image::Format::RGBAF) img = img.convert(Image::Format::RGBAF);
  if (tex != in) img.changeColorSpace(tex);
  unsigned tw = std::max(w >> mip, 1u), th = std::max(h >> mip, 1u), nw = c.normal ? w : tw, nhh = c.normal ? h : th;
  if (img.width() != nw || img.height() != nhh) img = img.resize(nw, nhh, c.filter);
  if (c.rotate) { using RA = Image::RotateAngle; static const RA r[] = {RA::CCW270, RA::CCW180, RA::CCW90, RA::CW90, RA::CW90, RA::CW180, RA::CW270}; img = img.rotate(r[c.rotate / 90 + 3]); }
  if (c.gray) img.grayscale();
  if (c.normal) {
    using NO = Image::NormalOptions;
    NO o = c.wrap == 1 ? NO::WrapX | NO::WrapY : c.wrap == 2 ? NO::WrapX : c.wrap == 3 ? NO::WrapY : NO::Default;
    if (c.t == Texture::Type::SNorm || c.t == Texture::Type::Int || c.t == Texture::Type::Float) o |= NO::KeepSign;
    img = img.createNormalMap(o, c.nh ? 2.5 : 1.0);
    if (nw != tw || nhh != th) img = img.resize(tw, th, c.filter);
    orig = img.format();
  }
  if (c.flipX) img.flipHorizontal();
  if (c.flipY) img.flipVertical();
  if (c.swizzle) { Image::Channel k[4]; for (int i = 0; i < 4; ++i) k[i] = c.sw[i] == 'r' ? Image::Channel::Red : c.sw[i] == 'g' ? Image::Channel::Green : c.sw[i] == 'b' ? Image::Channel::Blue : c.sw[i] == 'a' ? Image::Channel::Alpha : Image::Channel::None; img.swizzle(k[0], k[1], k[2], k[3]); }
  if (c.premul) img.preMultiplyAlpha();
  Texture::adjustImageValueRange(img, c.t, orig);
  return img.isValid();
}
Texture::Alpha alphaOf(const Cmd& c, Texture::ColorMask& m) {
  for (int i = 0; c.swizzle && i < 4; ++i) if (c.sw[i] == 'x') (i == 0 ? m.r : i == 1 ? m.g : i == 2 ? m.b : m.a) = false;
  if (c.alphaSet) return c.a;
  return !m.a ? Texture::Alpha::None : c.premul ? Texture::Alpha::PreMultiplied : Texture::Alpha::Standard;
}
// The texture the command asks for, built with the library directly.
struct Expect { bool ok = false; Spec s; unsigned mips = 1; TexData data; Bytes bytes; std::string why; };
void build(const Cmd& c, Expect& x) {
  Sut su;
  std::vector<Image> v(c.in.size());
  unsigned w = 0, h = 0;
  for (size_t i = 0; i < v.size(); ++i) if (!process(v[i], c, *c.in[i].enc, w, h, 0)) { x.why = "image"; return; }
  Texture::CustomMipImages cm;
  for (auto& m : c.mips) { Image im; if (!process(im, c, *m.in.enc, w, h, m.level)) { x.why = "custom mip image"; return; } cm.emplace(Texture::ImageIndex((CF)m.face, m.level, m.depth), Texture::CustomMipImage(std::move(im), m.once ? MR::Once : MR::Continue)); }
  unsigned depth = c.kind == K_ARRAY ? (unsigned)v.size() : c.kind == K_CUBEARRAY ? (unsigned)v.size() / 6 : 0;
  Dim dim = c.kind == K_CUBE || c.kind == K_CUBEARRAY ? Dim::Cube : c.dim;
  ColorSpace cs = c.srgb && Texture::hasNativeSRGB(c.f, c.t) ? ColorSpace::sRGB : ColorSpace::Linear;
  x.s.dim = dim; x.s.w = v[0].width(); x.s.h = v[0].height(); x.s.depth = depth; x.s.cs = cs; x.s.f = c.f; x.s.t = c.t; x.s.q = c.q;
  x.s.m = Texture::ColorMask(); x.s.a = alphaOf(c, x.s.m); x.s.seed = 0; x.s.filter = c.mipFilter;
  Texture t(dim, x.s.w, x.s.h, depth, 1, cs);
  for (size_t i = 0; i < v.size(); ++i) {
    bool ok = c.kind == K_ARRAY ? t.setImage(v[i], 0, (unsigned)i) : c.kind == K_IMAGE ? t.setImage(v[i]) : t.setImage(v[i], (CF)(i % 6), 0, (unsigned)i / 6);
    if (!ok) { x.why = "set image"; return; }
  }
  if (c.mipmap) { x.mips = std::min(c.levels ? c.levels : 1000u, specMaxMips(x.s)); if (x.mips > 1 && !t.generateMipmaps(c.mipFilter, x.mips, cm)) { x.why = "mipmaps"; return; } }
  x.s.mips = x.mips;
  if (!t.convert(c.f, c.t, c.q, x.s.a, x.s.m, 1)) { x.why = "convert"; return; }
  { Harness hs; x.data = texData(t); }
  if (t.save(x.bytes, c.ft) != Texture::SaveResult::Success) { x.why = "save"; return; }
  x.ok = true;
}

const Enc& drawEnc() {
  const std::vector<Enc>& c = imageCorpus();
  // prefer small images; TGA and EXR readers take what a failing read leaves in their buffers for data
  for (int i = 0; i < 30; ++i) { const Enc& e = c[ch(c.size())]; if (e.must && e.ext != "exr" && e.ext != "tga" && e.ext != "gif" && e.ext != "jng" && (e.what.find("100x90") == std::string::npos)) return e; }
  return c[0];
}
void readSizeOf(const Enc& e, unsigned& w, unsigned& h) { Image i; { Sut s; i.load(e.data.data(), e.data.size()); } w = i.width(); h = i.height(); }

// Command line groups; order between groups is free.
std::vector<std::string> argsOf(const Cmd& c, bool lists, uint64_t shuffle, bool longNames) {
  std::vector<std::vector<std::string>> g;
  auto N = [&](const char* s, const char* l) { return std::string(longNames ? l : s); };
  if (lists && c.useList) { static const char* k[] = {"image", "array", "cube", "cube-array"}; g.push_back({N("-I", "--input-list"), k[c.kind], c.list}); }
  else {
    std::vector<std::string> a;
    for (size_t i = 0; i < c.in.size(); ++i) switch (c.kind) {
      case K_IMAGE: a.insert(a.end(), {N("-i", "--input"), c.in[i].path}); break;
      case K_ARRAY: a.push_back(N("-a", "--array")); if (shuffle & 1) a.push_back(std::to_string(i)); a.push_back(c.in[i].path); break;
      case K_CUBE: a.insert(a.end(), {N("-c", "--cube"), faceArg((unsigned)i), c.in[i].path}); break;
      default: a.insert(a.end(), {N("-C", "--cube-array"), std::to_string(i / 6), faceArg((unsigned)i % 6), c.in[i].path}); break;
    }
    g.push_back(a);
  }
  if (c.resize) g.push_back({N("-r", "--resize"), c.w.name, c.h.name, filterArg(c.filter)});
  if (c.mipmap) { std::vector<std::string> a{N("-m", "--mipmap")}; if (c.levels) a.push_back(std::to_string(c.levels)); a.push_back(filterArg(c.mipFilter)); g.push_back(a); }
  if (lists && c.useMipList) g.push_back({"--custom-mip-list", c.mipList});
  else for (auto& m : c.mips) {
    std::vector<std::string> a{N("-M", "--custom-mip"), std::to_string(m.level)};
    if (m.depth || shuffle & 2) a.push_back(std::to_string(m.depth));
    if (m.face || shuffle & 4) a.push_back(faceArg(m.face));
    if (m.once || shuffle & 8) a.push_back(m.once ? "once" : "continue");
    a.push_back(m.in.path); g.push_back(a);
  }
  if (c.flipX) g.push_back({"--flipx"});
  if (c.flipY) g.push_back({"--flipy"});
  if (c.rotate) g.push_back({"--rotate", std::to_string(c.rotate)});
  if (c.normal) { std::vector<std::string> a{N("-n", "--normalmap")}; static const char* w[] = {"", "wrap", "wrapx", "wrapy"}; if (c.wrap) a.push_back(w[c.wrap]); if (c.nh) a.push_back("2.5"); g.push_back(a); }
  if (c.gray) g.push_back({N("-g", "--grayscale")});
  if (c.swizzle) g.push_back({N("-s", "--swizzle"), c.sw});
  if (c.srgb) g.push_back({"--srgb"});
  if (c.premul) g.push_back({"--pre-multiply"});
  if (c.dim != Dim::Dim2D) g.push_back({N("-d", "--dimension"), c.dim == Dim::Dim1D ? "1" : "3"});
  g.push_back({N("-f", "--format"), fmtName(c.f), N("-t", "--type"), typeArg(c.t)});
  if (c.alphaSet) { static const char* a[] = {"none", "standard", "pre-multiplied", "encoded"}; g.push_back({"--alpha", a[(int)c.a]}); }
  { static const char* q[] = {"lowest", "low", "normal", "high", "highest"}; g.push_back({N("-Q", "--quality"), q[(int)c.q]}); }
  g.push_back({N("-o", "--output"), c.out});
  if (c.fileFormat) g.push_back({"--file-format", extOf(c.ft)});
  if (c.createDir) g.push_back({"--create-dir"});
  if (c.log) g.push_back({c.log == 1 ? N("-q", "--quiet") : N("-v", "--verbose")});
  if (c.jobs != "none") { std::vector<std::string> a{N("-j", "--jobs")}; if (!c.jobs.empty()) a.push_back(c.jobs); g.push_back(a); }
  Rng r(shuffle);
  if (shuffle) for (size_t i = g.size() - 1; i > 0; --i) std::swap(g[i], g[r.below(i + 1)]);
  std::vector<std::string> out;
  for (auto& x : g) out.insert(out.end(), x.begin(), x.end());
  return out;
}
std::string inPath(unsigned i, const Enc& e) { static const char* stem[] = {"/sim/in/i", "/sim/in/a b ", "in/r", "/sim/in/\xc3\xa4"}; return stem[ch(4)] + std::to_string(i) + "." + e.ext; }
void putInputs(const Cmd& c, unsigned style) {
  auto abs = [](const std::string& p) { return p[0] == '/' ? p : "/sim/cwd/" + p; };
  for (auto& i : c.in) fs::putFile(abs(i.path), i.enc->data);
  for (auto& m : c.mips) fs::putFile(abs(m.in.path), m.in.enc->data);
  const char* nl = style & 1 ? "\r\n" : style & 2 ? "\n\n" : "\n";
  if (c.useList) { std::string s; for (size_t i = 0; i < c.in.size(); ++i) { s += c.in[i].path; if (i + 1 < c.in.size() || !(style & 4)) s += nl; } fs::putFile(c.list, Bytes(s.begin(), s.end())); }
  if (c.useMipList) {
    std::string s;
    for (size_t i = 0; i < c.mips.size(); ++i) { auto& m = c.mips[i]; s += std::to_string(m.level) + (style & 8 ? "  " : " "); if (m.depth || style & 16) s += std::to_string(m.depth) + " "; if (m.face || style & 32) s += std::string(faceArg(m.face)) + "\t"; if (m.once || style & 64) s += m.once ? "once " : "continue "; s += m.in.path; if (i + 1 < c.mips.size() || !(style & 4)) s += nl; }
    fs::putFile(c.mipList, Bytes(s.begin(), s.end()));
  }
}
Cmd drawCmd(bool small) {
  Cmd c;
  c.kind = small ? K_IMAGE : (Kind)ch(4);
  c.dim = Dim::Dim2D;
  if (!small && c.kind == K_ARRAY) c.dim = (Dim[]){Dim::Dim2D, Dim::Dim3D, Dim::Dim1D}[ch(3)];
  else if (!small && c.kind == K_IMAGE && chance(1, 6)) c.dim = Dim::Dim1D;
  unsigned n = c.kind == K_IMAGE ? 1 : c.kind == K_ARRAY ? 1 + (unsigned)ch(5) : c.kind == K_CUBE ? 6 : 6 * (1 + (unsigned)ch(2));
  bool square = c.kind == K_CUBE || c.kind == K_CUBEARRAY;
  for (unsigned i = 0; i < n; ++i) { const Enc& e = drawEnc(); c.in.push_back({&e, inPath(i, e)}); }
  unsigned iw, ih; readSizeOf(*c.in[0].enc, iw, ih);
  c.resize = square || c.dim == Dim::Dim1D || chance(1, 2);
  if (c.resize) {
    c.w = drawSize(); c.h = drawSize(); c.filter = (RF)ch(5);
    if (square) { if (c.w.fn == 0) c.h = c.w; else { static const int f[] = {2, 3, 4, 5, 7}; static const char* nm[] = {"width", "height", "min", "max", "min-nextpo2"}; unsigned k = (unsigned)ch(5); c.w.fn = f[k]; c.w.name = nm[k]; c.h = c.w; } }
    if (c.dim == Dim::Dim1D) { c.h.fn = 0; c.h.n = 1; c.h.name = "1"; }
  }
  unsigned w = c.resize ? sizeOf(c.w, iw, iw, ih) : iw, h = c.resize ? sizeOf(c.h, ih, iw, ih) : ih;
  do drawFt: { const auto& p = fmtPairs()[ch(fmtPairs().size())]; c.f = p.f; c.t = p.t; } while (0);
  c.ft = (FTy)(1 + ch(3));
  if (!canStore(c.f, c.t, c.ft)) c.ft = FTy::PVR;
  if (!canStore(c.f, c.t, c.ft)) goto drawFt;
  c.fileFormat = chance(1, 4);
  if (!small) {
    c.mipmap = chance(1, 2);
    if (c.mipmap) {
      Spec s{}; s.dim = square ? Dim::Cube : c.dim; s.w = w; s.h = h; s.depth = c.kind == K_ARRAY ? n : c.kind == K_CUBEARRAY ? n / 6 : 0;
      unsigned mx = specMaxMips(s);
      c.levels = chance(1, 2) ? 0 : 2 + (unsigned)ch(mx + 2);
      c.mipFilter = (RF)ch(5);
      unsigned have = std::min(c.levels ? c.levels : 1000u, mx);
      if (have > 1 && chance(1, 2)) {
        unsigned k = 1 + (unsigned)ch(3);
        std::set<std::tuple<unsigned, unsigned, unsigned>> used;
        for (unsigned i = 0; i < k; ++i) {
          unsigned lv = 1 + (unsigned)ch(have - 1); bool once = chance(1, 2);
          if (c.dim == Dim::Dim3D) {
            if (used.count({lv, 0, 0})) continue;
            for (unsigned d = 0; d < std::max(n >> lv, 1u); ++d) { used.insert({lv, d, 0}); const Enc& e = drawEnc(); c.mips.push_back({lv, d, 0, once, {&e, inPath(100 + (unsigned)c.mips.size(), e)}}); }
          } else {
            unsigned d = s.depth ? (unsigned)ch(s.depth) : 0, f = square ? (unsigned)ch(6) : 0;
            if (!used.insert({lv, d, f}).second) continue;
            const Enc& e = drawEnc(); c.mips.push_back({lv, d, f, once, {&e, inPath(100 + (unsigned)c.mips.size(), e)}});
          }
        }
      }
    }
    c.flipX = chance(1, 4); c.flipY = chance(1, 4);
    if (chance(1, 4)) { static const int a[] = {90, 180, 270, -90, -180, -270}; c.rotate = a[ch(6)]; if (c.dim == Dim::Dim1D) c.rotate = 180; }
    c.gray = chance(1, 6); c.normal = chance(1, 6);
    if (c.normal) { c.wrap = (int)ch(4); c.nh = chance(1, 2); }
    if (chance(1, 4)) { c.swizzle = true; for (int i = 0; i < 4; ++i) c.sw[i] = "rgbax"[ch(5)]; }
    c.srgb = chance(1, 4); c.premul = chance(1, 6);
    if (chance(1, 4)) { c.alphaSet = true; c.a = (Texture::Alpha)ch(4); }
    c.useList = chance(1, 2); c.useMipList = !c.mips.empty() && chance(1, 2);
    c.q = (Texture::Quality)ch(5);
  }
  c.log = (int)ch(3);
  return c;
}
bool looksLikeError(const ToolRun& r) { return r.threw || r.err.find("error") != std::string::npos; }
typedef std::map<std::string, uint64_t> Tree;
std::string treeDiff(const Tree& a, const Tree& b, const std::string& except, bool* onlyNewDirs = nullptr) {
  for (auto& x : a) { if (x.first == except) continue; auto it = b.find(x.first); if (it == b.end()) return x.first + " was removed"; if (it->second != x.second) return x.first + " was changed"; }
  for (auto& x : b) if (x.first != except && !a.count(x.first)) return x.first + " was created";
  return "";
}
}

// ---- C09 ----------------------------------------------------------------------------------------
void runC09() {
  fs::reset();
  g_cores = drawCores(); count(F_cores_reported);
  drawSched();
  fs::makeDir("/sim/in"); fs::makeDir("/sim/cwd/in"); fs::makeDir("/sim/out");
  Cmd c = drawCmd(false);
  c.out = std::string(chance(1, 2) ? "/sim/out/" : "") + "t" + "." + (c.fileFormat && chance(1, 2) ? "bin" : extOf(c.ft));
  std::string outAbs = c.out[0] == '/' ? c.out : "/sim/cwd/" + c.out;
  unsigned style = (unsigned)ch(128); uint64_t shuffle = ch(1000); bool longNames = chance(1, 2);
  putInputs(c, style);
  Expect x; build(c, x);
  std::vector<std::string> plain = argsOf(c, false, 0, false);
  startSchedule();
  if (!x.ok) { logf("%s", joined(plain).c_str()); violate("harness", "the library itself refuses the %s: %s", x.why.c_str(), joined(plain).c_str()); }
  // an undisturbed run
  fs::clearFaults(); fs::clearOps();
  Bytes old; bool hadOld = chance(1, 2);
  if (hadOld) { old.assign(1 + ch(3) * 5000, 0xEE); fs::putFile(outAbs, old); }
  Tree t0 = fs::snapshot();
  c.jobs = "1";
  std::vector<std::string> args = argsOf(c, true, shuffle, longNames);
  logf("%s", joined(args).c_str());
  zeroAttempts();
  ToolRun r = runTool(args);
  Attempts at = attempts();
  std::vector<fs::OpRec> ops = fs::ops();
  Bytes ref; bool there = fs::readFile(outAbs, ref);
  if (r.exit != 0) violate("false-failure", "exit %d (%s) for: %s", r.exit, r.err.substr(0, 200).c_str(), joined(args).c_str());
  if (!there) violate("false-success", "exit 0 without an output file for: %s", joined(args).c_str());
  { std::string e = decode(ref, c.ft, x.s, x.mips, x.data); if (!e.empty()) violate("wrong-output", "exit 0, but the file is not the requested texture (%s): %s", e.c_str(), joined(args).c_str()); }
  if (ref != x.bytes) violate("wrong-output", "exit 0, but the file is not the requested texture, %s: %s", firstDiff(ref, x.bytes).c_str(), joined(args).c_str());
  { std::string d = treeDiff(t0, fs::snapshot(), outAbs); if (!d.empty()) violate("side-effect", "%s by: %s", d.c_str(), joined(args).c_str()); }
  count(P_faultfree_runs);
  // disturbed runs
  unsigned rounds = 1 + (unsigned)ch(3);
  for (unsigned round = 0; round < rounds; ++round) {
    fs::clearFaults();
    fs::removeAll(outAbs); if (hadOld) fs::putFile(outAbs, old);
    static const char* jj[] = {"1", "none", "2", "3", "7", "16", "", "0", "1000"};
    c.jobs = jj[ch(9)];
    Cmd d = c; std::vector<std::string> a; std::string outP = outAbs;
    bool may = false, sure = false; int wantExit = -1; bool res = false;      // may: can fail; sure: must fail
    std::string what;
    zeroAttempts();
    auto sabotaged = [&](int e, const std::string& w) { may = sure = true; wantExit = e; what = w; };
    unsigned k = (unsigned)ch(20);
    std::vector<std::string> extra;
    bool restore = false, below = k < 12 && chance(1, 4);
    if (below) { d.out = std::string(d.out[0] == '/' ? "/sim/out/" : "") + "new/sub/t." + extOf(d.ft); outP = d.out[0] == '/' ? d.out : "/sim/cwd/" + d.out; d.createDir = true; }
    if (k == 12) { In& i = d.in[ch(d.in.size())]; sabotaged(2, "a missing image"); std::string p = i.path[0] == '/' ? i.path : "/sim/cwd/" + i.path; fs::removeAll(p); restore = true; }
    else if (k == 13) { In& i = d.mips.empty() || chance(1, 2) ? d.in[ch(d.in.size())].path.empty() ? d.in[0] : d.in[ch(d.in.size())] : d.mips[ch(d.mips.size())].in; sabotaged(2, "an unreadable image"); fs::putFile(i.path[0] == '/' ? i.path : "/sim/cwd/" + i.path, Bytes(1 + ch(60), '~')); restore = true; }
    else if (k == 14 && (d.useList || d.useMipList)) { if (chance(1, 2)) { fs::removeAll(d.useList ? d.list : d.mipList); sabotaged(1, "a missing list"); restore = true; }
      else { unsigned n = (unsigned)ch(3); if (n) fs::addRule(fs::K_READ, 0, (int64_t)n, 0, 1 + ch(80)); fs::addRule(fs::K_READ, (int64_t)n, chance(1, 2) ? 1 : 1 << 30, EIO); may = true; what = "a list that cannot be read to its end"; } }
    else if (k == 15) { switch (ch(5)) { case 0: extra = {"--no-such-option"}; sabotaged(1, "an unknown option"); break; case 1: d.out = "/sim/out/x.unknown"; d.fileFormat = false; outP = d.out; sabotaged(1, "an unknown file type"); break;
      case 2: { if (d.ft == FTy::PVR) { d.f = Texture::Format::R8G8B8; d.t = Texture::Type::UNorm; d.ft = FTy::DDS; d.fileFormat = true; } else d.ft = d.ft; if (canStore(d.f, d.t, d.ft)) { d.f = Texture::Format::R8G8B8; d.t = Texture::Type::UNorm; d.ft = FTy::DDS; d.fileFormat = true; } sabotaged(1, "a format the file cannot hold"); if (canStore(d.f, d.t, d.ft)) sure = may = false; break; }
      case 3: extra = {"--rotate", "45"}; sabotaged(1, "a bad angle"); break; default: extra = {"--resize", "12"}; sabotaged(1, "a missing argument"); } }
    else if (k == 16 && d.mipmap) {
      d.useMipList = false; bool edge = chance(1, 2); unsigned lv = edge ? x.mips : 20 + (unsigned)ch(10); if (!edge) d.levels = 0;   // the first level beyond the chain, or one far beyond
      if (d.dim == Dim::Dim3D) { d.mips.clear(); for (unsigned z = 0; z < std::max((unsigned)d.in.size() >> lv, 1u); ++z) d.mips.push_back({lv, z, 0, false, d.in[0]}); } else d.mips.push_back({lv, 0, 0, false, d.in[0]});
      sabotaged(2, "a custom mip level out of range");
    }
    else if (k == 17 && d.mipmap && x.mips > 1 && chance(1, 2)) {
      switch (ch(5)) {
        case 0: { unsigned layers = d.kind == K_ARRAY && d.dim != Dim::Dim3D ? (unsigned)d.in.size() : d.kind == K_CUBEARRAY ? (unsigned)d.in.size() / 6 : 1; if (d.dim != Dim::Dim3D && (d.mips.empty() || chance(1, 2))) d.mips.push_back({1, (unsigned)ch(layers), d.kind == K_CUBE || d.kind == K_CUBEARRAY ? (unsigned)ch(6) : 0, false, d.in[0]});
          if (!d.mips.empty()) { d.mips.push_back(d.mips[ch(d.mips.size())]); d.useMipList = chance(1, 2); sabotaged(1, "a custom mip given twice"); } break; }
        case 4: d.mips.clear(); d.mips.push_back({1, 0, 1 + (unsigned)ch(5), false, d.in[0]}); d.useMipList = chance(1, 2); if (d.kind == K_CUBE || d.kind == K_CUBEARRAY) { d.mips.push_back(d.mips[0]); sabotaged(1, "a custom mip given twice"); } else { if (d.dim == Dim::Dim3D && d.in.size() > 3) { d.mips.clear(); d.mips.push_back({1, 0, 0, false, d.in[0]}); sabotaged(1, "custom mips for some slices only"); } else sabotaged(d.dim == Dim::Dim3D ? -1 : 2, "a custom mip for a face of no cube"); } break;
        case 1: d.mips.push_back({0, 0, 0, false, d.in[0]}); d.useMipList = chance(1, 2); sabotaged(1, "a custom mip for the base level"); break;
        case 2: d.mipmap = false; d.mips.clear(); d.mips.push_back({1, 0, 0, false, d.in[0]}); d.useMipList = chance(1, 2); sabotaged(1, "a custom mip without mipmaps"); break;
        default: if (d.kind == K_ARRAY) { d.kind = K_IMAGE; if (d.in.size() == 1) d.in.push_back(d.in[0]); d.useList = true; sabotaged(1, "several images for a plain texture"); } else if (d.kind != K_IMAGE) { d.in.pop_back(); d.useList = true; sabotaged(1, "a face of a cube missing"); } break;
      }
      if (d.useMipList || d.useList) { putInputs(d, style); restore = true; }
    }
    else if (k == 17 && d.mipmap && d.kind == K_CUBEARRAY && x.mips > 1) { d.useMipList = false; d.mips.push_back({1, (unsigned)d.in.size() / 6 + (unsigned)ch(d.in.size() - d.in.size() / 6), (unsigned)ch(6), false, d.in[0]}); sabotaged(-1, "a custom mip for a cube that does not exist"); }
    else if (k == 18) { d.out = std::string("/sim/out/missing/") + "t." + extOf(d.ft); outP = d.out; sabotaged(3, "a missing directory"); }
    else if (k == 19) { if (chance(1, 2)) { d.out = std::string("/sim/out/dir.") + extOf(d.ft); outP = d.out; fs::makeDir(outP); sabotaged(3, "a directory in the place of the output"); } else { d.out = std::string("/sim/ro/t.") + extOf(d.ft); outP = d.out; fs::makeDir("/sim/ro"); fs::setReadOnlyDir("/sim/ro"); sabotaged(3, "a read-only directory"); } }
    else if (k < 5) {
      // the disk: any call the run makes, in any of the ways it can fail
      unsigned nf = 1 + (unsigned)ch(2);
      for (unsigned i = 0; i < nf; ++i) {
        std::vector<int> kinds; for (int q : {fs::K_OPEN_R, fs::K_OPEN_W, fs::K_WRITE, fs::K_READ, fs::K_CLOSE_W}) for (auto& o : ops) if (o.kind == q) { kinds.push_back(q); break; }
        if (below) kinds.push_back(fs::K_MKDIR);
        fs::OpKind kind = (fs::OpKind)kinds[ch(kinds.size())];
        int64_t n = kind == fs::K_MKDIR ? 4 : 0; for (auto& o : ops) if (o.kind == kind) ++n;
        if (below && kind == fs::K_OPEN_W) ++n;
        int64_t nth = (int64_t)ch((uint64_t)n), cnt = chance(1, 3) ? 1 << 30 : 1;
        int err = EIO; uint64_t arg = 0;
        static const int oe[] = {EACCES, EMFILE, ENFILE, EIO, EINTR}, we[] = {ENOSPC, EIO, EDQUOT, EFBIG};
        bool soft = chance(1, 3) && (kind == fs::K_READ || kind == fs::K_WRITE);
        if (soft) { err = chance(1, 2) ? EINTR : 0; arg = 1 + ch(300); cnt = 1 + (int64_t)ch(3); }
        else { may = true; if (kind == fs::K_OPEN_R || kind == fs::K_OPEN_W) err = oe[ch(5)]; else if (kind == fs::K_MKDIR) { static const int me[] = {EACCES, ENOSPC, EIO, EROFS}; err = me[ch(4)]; } else if (kind == fs::K_WRITE) err = we[ch(4)]; else if (kind == fs::K_CLOSE_W) { err = chance(1, 2) ? EIO : ENOSPC; arg = ch(3000); } }
        if (kind == fs::K_READ && !soft && chance(1, 3)) { fs::addRule(kind, nth, 1, 0, 1 + ch(80)); ++nth; logf("fault: the read before it is short"); }
        fs::addRule(kind, nth, cnt, err, arg);
        logf("fault: %s %lld%s %s", fs::opName[kind], (long long)nth, cnt > 1 ? " and following" : "", err ? strerror(err) : "is short");
      }
      what = "disk faults";
    }
    else if (k == 5) { int64_t cap = (int64_t)ch(ref.size() + 1); if (chance(1, 4)) cap = (int64_t)ref.size() - 1 - (int64_t)ch(std::min<size_t>(ref.size(), 4)); fs::setCapacity(cap); may = true; what = "a full disk"; logf("fault: disk full after %lld bytes", (long long)cap); }
    else if (k < 9) { int kinds = k == 6 ? RK_THREAD : k == 7 ? RK_FI : RK_NEW; if (kinds == RK_THREAD) at.thread = 4; drawResourceFault(at, kinds); may = true; res = true; what = "resource faults"; }
    else { what = "another number of jobs"; }
    if (below) what += " below missing directories";
    a = argsOf(d, true, shuffle, longNames);
    a.insert(a.begin(), extra.begin(), extra.end());
    Tree before = fs::snapshot();
    fs::clearOps();
    logf("%s: %s", what.c_str(), joined(a).c_str());
    g_fiFallback = false;
    r = runTool(a);
    int64_t hard = fs::hardFaults();
    bool threadF = g_threadFired > 0, fi = g_fiFired > 0, nw = g_newFired > 0;
    clearResourceFaults();
    std::string bad; for (auto& o : fs::ops()) if (o.injected && o.result < 0 && o.err != EINTR) { bad = o.path; break; }
    fs::clearFaults();
    Bytes got; there = fs::readFile(outP, got);
    if (hard || threadF || fi || nw || sure) nontrivial();
    if (r.threw && !nw) violate("exit-status", "the tool throws: %s", joined(a).c_str());
    Tree after = fs::snapshot(); if (below) { std::string q = outP; for (int i = 0; i < 2; ++i) { q = q.substr(0, q.rfind('/')); after.erase(q); } }
    { std::string t = treeDiff(before, after, outP); if (!t.empty()) violate("side-effect", "with %s, exit %d: %s", what.c_str(), r.exit, t.c_str()); }
    if (r.exit == 0) {
      if (sure) violate("false-success", "exit 0 in spite of %s: %s", what.c_str(), joined(a).c_str());
      if (!there) violate("false-success", "with %s exit 0 without an output file: %s", what.c_str(), joined(a).c_str());
      if (g_fiFallback) { if (got.size() != ref.size()) violate("false-success", "with %s exit 0 but the file %s", what.c_str(), firstDiff(got, ref).c_str()); }
      else if (got != ref) violate("false-success", "with %s (%s) exit 0 but the file is not the one of an undisturbed run, %s: %s", what.c_str(), bad.c_str(), firstDiff(got, ref).c_str(), joined(a).c_str());
    } else {
      if (!sure && !hard && !fi && !nw && !(threadF && false)) violate("false-failure", "with %s exit %d (%s): %s", what.c_str(), r.exit, r.err.substr(0, 200).c_str(), joined(a).c_str());
      if (!looksLikeError(r)) violate("silent-failure", "with %s exit %d without an error message: %s", what.c_str(), r.exit, joined(a).c_str());
      if (wantExit > 0 && r.exit != wantExit) violate("exit-status", "exit %d instead of %d with %s: %s", r.exit, wantExit, what.c_str(), joined(a).c_str());
      if (!res && !bad.empty()) {
        int want = bad == outP || bad == d.out || (below && (outP.compare(0, bad.size(), bad) == 0 || d.out.compare(0, bad.size(), bad) == 0)) ? 3 : (d.useList && bad == d.list) || (d.useMipList && bad == d.mipList) ? 1 : 2;
        if (r.exit != want && hard == 1) violate("exit-status", "exit %d instead of %d when %s cannot be used: %s", r.exit, want, bad.c_str(), joined(a).c_str());
      }
      if (r.exit < 3) { auto b = before.find(outP); Tree n = fs::snapshot(); auto e = n.find(outP); if ((b == before.end()) != (e == n.end()) || (b != before.end() && b->second != e->second)) violate("touched-output", "exit %d, but the output was touched: %s", r.exit, joined(a).c_str()); }
      else if (!hard && !sure && (fi || nw)) { // nothing was written yet, or all of it
        auto b = before.find(outP); Tree n = fs::snapshot(); auto e = n.find(outP);
        if (b != before.end() && e == n.end()) violate("touched-output", "exit %d, but the output was removed", r.exit);
      }
    }
    if (fs::openFds()) violate("fd-left", "%d files are still open", fs::openFds());
    if (liveThreads()) violate("thread-left", "%d threads are still running", liveThreads());
    if (below) fs::removeAll(outP.substr(0, outP.size() - strlen("/sub/t.") - strlen(extOf(d.ft))));
    if (restore) putInputs(c, style);
  }
}

// ---- C10 ----------------------------------------------------------------------------------------
namespace {
// What the kernel makes of an output path: which directories are missing, and where the file ends up.
struct PathPlan { std::vector<std::string> missing; std::string file; bool blocked = false, readOnly = false; };
PathPlan plan(const std::string& out, const std::string& ro) {
  PathPlan p;
  std::vector<std::string> comps; std::string full = out[0] == '/' ? out : "/sim/cwd/" + out;
  std::vector<std::string> parts; std::string cur;
  for (char c : full) { if (c == '/') { if (!cur.empty()) parts.push_back(cur); cur.clear(); } else cur += c; }
  parts.push_back(cur);
  auto path = [&]() { std::string s; for (auto& c : comps) s += "/" + c; return s.empty() ? std::string("/") : s; };
  std::set<std::string> made;
  for (size_t i = 0; i + 1 < parts.size(); ++i) {
    if (parts[i] == ".") continue;
    if (parts[i] == "..") { if (!comps.empty()) comps.pop_back(); continue; }
    comps.push_back(parts[i]);
    std::string s = path();
    if (made.count(s)) continue;
    if (!fs::exists(s)) { if (!ro.empty() && s.compare(0, ro.size(), ro) == 0) { p.readOnly = true; break; } p.missing.push_back(s); made.insert(s); }
    else if (!fs::isDir(s)) { p.blocked = true; break; }
  }
  if (!p.blocked && !p.readOnly) { comps.push_back(parts.back()); p.file = path(); if (!ro.empty() && p.file.compare(0, ro.size() + 1, ro + "/") == 0 && !fs::exists(p.file)) p.readOnly = true; }
  return p;
}
std::string drawOut(const char* ext) {
  std::string s = (const char*[]){"/sim/", "", "./", "../", "/sim/o/", "//sim//"}[ch(6)];
  static const char* c[] = {"a", "b", "c d", "\xc3\xa4", ".h", "e.dds"};
  unsigned n = (unsigned)ch(6);
  for (unsigned i = 0; i < n; ++i) {
    s += c[ch(6)]; s += chance(1, 8) ? "//" : "/";
    if (chance(1, 10)) s += "./";
    if (i && chance(1, 12)) s += "../";
  }
  return s + "t." + ext;
}
}
void runC10() {
  fs::reset();
  g_cores = 1; drawSched();
  fs::makeDir("/sim/in"); fs::makeDir("/sim/cwd/in"); fs::makeDir("/sim/o");
  Cmd c = drawCmd(true);
  c.ft = (FTy)(1 + ch(3)); if (!canStore(c.f, c.t, c.ft)) c.ft = FTy::PVR;
  putInputs(c, 0);
  Expect x; build(c, x);
  if (!x.ok) violate("harness", "the library itself refuses the %s", x.why.c_str());
  unsigned tools = chance(1, 3) ? 2 + (unsigned)ch(2) : 1;      // several runs of the tool at the same time
  startSchedule();
  unsigned rounds = 1 + (unsigned)ch(3);
  for (unsigned round = 0; round < rounds; ++round) {
    fs::reset(); fs::makeDir("/sim/in"); fs::makeDir("/sim/cwd/in"); fs::makeDir("/sim/o"); putInputs(c, 0);
    std::vector<std::string> outs;
    for (unsigned i = 0; i < tools; ++i) {       // different files, mostly below the same directories
      std::string ext = extOf(c.ft), o = i && chance(3, 4) ? outs[0] : drawOut(ext.c_str());
      if (i) o = o.substr(0, o.size() - ext.size() - 1) + std::to_string(i) + "." + ext;
      outs.push_back(o);
    }
    // some of what the path needs may be there, or in the way
    std::string ro;
    { PathPlan p = plan(outs[0], ""); unsigned have = p.missing.empty() ? 0 : (unsigned)ch(p.missing.size() + 1); if (chance(1, 2)) have = 0;
      for (unsigned i = 0; i < have; ++i) { fs::makeDir(p.missing[i]); fs::putFile(p.missing[i] + "/keep.txt", Bytes(5, (uint8_t)i)); }
      int k = (int)ch(8);
      if (k == 5 && have < p.missing.size()) { fs::putFile(p.missing[have], Bytes(3, 1)); logf("a file is at %s", p.missing[have].c_str()); }
      else if (k == 6 && have > 0) { ro = p.missing[have - 1]; fs::setReadOnlyDir(ro); logf("%s is read-only", ro.c_str()); }
      else if (k == 7 && have == p.missing.size() && !p.file.empty()) { fs::putFile(p.file, Bytes(1000, 7)); logf("the file exists"); } }
    bool create = chance(5, 6);
    Tree before = fs::snapshot();
    std::vector<PathPlan> pl; for (auto& o : outs) pl.push_back(plan(o, ro));
    std::set<std::string> missing; for (auto& p : pl) missing.insert(p.missing.begin(), p.missing.end());
    fs::clearFaults(); fs::clearOps(); zeroAttempts();
    // one disturbance
    int k = (int)ch(9); bool sabotage = false; int wantExit = -1; bool race = false, wr = false;
    std::vector<std::string> extra; Cmd d = c;
    bool restore = false;
    int64_t prefixes = (int64_t)std::count(outs[0].begin() + 1, outs[0].end(), '/');
    switch (k) {
      case 0: { static const int e[] = {EACCES, ENOSPC, EROFS, EMLINK, EIO, EDQUOT}; int er = e[ch(6)]; int64_t nth = (int64_t)ch((uint64_t)prefixes * tools + 1); fs::addRule(fs::K_MKDIR, nth, chance(1, 2) ? 1 : 1 << 30, er); logf("fault: creating directory %lld fails with errno %d", (long long)nth, er); break; }
      case 1: { int64_t nth = (int64_t)ch((uint64_t)prefixes + 1); race = chance(1, 2); fs::setMkdirRace(nth, race); logf("fault: another process creates directory %lld%s first", (long long)nth, race ? " and all following ones" : ""); break; }
      case 2: switch (ch(3)) {
          case 0: fs::removeAll(c.in[0].path[0] == '/' ? c.in[0].path : "/sim/cwd/" + c.in[0].path); wantExit = 2; restore = true; logf("fault: no input"); break;
          case 1: extra = {"--rotate", "1"}; wantExit = 1; logf("fault: bad arguments"); break;
          default: d.f = Texture::Format::R8G8B8; d.t = Texture::Type::UNorm; d.ft = FTy::DDS; d.fileFormat = true; wantExit = 1; logf("fault: a format the file cannot hold"); break;
        }
        sabotage = true; break;
      case 3: fs::addRule(fs::K_WRITE, (int64_t)ch(2), 1 << 30, chance(1, 2) ? ENOSPC : EIO); wr = true; logf("fault: writing fails"); break;
      case 4: g_fiFailAt = (int64_t)ch(3); g_fiFailCount = 1ll << 40; logf("fault: the image library fails from call %lld on", (long long)g_fiFailAt); break;
      default: break;
    }
    if (k == 0 || k == 1) nontrivial();
    std::vector<ToolRun> r(tools);
    std::vector<std::vector<std::string>> a(tools);
    for (unsigned i = 0; i < tools; ++i) { Cmd e = d; e.out = outs[i]; e.createDir = create; e.log = c.log; a[i] = argsOf(e, false, 0, false); a[i].insert(a[i].begin(), extra.begin(), extra.end()); logf("%s", joined(a[i]).c_str()); }
    before = fs::snapshot();
    std::string err;
    if (tools == 1) r[0] = runTool(a[0]);
    else {
      Capture cap;
      for (unsigned i = 0; i < tools; ++i) spawn([&, i]() { callTool(a[i], r[i]); });
      joinAll();
      err = cap.se;
      for (unsigned i = 0; i < tools; ++i) { r[i].err = err; logf("tool %u -> exit %d", i, r[i].exit); }
      nontrivial();
    }
    bool fi = g_fiFired > 0, mk = fs::mkdirFaults() > 0, hard = fs::hardFaults() > 0;
    clearResourceFaults();
    bool mkExisting = false;                     // the failing call was for a directory that was there: not a real failure
    for (auto& o : fs::ops()) if (o.kind == fs::K_MKDIR && o.injected && o.result < 0 && fs::isDir(o.path[0] == '/' ? o.path : "/sim/cwd/" + o.path)) mkExisting = true;
    fs::clearFaults();
    Tree after = fs::snapshot();
    std::set<std::string> files; for (auto& p : pl) if (!p.file.empty()) files.insert(p.file);
    for (auto& b : before) if (!files.count(b.first)) { auto it = after.find(b.first); if (it == after.end()) violate("removed", "%s was removed", b.first.c_str()); if (it->second != b.second) violate("altered", "%s was changed", b.first.c_str()); }
    bool anyCreated = false;
    for (auto& n : after) if (!before.count(n.first) && !files.count(n.first)) {
      anyCreated = true;
      if (!missing.count(n.first)) violate("stray", "%s was created for %s", n.first.c_str(), joined(outs).c_str());
    }
    if (anyCreated && !create && k != 1) violate("stray", "directories were created without --create-dir for %s", joined(outs).c_str());
    if (anyCreated && sabotage) violate("stray", "directories were created although the run failed with exit %d: %s", r[0].exit, joined(a[0]).c_str());
    if (anyCreated && fi && tools == 1 && r[0].exit) violate("stray", "directories were created although the image could not be processed");
    for (unsigned i = 0; i < tools; ++i) {
      const PathPlan& p = pl[i];
      if (r[i].threw) violate("exit-status", "the tool throws");
      if (r[i].exit && !looksLikeError(r[i])) violate("silent-failure", "exit %d without an error message: %s", r[i].exit, joined(a[i]).c_str());
      if (sabotage) { if (r[i].exit != wantExit) violate("exit-status", "exit %d instead of %d: %s", r[i].exit, wantExit, joined(a[i]).c_str()); continue; }
      bool possible = !p.blocked && !p.readOnly && (create || p.missing.empty());
      if (r[i].exit == 0) {
        Bytes got; bool there = !p.file.empty() && fs::readFile(p.file, got);
        if (!there) violate("false-success", "exit 0 but there is no file: %s", joined(a[i]).c_str());
        if (!g_fiFallback && got != x.bytes) violate("false-success", "exit 0 but the file %s: %s", firstDiff(got, x.bytes).c_str(), joined(a[i]).c_str());
        for (auto& m : p.missing) if (!fs::isDir(m)) violate("false-success", "exit 0 but %s is not a directory", m.c_str());
        if (!possible && tools == 1 && k != 1) violate("false-success", "exit 0 although it cannot be written: %s", joined(a[i]).c_str());
        if (!p.missing.empty()) nontrivial();
        if (!p.missing.empty() && k == 1) count(P_dir_race_lost);
      } else {
        if (possible && !hard && !fi) violate("false-failure", "exit %d (%s) although everything it needs can be created%s: %s", r[i].exit, r[i].err.substr(0, 160).c_str(), k == 1 ? " or was by another process" : "", joined(a[i]).c_str());
        if (!fi && r[i].exit != 3) violate("exit-status", "exit %d instead of 3: %s", r[i].exit, joined(a[i]).c_str());
      }
      if (mk && !mkExisting && tools == 1 && r[i].exit == 0) violate("false-success", "exit 0 although a directory could not be created: %s", joined(a[i]).c_str());
    }
    (void)wr;
    if (fs::openFds()) violate("fd-left", "%d files are still open", fs::openFds());
    if (restore) putInputs(c, 0);
    // afterwards it works, with whatever was left behind
    if (create && chance(1, 2) && !pl[0].blocked && !pl[0].readOnly) {
      Cmd e = c; e.out = outs[0]; e.createDir = true;
      ToolRun q = runTool(argsOf(e, false, 0, false));
      Bytes got; fs::readFile(pl[0].file, got);
      if (q.exit || got != x.bytes) violate("no-recovery", "running again exits with %d (%s)", q.exit, q.err.c_str());
      count(P_retry_ok);
    }
  }
}

// ---- C20 ----------------------------------------------------------------------------------------
// A run that is killed does no lasting damage.
namespace {
// Everything but the output and the directories above it is as before.
std::string damage(const Tree& before, const Tree& now, const std::string& out, bool made) {
  for (auto& x : before) { if (x.first == out) continue; auto it = now.find(x.first); if (it == now.end()) return x.first + " was removed"; if (it->second != x.second) return x.first + " was changed"; }
  if (!made) for (auto& x : now) if (!before.count(x.first) && x.first != out && fs::isDir(x.first)) return "the directory " + x.first + " was created";
  for (auto& x : now) if (!before.count(x.first) && x.first != out && fs::isDir(x.first) && out.compare(0, x.first.size() + 1, x.first + "/")) return "the directory " + x.first + " was created";
  return "";
}

// The power fails as well: what was not on the disk yet (nothing is ever flushed to it) is lost in part.
void losePower(const std::string& name) {
  unsigned kind = (unsigned)ch(9); uint64_t at = ch(1u << 20);
  Bytes d;
  if (kind < 6 || !fs::readFile(name, d)) return;
  size_t from = d.empty() ? 0 : at % (d.size() + 1);
  if (at & 1) from = from / 512 * 512;
  if (kind == 6) d.resize(from);                                        // the length did not make it
  else if (kind == 7) std::fill(d.begin() + (ptrdiff_t)from, d.end(), 0);  // the length did, the data did not
  else { size_t to = std::min(d.size(), from + 512); std::fill(d.begin() + (ptrdiff_t)from, d.begin() + (ptrdiff_t)to, 0); }
  fs::putFile(name, d); count(F_power_loss);
  logf("the power fails: %zu bytes", d.size());
}

void killedTool() {
  fs::makeDir("/sim/in"); fs::makeDir("/sim/cwd/in"); fs::makeDir("/sim/out");
  Cmd c = drawCmd(chance(1, 2));
  bool below = chance(1, 2);
  std::string leaf = std::string("t.") + extOf(c.ft), top = chance(1, 2) ? "/sim/out/" : "";
  c.out = top + (below ? "new/sub/" : "") + leaf; c.createDir = below || chance(1, 4);
  std::string outAbs = c.out[0] == '/' ? c.out : "/sim/cwd/" + c.out, topAbs = (top.empty() ? std::string("/sim/cwd/") : top) + "new";
  unsigned style = (unsigned)ch(128); uint64_t shuffle = ch(1000); bool longNames = chance(1, 2);
  putInputs(c, style);
  static const char* jj[] = {"1", "none", "2", "3", "16"};
  std::vector<std::string> plain = argsOf(c, false, 0, false);
  startSchedule();
  Expect x; build(c, x);
  if (!x.ok) { logf("%s", joined(plain).c_str()); violate("harness", "the library itself refuses the %s: %s", x.why.c_str(), joined(plain).c_str()); }
  c.jobs = "1";
  std::vector<std::string> args = argsOf(c, true, shuffle, longNames);
  logf("%s", joined(args).c_str());
  bool hadOld = !below && chance(1, 2); Bytes old;
  if (hadOld) { old.assign(1 + ch(3) * 5000, 0xEE); }
  if (below && chance(1, 3)) fs::makeDir(topAbs);
  fs::clearFaults(); fs::clearOps();
  Tree t0 = fs::snapshot();
  if (hadOld) fs::putFile(outAbs, old);
  fs::setKill(1ll << 40, 0);
  ToolRun r = runTool(args);
  int64_t changes = fs::changes(); fs::clearFaults();
  Bytes ref; bool there = fs::readFile(outAbs, ref);
  if (r.exit != 0 || !there) violate("false-failure", "exit %d (%s) for: %s", r.exit, r.err.substr(0, 200).c_str(), joined(args).c_str());
  if (ref != x.bytes) violate("wrong-output", "the file is not the requested texture, %s: %s", firstDiff(ref, x.bytes).c_str(), joined(args).c_str());
  count(P_faultfree_runs);
  unsigned rounds = 1 + (unsigned)ch(3);
  for (unsigned round = 0; round < rounds; ++round) {
    // back to the beginning
    fs::removeAll(outAbs); if (below) { if (t0.count(topAbs)) fs::removeAll(topAbs + "/sub"); else fs::removeAll(topAbs); }
    if (hadOld) fs::putFile(outAbs, old);
    Tree before = fs::snapshot();
    unsigned kills = 1 + (unsigned)ch(2);
    bool any = false;
    for (unsigned k = 0; k < kills; ++k) {
      fs::clearOps();
      fs::setKill((int64_t)ch((uint64_t)changes + 1), ch(100000));
      c.jobs = jj[ch(5)];
      ToolRun q = runTool(argsOf(c, true, shuffle, longNames));
      any |= fs::killed();
      fs::clearFaults();
      (void)q;
      if (fs::killed() || fs::openFds()) violate("harness", "the killed process still has files");
      std::string d = damage(before, fs::snapshot(), outAbs, below);
      if (!d.empty()) violate("damage", "after a run was killed, %s: %s", d.c_str(), joined(args).c_str());
      Bytes left; bool is = fs::readFile(outAbs, left);
      logf("killed: the output %s, %zu of %zu bytes", is ? "exists" : "does not exist", left.size(), ref.size());
      if (hadOld && !is) logf("the old output is gone");
    }
    if (any) { nontrivial(); losePower(outAbs); }
    if (fs::exists(outAbs)) count(P_partial_output);
    // the same command again
    c.jobs = jj[ch(5)];
    std::vector<std::string> a = argsOf(c, true, shuffle, longNames);
    ToolRun q = runTool(a);
    Bytes got; bool is = fs::readFile(outAbs, got);
    if (q.exit != 0) violate("no-recovery", "after a run was killed, the same command exits with %d (%s): %s", q.exit, q.err.substr(0, 200).c_str(), joined(a).c_str());
    if (!is || got != ref) violate("no-recovery", "after a run was killed, the same command succeeds but the output is not the one of an undisturbed run, %s: %s", firstDiff(got, ref).c_str(), joined(a).c_str());
    std::string d = damage(before, fs::snapshot(), outAbs, below);
    if (!d.empty()) violate("damage", "%s by: %s", d.c_str(), joined(a).c_str());
    count(P_retry_ok);
  }
}

// The library's own saves.
void killedSave() {
  startSchedule();
  fs::makeDir("/sim/o");
  bool image = chance(1, 2);
  Image i; Texture t; Spec s; std::string name; Texture::FileType ft = Texture::FileType::DDS; Bytes ref;
  if (image) {
    static const Image::Format ff[] = {Image::Format::RGBA8, Image::Format::RGB8, Image::Format::Gray8};
    i = mkImage(ff[ch(3)], 1 + (unsigned)ch(60), 1 + (unsigned)ch(60), ColorSpace::Linear, ch(100));
    static const char* ext[] = {"png", "tga", "bmp", "tif"}; name = std::string("/sim/o/i.") + ext[ch(4)];
    { Sut su; if (!i.save(ref, name.c_str() + 9)) { Harness h; violate("refused", "saving to memory failed"); } }
  } else {
    SpecOpt o; o.maxDim = 40; o.maxMips = 3; s = drawSpec(o);
    do { ft = (Texture::FileType)(1 + ch(3)); } while (0);
    if (!canStore(s.f, s.t, ft)) { s.f = Texture::Format::R8G8B8A8; s.t = Texture::Type::UNorm; }
    buildTexture(t, s);
    { Sut su; if (!convertTexture(t, s, 1)) { Harness h; violate("refused", "the conversion was refused: %s", s.str().c_str()); } }
    name = std::string("/sim/o/t.") + extOf(ft);
    { Sut su; if (t.save(ref, ft) != Texture::SaveResult::Success) { Harness h; violate("refused", "saving to memory failed"); } }
  }
  fs::putFile("/sim/o/other", Bytes(100, 7));
  auto save = [&]() { Sut su; return image ? i.save(name.c_str()) : t.save(name.c_str(), ft) == Texture::SaveResult::Success; };
  bool hadOld = chance(1, 2);
  auto back = [&]() { fs::removeAll(name); if (hadOld) fs::putFile(name, Bytes(7000, 0xEE)); };
  back(); fs::clearFaults(); fs::setKill(1ll << 40, 0);
  if (!save()) violate("refused", "saving to %s failed", name.c_str());
  int64_t changes = fs::changes(); fs::clearFaults();
  for (unsigned round = 0, rounds = 1 + (unsigned)ch(4); round < rounds; ++round) {
    back(); Tree before = fs::snapshot();
    fs::setKill((int64_t)ch((uint64_t)changes + 1), ch(100000));
    save();
    if (fs::killed()) nontrivial();
    fs::clearFaults();
    { std::string d = damage(before, fs::snapshot(), name, false); if (!d.empty()) violate("damage", "after a save was killed, %s", d.c_str()); }
    if (chance(1, 2)) losePower(name);
    if (!save()) violate("no-recovery", "after a save to %s was killed, the next one fails", name.c_str());
    Bytes got; fs::readFile(name, got);
    if (got != ref) violate("no-recovery", "after a save to %s was killed, the next one does not store the same bytes: %s", name.c_str(), firstDiff(got, ref).c_str());
    count(P_retry_ok);
  }
}
}

void runC20() {
  fs::reset();
  g_cores = drawCores(); count(F_cores_reported);
  drawSched();
  if (chance(1, 3)) killedSave(); else killedTool();
}
