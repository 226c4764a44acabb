// Shared vocabulary of the workloads: random textures and images, observation, custom sinks and sources.
#pragma once
#include "rt.h"
#include "work.h"
#include <cuttlefish/Image.h>
#include <cuttlefish/Texture.h>
#include <cstring>
#include <istream>
#include <ostream>
#include <new>
#include <stdexcept>

using namespace sim;
using cuttlefish::Image;
using cuttlefish::Texture;
using cuttlefish::ColorSpace;
using cuttlefish::ColorRGBAd;
typedef std::vector<uint8_t> Bytes;
typedef Texture::Dimension Dim;

uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hashBytes(const Bytes& b) { return hashBytes(b.data(), b.size(), b.size() + 77); }
std::string fmtStr(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---- formats: the simulator's own table, from the documented layouts ---------------------------
struct FmtInfo { Texture::Format f; const char* name; unsigned bytes; unsigned types; };   // types: bit per Texture::Type
extern const FmtInfo kFormats[];
extern const unsigned kFormatCount;
unsigned fmtBytes(Texture::Format f);
const char* fmtName(Texture::Format f);
bool fmtValid(Texture::Format f, Texture::Type t);
struct FT { Texture::Format f; Texture::Type t; };
const std::vector<FT>& fmtPairs();
const char* dimName(Dim d);
const char* typeName(Texture::Type t);
const char* resultName(Texture::SaveResult r);
const char* fileTypeName(Texture::FileType t);

// ---- images -------------------------------------------------------------------------------------
unsigned imgBits(Image::Format f);
const char* imgName(Image::Format f);
Image mkImage(Image::Format f, unsigned w, unsigned h, ColorSpace cs, uint64_t seed);   // made inside a Sut scope
void fillPixels(Image& img, uint64_t seed);
uint64_t imgHash(const Image& img);          // size, format, colour space and pixels
std::string imgDesc(const Image& img);
// Every query of a (valid or invalid) image, in and out of range; violates on incoherence.
void checkImage(const Image& img, const char* where);

// ---- textures -----------------------------------------------------------------------------------
struct Spec {
  Dim dim; unsigned w, h, depth, mips; ColorSpace cs; bool genMips;
  Texture::Format f; Texture::Type t; Texture::Quality q; Texture::Alpha a; Texture::ColorMask m;
  uint64_t seed; Image::ResizeFilter filter;
  std::string str() const;
};
struct SpecOpt { unsigned maxDim = 48; bool cubes = true, arrays = true, d3 = true, d1 = true; unsigned maxMips = 8; bool ktxSafe = false, odd = false; unsigned oddOneIn = 8; };
Spec drawSpec(const SpecOpt& o);
void drawFormat(Spec& s);                    // format, type, quality, alpha, mask
unsigned specMaxMips(const Spec& s);
unsigned specDepth(const Spec& s, unsigned mip);
unsigned specFaces(const Spec& s);
Image specImage(const Spec& s, unsigned mip, unsigned d, unsigned f);
// Fills all levels (or generates mips) without faults; fatal if that fails.
void buildTexture(Texture& t, const Spec& s);
bool fillTexture(Texture& t, const Spec& s); // set all images; false if one is refused
bool convertTexture(Texture& t, const Spec& s, unsigned threads);   // in Sut scope; may throw
// an encoded image file, and the picture in it (top row first; empty for kinds without colours)
struct Enc { std::string ext, what; Bytes data; bool must; unsigned w, h; std::vector<ColorRGBAd> px; };
const std::vector<Enc>& imageCorpus();
typedef std::vector<Bytes> TexData;          // [mip][depth][face] flattened
TexData texData(const Texture& t);
uint64_t texHash(const Texture& t, bool images = true);     // everything observable
// Checks internal agreement of the queries; expectConverted: -1 unknown, 0, 1
void checkTexture(const Texture& t, const char* where, int expectConverted = -1);
void checkNotConverted(Texture& t, const char* where);
unsigned drawThreads();
unsigned drawCores();
std::string firstDiff(const TexData& a, const TexData& b);
std::string firstDiff(const Bytes& a, const Bytes& b);

// ---- streams ------------------------------------------------------------------------------------
struct SinkBuf : std::streambuf {
  Bytes data;                 // what was accepted
  int64_t limit = -1;         // refuse everything after that many accepted bytes
  int mode = 0;               // 0 xsputn takes all, 1 short xsputn, 2 byte by byte, 3 internal buffer, 4 throws on refusal
  size_t chunk = 7;
  bool seekable = false;
  bool refused = false;
  char buf[64];
  size_t base = 0;            // position before the library writes (prefix length)
  SinkBuf() {}
  void setBuffered() { setp(buf, buf + sizeof buf); }
  std::streamsize put(const char* s, std::streamsize n);
  std::streamsize xsputn(const char* s, std::streamsize n) override;
  int overflow(int c) override;
  int sync() override;
  pos_type seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode) override;
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
  size_t pos = 0;
  bool flushBuf();
};
struct SourceBuf : std::streambuf {
  Bytes data; size_t pos = 0; size_t chunk = 64; bool seekable = true; int64_t failAt = -1; int failMode = 0; // 0: end of data, 1: throws
  std::vector<char> buf; uint64_t reads = 0, seeks = 0; bool failed = false; size_t startOffset = 0;
  int underflow() override;
  pos_type seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode) override;
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
  std::streamsize showmanyc() override { return 0; }
};

// ---- fault helpers ------------------------------------------------------------------------------
struct Attempts { int64_t thread, nw, fi; };
void zeroAttempts();
Attempts attempts();
enum ResKind { RK_THREAD = 1, RK_NEW = 2, RK_FI = 4 };
// Draw a resource fault given the counts seen in an undisturbed rehearsal. Returns the kind armed (0: none).
int drawResourceFault(const Attempts& a, int kinds);
bool resourceFired();

extern void runC01(), runC02(), runC03(), runC04(), runC05(), runC06(), runC07(), runC08(), runC09(), runC10(), runC11(), runC12(), runC13(), runC14(), runC19(), runC20(), runC21();
