// generated by tools/mkwraps.py
void __real_FreeImage_Initialise(BOOL load_local_plugins_only);
void __wrap_FreeImage_Initialise(BOOL load_local_plugins_only) {
  FiScope s; return __real_FreeImage_Initialise(load_local_plugins_only);
}
void __real_FreeImage_DeInitialise();
void __wrap_FreeImage_DeInitialise() {
  FiScope s; return __real_FreeImage_DeInitialise();
}
FIBITMAP* __real_FreeImage_Allocate(int width, int height, int bpp, unsigned red_mask, unsigned green_mask, unsigned blue_mask);
FIBITMAP* __wrap_FreeImage_Allocate(int width, int height, int bpp, unsigned red_mask, unsigned green_mask, unsigned blue_mask) {
  if (sim::fiFault("FreeImage_Allocate")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_Allocate(width, height, bpp, red_mask, green_mask, blue_mask); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_AllocateT(FREE_IMAGE_TYPE type, int width, int height, int bpp, unsigned red_mask, unsigned green_mask, unsigned blue_mask);
FIBITMAP* __wrap_FreeImage_AllocateT(FREE_IMAGE_TYPE type, int width, int height, int bpp, unsigned red_mask, unsigned green_mask, unsigned blue_mask) {
  if (sim::fiFault("FreeImage_AllocateT")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_AllocateT(type, width, height, bpp, red_mask, green_mask, blue_mask); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_Clone(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_Clone(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_Clone")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_Clone(dib); sim::fiNew(b); return b;
}
void __real_FreeImage_Unload(FIBITMAP *dib);
void __wrap_FreeImage_Unload(FIBITMAP *dib) {
  sim::fiUnload(dib); FiScope s; __real_FreeImage_Unload(dib);
}
FIBITMAP* __real_FreeImage_Load(FREE_IMAGE_FORMAT fif, const char *filename, int flags);
FIBITMAP* __wrap_FreeImage_Load(FREE_IMAGE_FORMAT fif, const char *filename, int flags) {
  if (sim::fiFault("FreeImage_Load")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_Load(fif, filename, flags); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_LoadU(FREE_IMAGE_FORMAT fif, const wchar_t *filename, int flags);
FIBITMAP* __wrap_FreeImage_LoadU(FREE_IMAGE_FORMAT fif, const wchar_t *filename, int flags) {
  if (sim::fiFault("FreeImage_LoadU")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_LoadU(fif, filename, flags); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_LoadFromHandle(FREE_IMAGE_FORMAT fif, FreeImageIO *io, fi_handle handle, int flags);
FIBITMAP* __wrap_FreeImage_LoadFromHandle(FREE_IMAGE_FORMAT fif, FreeImageIO *io, fi_handle handle, int flags) {
  if (sim::fiFault("FreeImage_LoadFromHandle")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_LoadFromHandle(fif, io, handle, flags); sim::fiNew(b); return b;
}
BOOL __real_FreeImage_Save(FREE_IMAGE_FORMAT fif, FIBITMAP *dib, const char *filename, int flags);
BOOL __wrap_FreeImage_Save(FREE_IMAGE_FORMAT fif, FIBITMAP *dib, const char *filename, int flags) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_Save")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_Save(fif, dib, filename, flags);
}
BOOL __real_FreeImage_SaveU(FREE_IMAGE_FORMAT fif, FIBITMAP *dib, const wchar_t *filename, int flags);
BOOL __wrap_FreeImage_SaveU(FREE_IMAGE_FORMAT fif, FIBITMAP *dib, const wchar_t *filename, int flags) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_SaveU")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_SaveU(fif, dib, filename, flags);
}
BOOL __real_FreeImage_SaveToHandle(FREE_IMAGE_FORMAT fif, FIBITMAP *dib, FreeImageIO *io, fi_handle handle, int flags);
BOOL __wrap_FreeImage_SaveToHandle(FREE_IMAGE_FORMAT fif, FIBITMAP *dib, FreeImageIO *io, fi_handle handle, int flags) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_SaveToHandle")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_SaveToHandle(fif, dib, io, handle, flags);
}
FIMEMORY* __real_FreeImage_OpenMemory(BYTE *data, DWORD size_in_bytes);
FIMEMORY* __wrap_FreeImage_OpenMemory(BYTE *data, DWORD size_in_bytes) {
  if (sim::fiFault("FreeImage_OpenMemory")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIMEMORY* m = __real_FreeImage_OpenMemory(data, size_in_bytes); sim::fiNewMem(m); return m;
}
void __real_FreeImage_CloseMemory(FIMEMORY *stream);
void __wrap_FreeImage_CloseMemory(FIMEMORY *stream) {
  sim::fiCloseMem(stream); FiScope s; __real_FreeImage_CloseMemory(stream);
}
FIBITMAP* __real_FreeImage_LoadFromMemory(FREE_IMAGE_FORMAT fif, FIMEMORY *stream, int flags);
FIBITMAP* __wrap_FreeImage_LoadFromMemory(FREE_IMAGE_FORMAT fif, FIMEMORY *stream, int flags) {
  if (sim::fiFault("FreeImage_LoadFromMemory")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_LoadFromMemory(fif, stream, flags); sim::fiNew(b); return b;
}
BOOL __real_FreeImage_SaveToMemory(FREE_IMAGE_FORMAT fif, FIBITMAP *dib, FIMEMORY *stream, int flags);
BOOL __wrap_FreeImage_SaveToMemory(FREE_IMAGE_FORMAT fif, FIBITMAP *dib, FIMEMORY *stream, int flags) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_SaveToMemory")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_SaveToMemory(fif, dib, stream, flags);
}
BOOL __real_FreeImage_SeekMemory(FIMEMORY *stream, long offset, int origin);
BOOL __wrap_FreeImage_SeekMemory(FIMEMORY *stream, long offset, int origin) {
  FiScope s; return __real_FreeImage_SeekMemory(stream, offset, origin);
}
BOOL __real_FreeImage_AcquireMemory(FIMEMORY *stream, BYTE **data, DWORD *size_in_bytes);
BOOL __wrap_FreeImage_AcquireMemory(FIMEMORY *stream, BYTE **data, DWORD *size_in_bytes) {
  FiScope s; return __real_FreeImage_AcquireMemory(stream, data, size_in_bytes);
}
unsigned __real_FreeImage_ReadMemory(void *buffer, unsigned size, unsigned count, FIMEMORY *stream);
unsigned __wrap_FreeImage_ReadMemory(void *buffer, unsigned size, unsigned count, FIMEMORY *stream) {
  FiScope s; return __real_FreeImage_ReadMemory(buffer, size, count, stream);
}
unsigned __real_FreeImage_WriteMemory(const void *buffer, unsigned size, unsigned count, FIMEMORY *stream);
unsigned __wrap_FreeImage_WriteMemory(const void *buffer, unsigned size, unsigned count, FIMEMORY *stream) {
  FiScope s; return __real_FreeImage_WriteMemory(buffer, size, count, stream);
}
FREE_IMAGE_FORMAT __real_FreeImage_GetFIFFromFilename(const char *filename);
FREE_IMAGE_FORMAT __wrap_FreeImage_GetFIFFromFilename(const char *filename) {
  FiScope s; return __real_FreeImage_GetFIFFromFilename(filename);
}
BOOL __real_FreeImage_FIFSupportsReading(FREE_IMAGE_FORMAT fif);
BOOL __wrap_FreeImage_FIFSupportsReading(FREE_IMAGE_FORMAT fif) {
  FiScope s; return __real_FreeImage_FIFSupportsReading(fif);
}
BOOL __real_FreeImage_FIFSupportsWriting(FREE_IMAGE_FORMAT fif);
BOOL __wrap_FreeImage_FIFSupportsWriting(FREE_IMAGE_FORMAT fif) {
  FiScope s; return __real_FreeImage_FIFSupportsWriting(fif);
}
BOOL __real_FreeImage_FIFSupportsExportBPP(FREE_IMAGE_FORMAT fif, int bpp);
BOOL __wrap_FreeImage_FIFSupportsExportBPP(FREE_IMAGE_FORMAT fif, int bpp) {
  FiScope s; return __real_FreeImage_FIFSupportsExportBPP(fif, bpp);
}
BOOL __real_FreeImage_FIFSupportsExportType(FREE_IMAGE_FORMAT fif, FREE_IMAGE_TYPE type);
BOOL __wrap_FreeImage_FIFSupportsExportType(FREE_IMAGE_FORMAT fif, FREE_IMAGE_TYPE type) {
  FiScope s; return __real_FreeImage_FIFSupportsExportType(fif, type);
}
FREE_IMAGE_FORMAT __real_FreeImage_GetFileType(const char *filename, int size);
FREE_IMAGE_FORMAT __wrap_FreeImage_GetFileType(const char *filename, int size) {
  FiScope s; return __real_FreeImage_GetFileType(filename, size);
}
FREE_IMAGE_FORMAT __real_FreeImage_GetFileTypeFromHandle(FreeImageIO *io, fi_handle handle, int size);
FREE_IMAGE_FORMAT __wrap_FreeImage_GetFileTypeFromHandle(FreeImageIO *io, fi_handle handle, int size) {
  FiScope s; return __real_FreeImage_GetFileTypeFromHandle(io, handle, size);
}
FREE_IMAGE_FORMAT __real_FreeImage_GetFileTypeFromMemory(FIMEMORY *stream, int size);
FREE_IMAGE_FORMAT __wrap_FreeImage_GetFileTypeFromMemory(FIMEMORY *stream, int size) {
  FiScope s; return __real_FreeImage_GetFileTypeFromMemory(stream, size);
}
FIBITMAP* __real_FreeImage_GetThumbnail(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_GetThumbnail(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_GetThumbnail")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_GetThumbnail(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertTo4Bits(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertTo4Bits(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertTo4Bits")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertTo4Bits(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertTo8Bits(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertTo8Bits(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertTo8Bits")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertTo8Bits(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertToGreyscale(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertToGreyscale(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertToGreyscale")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertToGreyscale(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertTo16Bits555(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertTo16Bits555(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertTo16Bits555")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertTo16Bits555(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertTo16Bits565(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertTo16Bits565(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertTo16Bits565")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertTo16Bits565(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertTo24Bits(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertTo24Bits(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertTo24Bits")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertTo24Bits(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertTo32Bits(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertTo32Bits(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertTo32Bits")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertTo32Bits(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ColorQuantize(FIBITMAP *dib, FREE_IMAGE_QUANTIZE quantize);
FIBITMAP* __wrap_FreeImage_ColorQuantize(FIBITMAP *dib, FREE_IMAGE_QUANTIZE quantize) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ColorQuantize")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ColorQuantize(dib, quantize); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ColorQuantizeEx(FIBITMAP *dib, FREE_IMAGE_QUANTIZE quantize, int PaletteSize, int ReserveSize, RGBQUAD *ReservePalette);
FIBITMAP* __wrap_FreeImage_ColorQuantizeEx(FIBITMAP *dib, FREE_IMAGE_QUANTIZE quantize, int PaletteSize, int ReserveSize, RGBQUAD *ReservePalette) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ColorQuantizeEx")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ColorQuantizeEx(dib, quantize, PaletteSize, ReserveSize, ReservePalette); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_Threshold(FIBITMAP *dib, BYTE T);
FIBITMAP* __wrap_FreeImage_Threshold(FIBITMAP *dib, BYTE T) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_Threshold")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_Threshold(dib, T); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_Dither(FIBITMAP *dib, FREE_IMAGE_DITHER algorithm);
FIBITMAP* __wrap_FreeImage_Dither(FIBITMAP *dib, FREE_IMAGE_DITHER algorithm) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_Dither")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_Dither(dib, algorithm); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertFromRawBits(BYTE *bits, int width, int height, int pitch, unsigned bpp, unsigned red_mask, unsigned green_mask, unsigned blue_mask, BOOL topdown);
FIBITMAP* __wrap_FreeImage_ConvertFromRawBits(BYTE *bits, int width, int height, int pitch, unsigned bpp, unsigned red_mask, unsigned green_mask, unsigned blue_mask, BOOL topdown) {
  if (sim::fiFault("FreeImage_ConvertFromRawBits")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertFromRawBits(bits, width, height, pitch, bpp, red_mask, green_mask, blue_mask, topdown); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertFromRawBitsEx(BOOL copySource, BYTE *bits, FREE_IMAGE_TYPE type, int width, int height, int pitch, unsigned bpp, unsigned red_mask, unsigned green_mask, unsigned blue_mask, BOOL topdown);
FIBITMAP* __wrap_FreeImage_ConvertFromRawBitsEx(BOOL copySource, BYTE *bits, FREE_IMAGE_TYPE type, int width, int height, int pitch, unsigned bpp, unsigned red_mask, unsigned green_mask, unsigned blue_mask, BOOL topdown) {
  if (sim::fiFault("FreeImage_ConvertFromRawBitsEx")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertFromRawBitsEx(copySource, bits, type, width, height, pitch, bpp, red_mask, green_mask, blue_mask, topdown); sim::fiNew(b); return b;
}
void __real_FreeImage_ConvertToRawBits(BYTE *bits, FIBITMAP *dib, int pitch, unsigned bpp, unsigned red_mask, unsigned green_mask, unsigned blue_mask, BOOL topdown);
void __wrap_FreeImage_ConvertToRawBits(BYTE *bits, FIBITMAP *dib, int pitch, unsigned bpp, unsigned red_mask, unsigned green_mask, unsigned blue_mask, BOOL topdown) {
  sim::fiTouch(dib, false);
  FiScope s; return __real_FreeImage_ConvertToRawBits(bits, dib, pitch, bpp, red_mask, green_mask, blue_mask, topdown);
}
FIBITMAP* __real_FreeImage_ConvertToFloat(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertToFloat(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertToFloat")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertToFloat(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertToRGBF(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertToRGBF(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertToRGBF")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertToRGBF(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertToRGBAF(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertToRGBAF(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertToRGBAF")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertToRGBAF(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertToUINT16(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertToUINT16(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertToUINT16")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertToUINT16(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertToRGB16(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertToRGB16(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertToRGB16")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertToRGB16(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertToRGBA16(FIBITMAP *dib);
FIBITMAP* __wrap_FreeImage_ConvertToRGBA16(FIBITMAP *dib) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ConvertToRGBA16")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertToRGBA16(dib); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertToStandardType(FIBITMAP *src, BOOL scale_linear);
FIBITMAP* __wrap_FreeImage_ConvertToStandardType(FIBITMAP *src, BOOL scale_linear) {
  sim::fiTouch(src, false);
  if (sim::fiFault("FreeImage_ConvertToStandardType")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertToStandardType(src, scale_linear); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ConvertToType(FIBITMAP *src, FREE_IMAGE_TYPE dst_type, BOOL scale_linear);
FIBITMAP* __wrap_FreeImage_ConvertToType(FIBITMAP *src, FREE_IMAGE_TYPE dst_type, BOOL scale_linear) {
  sim::fiTouch(src, false);
  if (sim::fiFault("FreeImage_ConvertToType")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ConvertToType(src, dst_type, scale_linear); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_ToneMapping(FIBITMAP *dib, FREE_IMAGE_TMO tmo, double first_param, double second_param);
FIBITMAP* __wrap_FreeImage_ToneMapping(FIBITMAP *dib, FREE_IMAGE_TMO tmo, double first_param, double second_param) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_ToneMapping")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_ToneMapping(dib, tmo, first_param, second_param); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_TmoDrago03(FIBITMAP *src, double gamma, double exposure);
FIBITMAP* __wrap_FreeImage_TmoDrago03(FIBITMAP *src, double gamma, double exposure) {
  sim::fiTouch(src, false);
  if (sim::fiFault("FreeImage_TmoDrago03")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_TmoDrago03(src, gamma, exposure); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_TmoReinhard05(FIBITMAP *src, double intensity, double contrast);
FIBITMAP* __wrap_FreeImage_TmoReinhard05(FIBITMAP *src, double intensity, double contrast) {
  sim::fiTouch(src, false);
  if (sim::fiFault("FreeImage_TmoReinhard05")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_TmoReinhard05(src, intensity, contrast); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_TmoReinhard05Ex(FIBITMAP *src, double intensity, double contrast, double adaptation, double color_correction);
FIBITMAP* __wrap_FreeImage_TmoReinhard05Ex(FIBITMAP *src, double intensity, double contrast, double adaptation, double color_correction) {
  sim::fiTouch(src, false);
  if (sim::fiFault("FreeImage_TmoReinhard05Ex")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_TmoReinhard05Ex(src, intensity, contrast, adaptation, color_correction); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_TmoFattal02(FIBITMAP *src, double color_saturation, double attenuation);
FIBITMAP* __wrap_FreeImage_TmoFattal02(FIBITMAP *src, double color_saturation, double attenuation) {
  sim::fiTouch(src, false);
  if (sim::fiFault("FreeImage_TmoFattal02")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_TmoFattal02(src, color_saturation, attenuation); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_Rotate(FIBITMAP *dib, double angle, const void *bkcolor);
FIBITMAP* __wrap_FreeImage_Rotate(FIBITMAP *dib, double angle, const void *bkcolor) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_Rotate")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_Rotate(dib, angle, bkcolor); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_RotateEx(FIBITMAP *dib, double angle, double x_shift, double y_shift, double x_origin, double y_origin, BOOL use_mask);
FIBITMAP* __wrap_FreeImage_RotateEx(FIBITMAP *dib, double angle, double x_shift, double y_shift, double x_origin, double y_origin, BOOL use_mask) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_RotateEx")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_RotateEx(dib, angle, x_shift, y_shift, x_origin, y_origin, use_mask); sim::fiNew(b); return b;
}
BOOL __real_FreeImage_FlipHorizontal(FIBITMAP *dib);
BOOL __wrap_FreeImage_FlipHorizontal(FIBITMAP *dib) {
  sim::fiTouch(dib, true);
  if (sim::fiFault("FreeImage_FlipHorizontal")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_FlipHorizontal(dib);
}
BOOL __real_FreeImage_FlipVertical(FIBITMAP *dib);
BOOL __wrap_FreeImage_FlipVertical(FIBITMAP *dib) {
  sim::fiTouch(dib, true);
  if (sim::fiFault("FreeImage_FlipVertical")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_FlipVertical(dib);
}
FIBITMAP* __real_FreeImage_Rescale(FIBITMAP *dib, int dst_width, int dst_height, FREE_IMAGE_FILTER filter);
FIBITMAP* __wrap_FreeImage_Rescale(FIBITMAP *dib, int dst_width, int dst_height, FREE_IMAGE_FILTER filter) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_Rescale")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_Rescale(dib, dst_width, dst_height, filter); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_MakeThumbnail(FIBITMAP *dib, int max_pixel_size, BOOL convert);
FIBITMAP* __wrap_FreeImage_MakeThumbnail(FIBITMAP *dib, int max_pixel_size, BOOL convert) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_MakeThumbnail")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_MakeThumbnail(dib, max_pixel_size, convert); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_RescaleRect(FIBITMAP *dib, int dst_width, int dst_height, int left, int top, int right, int bottom, FREE_IMAGE_FILTER filter, unsigned flags);
FIBITMAP* __wrap_FreeImage_RescaleRect(FIBITMAP *dib, int dst_width, int dst_height, int left, int top, int right, int bottom, FREE_IMAGE_FILTER filter, unsigned flags) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_RescaleRect")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_RescaleRect(dib, dst_width, dst_height, left, top, right, bottom, filter, flags); sim::fiNew(b); return b;
}
BOOL __real_FreeImage_AdjustCurve(FIBITMAP *dib, BYTE *LUT, FREE_IMAGE_COLOR_CHANNEL channel);
BOOL __wrap_FreeImage_AdjustCurve(FIBITMAP *dib, BYTE *LUT, FREE_IMAGE_COLOR_CHANNEL channel) {
  sim::fiTouch(dib, true);
  if (sim::fiFault("FreeImage_AdjustCurve")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_AdjustCurve(dib, LUT, channel);
}
BOOL __real_FreeImage_AdjustGamma(FIBITMAP *dib, double gamma);
BOOL __wrap_FreeImage_AdjustGamma(FIBITMAP *dib, double gamma) {
  sim::fiTouch(dib, true);
  if (sim::fiFault("FreeImage_AdjustGamma")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_AdjustGamma(dib, gamma);
}
BOOL __real_FreeImage_AdjustBrightness(FIBITMAP *dib, double percentage);
BOOL __wrap_FreeImage_AdjustBrightness(FIBITMAP *dib, double percentage) {
  sim::fiTouch(dib, true);
  if (sim::fiFault("FreeImage_AdjustBrightness")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_AdjustBrightness(dib, percentage);
}
BOOL __real_FreeImage_AdjustContrast(FIBITMAP *dib, double percentage);
BOOL __wrap_FreeImage_AdjustContrast(FIBITMAP *dib, double percentage) {
  sim::fiTouch(dib, true);
  if (sim::fiFault("FreeImage_AdjustContrast")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_AdjustContrast(dib, percentage);
}
BOOL __real_FreeImage_Invert(FIBITMAP *dib);
BOOL __wrap_FreeImage_Invert(FIBITMAP *dib) {
  sim::fiTouch(dib, true);
  if (sim::fiFault("FreeImage_Invert")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_Invert(dib);
}
BOOL __real_FreeImage_AdjustColors(FIBITMAP *dib, double brightness, double contrast, double gamma, BOOL invert);
BOOL __wrap_FreeImage_AdjustColors(FIBITMAP *dib, double brightness, double contrast, double gamma, BOOL invert) {
  sim::fiTouch(dib, true);
  if (sim::fiFault("FreeImage_AdjustColors")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_AdjustColors(dib, brightness, contrast, gamma, invert);
}
unsigned __real_FreeImage_SwapColors(FIBITMAP *dib, RGBQUAD *color_a, RGBQUAD *color_b, BOOL ignore_alpha);
unsigned __wrap_FreeImage_SwapColors(FIBITMAP *dib, RGBQUAD *color_a, RGBQUAD *color_b, BOOL ignore_alpha) {
  sim::fiTouch(dib, true);
  FiScope s; return __real_FreeImage_SwapColors(dib, color_a, color_b, ignore_alpha);
}
FIBITMAP* __real_FreeImage_GetChannel(FIBITMAP *dib, FREE_IMAGE_COLOR_CHANNEL channel);
FIBITMAP* __wrap_FreeImage_GetChannel(FIBITMAP *dib, FREE_IMAGE_COLOR_CHANNEL channel) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_GetChannel")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_GetChannel(dib, channel); sim::fiNew(b); return b;
}
BOOL __real_FreeImage_SetChannel(FIBITMAP *dst, FIBITMAP *src, FREE_IMAGE_COLOR_CHANNEL channel);
BOOL __wrap_FreeImage_SetChannel(FIBITMAP *dst, FIBITMAP *src, FREE_IMAGE_COLOR_CHANNEL channel) {
  sim::fiTouch(dst, true);
  sim::fiTouch(src, false);
  if (sim::fiFault("FreeImage_SetChannel")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_SetChannel(dst, src, channel);
}
FIBITMAP* __real_FreeImage_GetComplexChannel(FIBITMAP *src, FREE_IMAGE_COLOR_CHANNEL channel);
FIBITMAP* __wrap_FreeImage_GetComplexChannel(FIBITMAP *src, FREE_IMAGE_COLOR_CHANNEL channel) {
  sim::fiTouch(src, false);
  if (sim::fiFault("FreeImage_GetComplexChannel")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_GetComplexChannel(src, channel); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_Copy(FIBITMAP *dib, int left, int top, int right, int bottom);
FIBITMAP* __wrap_FreeImage_Copy(FIBITMAP *dib, int left, int top, int right, int bottom) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_Copy")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_Copy(dib, left, top, right, bottom); sim::fiNew(b); return b;
}
BOOL __real_FreeImage_Paste(FIBITMAP *dst, FIBITMAP *src, int left, int top, int alpha);
BOOL __wrap_FreeImage_Paste(FIBITMAP *dst, FIBITMAP *src, int left, int top, int alpha) {
  sim::fiTouch(dst, true);
  sim::fiTouch(src, false);
  if (sim::fiFault("FreeImage_Paste")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_Paste(dst, src, left, top, alpha);
}
FIBITMAP* __real_FreeImage_CreateView(FIBITMAP *dib, unsigned left, unsigned top, unsigned right, unsigned bottom);
FIBITMAP* __wrap_FreeImage_CreateView(FIBITMAP *dib, unsigned left, unsigned top, unsigned right, unsigned bottom) {
  sim::fiTouch(dib, false);
  if (sim::fiFault("FreeImage_CreateView")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_CreateView(dib, left, top, right, bottom); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_Composite(FIBITMAP *fg, BOOL useFileBkg, RGBQUAD *appBkColor, FIBITMAP *bg);
FIBITMAP* __wrap_FreeImage_Composite(FIBITMAP *fg, BOOL useFileBkg, RGBQUAD *appBkColor, FIBITMAP *bg) {
  sim::fiTouch(fg, false);
  sim::fiTouch(bg, false);
  if (sim::fiFault("FreeImage_Composite")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_Composite(fg, useFileBkg, appBkColor, bg); sim::fiNew(b); return b;
}
BOOL __real_FreeImage_PreMultiplyWithAlpha(FIBITMAP *dib);
BOOL __wrap_FreeImage_PreMultiplyWithAlpha(FIBITMAP *dib) {
  sim::fiTouch(dib, true);
  if (sim::fiFault("FreeImage_PreMultiplyWithAlpha")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_PreMultiplyWithAlpha(dib);
}
BOOL __real_FreeImage_FillBackground(FIBITMAP *dib, const void *color, int options);
BOOL __wrap_FreeImage_FillBackground(FIBITMAP *dib, const void *color, int options) {
  sim::fiTouch(dib, true);
  if (sim::fiFault("FreeImage_FillBackground")) { sim::count(F_fi_false); return FALSE; } FiScope s; return __real_FreeImage_FillBackground(dib, color, options);
}
FIBITMAP* __real_FreeImage_EnlargeCanvas(FIBITMAP *src, int left, int top, int right, int bottom, const void *color, int options);
FIBITMAP* __wrap_FreeImage_EnlargeCanvas(FIBITMAP *src, int left, int top, int right, int bottom, const void *color, int options) {
  sim::fiTouch(src, false);
  if (sim::fiFault("FreeImage_EnlargeCanvas")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_EnlargeCanvas(src, left, top, right, bottom, color, options); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_AllocateEx(int width, int height, int bpp, const RGBQUAD *color, int options, const RGBQUAD *palette, unsigned red_mask, unsigned green_mask, unsigned blue_mask);
FIBITMAP* __wrap_FreeImage_AllocateEx(int width, int height, int bpp, const RGBQUAD *color, int options, const RGBQUAD *palette, unsigned red_mask, unsigned green_mask, unsigned blue_mask) {
  if (sim::fiFault("FreeImage_AllocateEx")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_AllocateEx(width, height, bpp, color, options, palette, red_mask, green_mask, blue_mask); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_AllocateExT(FREE_IMAGE_TYPE type, int width, int height, int bpp, const void *color, int options, const RGBQUAD *palette, unsigned red_mask, unsigned green_mask, unsigned blue_mask);
FIBITMAP* __wrap_FreeImage_AllocateExT(FREE_IMAGE_TYPE type, int width, int height, int bpp, const void *color, int options, const RGBQUAD *palette, unsigned red_mask, unsigned green_mask, unsigned blue_mask) {
  if (sim::fiFault("FreeImage_AllocateExT")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_AllocateExT(type, width, height, bpp, color, options, palette, red_mask, green_mask, blue_mask); sim::fiNew(b); return b;
}
FIBITMAP* __real_FreeImage_MultigridPoissonSolver(FIBITMAP *Laplacian, int ncycle);
FIBITMAP* __wrap_FreeImage_MultigridPoissonSolver(FIBITMAP *Laplacian, int ncycle) {
  sim::fiTouch(Laplacian, false);
  if (sim::fiFault("FreeImage_MultigridPoissonSolver")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = __real_FreeImage_MultigridPoissonSolver(Laplacian, ncycle); sim::fiNew(b); return b;
}
