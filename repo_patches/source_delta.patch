From 516ccdbd5f79282a34e2746397885fc9685ac5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 01/29] fix: size the depth slices of each mip level of a 3D
 texture

initialize() made room for the full depth at every mip level of a 3D
texture, but setImage() only accepts the slices the level really has, so a
3D texture with more than one level could never be completed by hand.
---
 lib/src/Texture.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 6195af9..56e050e 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1152,9 +1152,11 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 	m_impl->faces = dimension == Dimension::Cube ? 6 : 1;
 
 	m_impl->images.resize(m_impl->mipLevels);
-	for (DepthImageList& depthImages : m_impl->images)
+	for (unsigned int mip = 0; mip < m_impl->mipLevels; ++mip)
 	{
-		depthImages.resize(std::max(m_impl->depth, 1U));
+		// 3D textures have fewer depth slices for each mip level.
+		DepthImageList& depthImages = m_impl->images[mip];
+		depthImages.resize(this->depth(mip));
 		for (FaceImageList& faceImages : depthImages)
 			faceImages.resize(m_impl->faces);
 	}
-- 
2.43.0


From 1f36e584859f8f3b8ceeb411b3f3a8a9fac6e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 02/29] fix: leave no half converted texture when a conversion
 throws

An exception (such as running out of memory) left the format and the
partially filled texture data set, so the texture claimed to be converted
and handing out its data went out of bounds.
---
 lib/src/Texture.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 56e050e..28f4765 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1552,7 +1552,20 @@ bool Texture::convert(Format format, Type type, Quality quality, Alpha alphaType
 	if (threads == allCores)
 		threads = std::thread::hardware_concurrency();
 
-	if (!Converter::convert(*this, m_impl->images, m_impl->textures, quality, threads))
+	bool success;
+	try
+	{
+		success = Converter::convert(*this, m_impl->images, m_impl->textures, quality, threads);
+	}
+	catch (...)
+	{
+		// Don't leave a partially converted texture behind.
+		m_impl->format = Format::Unknown;
+		m_impl->textures.clear();
+		throw;
+	}
+
+	if (!success)
 	{
 		m_impl->format = Format::Unknown;
 		m_impl->textures.clear();
-- 
2.43.0


From a166c0e790734b0fed11716cf44c396dfe0fff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 03/29] fix: survive threads that cannot be started while
 converting

std::thread's constructor throws when the system refuses another thread.
The exception destroyed the already running threads while still joinable,
which terminated the process. Process the remaining jobs with the threads
that did start and the calling thread instead.
---
 lib/src/Converter.cpp | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index e6fbb77..72c8105 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -560,22 +560,34 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 					for (unsigned int i = 0; i < curThreads; ++i)
 						threadData.push_back(converter->createThreadData());
 
-					for (unsigned int i = 0; i < curThreads; ++i)
-					{
-						Converter::ThreadData* threadDataPtr = threadData[i].get();
-						threads.emplace_back([&curJob, &jobs, &converter, threadDataPtr]()
+					auto processJobs = [&curJob, &jobs, &converter](ThreadData* threadDataPtr)
+						{
+							do
 							{
-								do
-								{
-									unsigned int thisJob = curJob++;
-									if (thisJob >= jobs.size())
-										return;
+								unsigned int thisJob = curJob++;
+								if (thisJob >= jobs.size())
+									return;
 
-									converter->process(jobs[thisJob].first, jobs[thisJob].second,
-										threadDataPtr);
-								} while (true);
-							});
+								converter->process(jobs[thisJob].first, jobs[thisJob].second,
+									threadDataPtr);
+							} while (true);
+						};
+
+					bool allStarted = true;
+					try
+					{
+						for (unsigned int i = 0; i < curThreads; ++i)
+							threads.emplace_back(processJobs, threadData[i].get());
 					}
+					catch (...)
+					{
+						allStarted = false;
+					}
+
+					// If not all threads could be started (e.g. due to a resource limit), take the
+					// place of the first missing one.
+					if (!allStarted)
+						processJobs(threadData[threads.size()].get());
 
 					for (std::thread& thread : threads)
 						thread.join();
-- 
2.43.0


From bb3f6bc324b357813982e229e55f64215df57681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 04/29] fix: report errors when closing a saved texture file

Data that is still buffered is only written when the file is closed. An
error at that point, such as a full disk, was ignored and reported as
success.
---
 lib/src/Texture.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 28f4765..259465f 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1661,7 +1661,13 @@ Texture::SaveResult Texture::save(const char* fileName, FileType fileType)
 	std::ofstream stream(fileName, std::ofstream::binary);
 	if (!stream.is_open())
 		return SaveResult::WriteError;
-	return save(stream, fileType);
+
+	// Buffered data may only fail to be written when closing the file.
+	SaveResult result = save(stream, fileType);
+	stream.close();
+	if (result == SaveResult::Success && !stream)
+		result = SaveResult::WriteError;
+	return result;
 }
 
 Texture::SaveResult Texture::save(std::ostream& stream, Texture::FileType fileType)
-- 
2.43.0


From 704f66391e94da67f4d13f9cb24ca193dd54d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 05/29] fix: don't truncate the file when a texture cannot be
 saved to it

The file was opened before checking if the file type is known and supports
the texture format, leaving an empty file in place of the previous one.
---
 lib/src/Texture.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 259465f..4f1db30 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1658,6 +1658,19 @@ Texture::SaveResult Texture::save(const char* fileName, FileType fileType)
 	if (fileType == FileType::Auto)
 		fileType = Texture::fileType(fileName);
 
+	// Make sure the texture can be saved before an existing file is truncated.
+	switch (fileType)
+	{
+		case FileType::DDS:
+		case FileType::KTX:
+		case FileType::PVR:
+			break;
+		default:
+			return SaveResult::UnknownFormat;
+	}
+	if (!isFormatValid(format(), type(), fileType))
+		return SaveResult::Unsupported;
+
 	std::ofstream stream(fileName, std::ofstream::binary);
 	if (!stream.is_open())
 		return SaveResult::WriteError;
-- 
2.43.0


From 827abc30839a4631f3cd496bf45ca39c261dc2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 06/29] fix: only report an image as saved once all of it was
 stored

Errors from the output stream were ignored, as were errors writing and
closing a file inside of FreeImage, and the number of bytes was returned to
FreeImage instead of the number of items. An existing file was also
truncated when its type turned out not to be writable. Encode to memory
first and check all of the output.
---
 lib/src/Image.cpp | 88 +++++++++++++++++------------------------------
 1 file changed, 31 insertions(+), 57 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 0378669..a99f490 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -23,10 +23,12 @@
 #include <cassert>
 #include <cmath>
 #include <cstdio>
+#include <fstream>
 #include <istream>
 #include <limits>
+#include <memory>
 #include <ostream>
-#include <sstream>
+#include <vector>
 
 namespace cuttlefish
 {
@@ -248,48 +250,6 @@ long tellIStream(fi_handle handle)
 
 FreeImageIO istreamIO{&readIStream, &writeIStream, &seekIStream, tellIStream};
 
-unsigned int readOStream(void*, unsigned int, unsigned int, fi_handle)
-{
-	return 0;
-}
-
-unsigned int writeOStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
-{
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	stream->write(reinterpret_cast<char*>(buffer), size*count);
-	return count*size;
-}
-
-int seekOStream(fi_handle handle, long offset, int origin)
-{
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	std::ios_base::seekdir dir;
-	switch (origin)
-	{
-		case SEEK_SET:
-			dir = std::ios_base::beg;
-			break;
-		case SEEK_CUR:
-			dir = std::ios_base::cur;
-			break;
-		case SEEK_END:
-			dir = std::ios_base::end;
-			break;
-		default:
-			return -1;
-	}
-	stream->seekp(offset, dir);
-	return stream->good() ? 0 : -1;
-}
-
-long tellOStream(fi_handle handle)
-{
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	return static_cast<long>(stream->tellp());
-}
-
-FreeImageIO ostreamIO{&readOStream, &writeOStream, &seekOStream, tellOStream};
-
 double toDoubleNorm(std::uint8_t value)
 {
 	return value/255.0;
@@ -923,37 +883,51 @@ bool Image::load(const void* data, std::size_t size, ColorSpace colorSpace)
 
 bool Image::save(const char* fileName)
 {
-	if (!m_impl)
+	// Encode first to leave the file alone if the image cannot be saved.
+	std::vector<std::uint8_t> data;
+	if (!save(data, fileName))
 		return false;
 
-	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
-	if (format == FIF_UNKNOWN)
+	std::ofstream stream(fileName, std::ofstream::binary);
+	if (!stream.is_open())
 		return false;
 
-	return FreeImage_Save(format, m_impl->image, fileName) != false;
+	// Buffered data may only fail to be written when closing the file.
+	stream.write(reinterpret_cast<const char*>(data.data()), data.size());
+	stream.close();
+	return stream.good();
 }
 
 bool Image::save(std::ostream& stream, const char* fileName)
 {
-	if (!m_impl)
+	std::vector<std::uint8_t> data;
+	if (!save(data, fileName))
+		return false;
+
+	stream.write(reinterpret_cast<const char*>(data.data()), data.size());
+	return stream.good();
+}
+
+bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
+{
+	if (!m_impl || !fileName)
 		return false;
 
 	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) != false;
-}
+	std::unique_ptr<FIMEMORY, decltype(&FreeImage_CloseMemory)> memoryStream(
+		FreeImage_OpenMemory(), &FreeImage_CloseMemory);
+	if (!memoryStream || !FreeImage_SaveToMemory(format, m_impl->image, memoryStream.get()))
+		return false;
 
-bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
-{
-	// Implementations of stringstream typically don't differentiate between text and binary, but
-	// the standard doesn't guarantee this.
-	std::stringstream stream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
-	if (!save(stream, fileName))
+	BYTE* data;
+	DWORD size;
+	if (!FreeImage_AcquireMemory(memoryStream.get(), &data, &size))
 		return false;
 
-	readStreamData(outData, stream);
+	outData.assign(data, data + size);
 	return true;
 }
 
-- 
2.43.0


From aef832216e21019853c0d30068af85eed12b4736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 07/29] fix: load images from streams the same way as from
 files

---
 lib/src/Image.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index a99f490..362935e 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -208,11 +208,23 @@ bool isRGB16BPPFormat(Image::Format format)
 	}
 }
 
+void clearIStreamEnd(std::istream& stream)
+{
+	if (!stream.good() && !stream.bad())
+		stream.clear();
+}
+
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	auto stream = reinterpret_cast<std::istream*>(handle);
-	stream->read(reinterpret_cast<char*>(buffer), size*count);
-	return static_cast<unsigned int>(stream->gcount());
+	if (size == 0)
+		return 0;
+
+	stream->read(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
+	// As with fread(), return the number of items and don't let the end of the data prevent seeking.
+	auto readCount = static_cast<unsigned int>(stream->gcount()/size);
+	clearIStreamEnd(*stream);
+	return readCount;
 }
 
 unsigned int writeIStream(void*, unsigned int, unsigned int, fi_handle)
@@ -239,7 +251,9 @@ int seekIStream(fi_handle handle, long offset, int origin)
 			return -1;
 	}
 	stream->seekg(offset, dir);
-	return stream->good() ? 0 : -1;
+	bool success = !stream->fail();
+	clearIStreamEnd(*stream);
+	return success ? 0 : -1;
 }
 
 long tellIStream(fi_handle handle)
-- 
2.43.0


From f5014a42f8b48bca9f83c003e88f6eb251c47617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 08/29] fix: refuse to save images in files that cannot hold
 their type

---
 lib/src/Image.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 362935e..68fc4a0 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -931,6 +931,14 @@ bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
 	if (format == FIF_UNKNOWN)
 		return false;
 
+	// The encoders may write garbage or crash for types of images they don't support.
+	FREE_IMAGE_TYPE type = FreeImage_GetImageType(m_impl->image);
+	if (!FreeImage_FIFSupportsExportType(format, type) || (type == FIT_BITMAP &&
+			!FreeImage_FIFSupportsExportBPP(format, FreeImage_GetBPP(m_impl->image))))
+	{
+		return false;
+	}
+
 	std::unique_ptr<FIMEMORY, decltype(&FreeImage_CloseMemory)> memoryStream(
 		FreeImage_OpenMemory(), &FreeImage_CloseMemory);
 	if (!memoryStream || !FreeImage_SaveToMemory(format, m_impl->image, memoryStream.get()))
-- 
2.43.0


From c6671b1cb127850991894207f2f05ef142ac4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 09/29] fix: keep the format of 16-bit images when resizing

---
 lib/src/Image.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 68fc4a0..ec24cc4 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1367,6 +1367,22 @@ Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter
 		case Format::Double:
 		case Format::Complex:
 			break;
+		case Format::RGB5:
+		case Format::RGB565:
+		{
+			// FreeImage returns a 24-bit image, so convert back to 16 bits.
+			FIBITMAP* scaledImage = FreeImage_Rescale(m_impl->image, width, height, fiFilter);
+			FIBITMAP* finalImage = nullptr;
+			if (scaledImage)
+			{
+				finalImage = m_impl->format == Format::RGB5 ?
+					FreeImage_ConvertTo16Bits555(scaledImage) :
+					FreeImage_ConvertTo16Bits565(scaledImage);
+				FreeImage_Unload(scaledImage);
+			}
+			image.m_impl.reset(Impl::create(finalImage, m_impl->colorSpace, m_impl->format));
+			break;
+		}
 		default:
 			image.m_impl.reset(Impl::create(
 				FreeImage_Rescale(m_impl->image, width, height, fiFilter), m_impl->colorSpace,
-- 
2.43.0


From 82ab21afe34a02c4fa8d02e17cb9b68fb274d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 10/29] fix: don't leave a texture without its images when out
 of memory

---
 lib/src/Texture.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 4f1db30..c9ecc6a 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1141,26 +1141,29 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 	if (width == 0 || height == 0 || (dimension == Dimension::Dim3D && depth == 0))
 		return false;
 
-	m_impl.reset(new Impl);
-	m_impl->dimension = dimension;
-	m_impl->colorSpace = colorSpace;
-	m_impl->width = width;
-	m_impl->height = height;
-	m_impl->depth = depth;
-	m_impl->mipLevels = std::min(std::max(mipLevels, 1U),
+	// Only take over the contents once complete in case an allocation fails.
+	std::unique_ptr<Impl> impl(new Impl);
+	impl->dimension = dimension;
+	impl->colorSpace = colorSpace;
+	impl->width = width;
+	impl->height = height;
+	impl->depth = depth;
+	impl->mipLevels = std::min(std::max(mipLevels, 1U),
 		maxMipmapLevels(dimension, width, height, depth));
-	m_impl->faces = dimension == Dimension::Cube ? 6 : 1;
+	impl->faces = dimension == Dimension::Cube ? 6 : 1;
 
-	m_impl->images.resize(m_impl->mipLevels);
-	for (unsigned int mip = 0; mip < m_impl->mipLevels; ++mip)
+	impl->images.resize(impl->mipLevels);
+	for (unsigned int mip = 0; mip < impl->mipLevels; ++mip)
 	{
 		// 3D textures have fewer depth slices for each mip level.
-		DepthImageList& depthImages = m_impl->images[mip];
-		depthImages.resize(this->depth(mip));
+		unsigned int mipDepth = std::max(dimension == Dimension::Dim3D ? depth >> mip : depth, 1U);
+		DepthImageList& depthImages = impl->images[mip];
+		depthImages.resize(mipDepth);
 		for (FaceImageList& faceImages : depthImages)
-			faceImages.resize(m_impl->faces);
+			faceImages.resize(impl->faces);
 	}
 
+	m_impl = std::move(impl);
 	return true;
 }
 
-- 
2.43.0


From 4bf6f892790bdf7e95d4409d3486d213a384b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 11/29] fix: don't mix two textures when out of memory while
 assigning

---
 lib/src/Texture.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index c9ecc6a..8358471 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1108,13 +1108,9 @@ Texture& Texture::operator=(const Texture& other)
 	if (&other == this)
 		return *this;
 
+	// Always create a new copy in case an allocation fails part way through.
 	if (other.m_impl)
-	{
-		if (m_impl)
-			*m_impl = *other.m_impl;
-		else
-			m_impl.reset(new Impl(*other.m_impl));
-	}
+		m_impl.reset(new Impl(*other.m_impl));
 	else
 		reset();
 
-- 
2.43.0


From 6ca73792e2bc5dab21b4dc0682dfb758309a3e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 12/29] fix: leave the texture alone when mipmaps cannot be
 generated

---
 lib/src/Texture.cpp | 69 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 8358471..fcc8e8b 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -100,7 +100,7 @@ inline std::uint32_t clz(std::uint32_t x)
 #endif
 }
 
-void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>& prevLevelImages,
+bool generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>& prevLevelImages,
 	unsigned int width, unsigned int height, unsigned int depth, ColorSpace colorSpace,
 	Image::ResizeFilter filter)
 {
@@ -113,7 +113,9 @@ void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>&
 	{
 		for (unsigned int d = 0; d < depth; ++d)
 		{
-			outMipImages[d].initialize(Image::Format::RGBAF, width, height, colorSpace);
+			if (!outMipImages[d].initialize(Image::Format::RGBAF, width, height, colorSpace))
+				return false;
+
 			double center = (d + 0.5)*invScale;
 			unsigned int start = std::max(static_cast<int>(center - offset + 0.5), 0);
 			unsigned int end = std::min(
@@ -169,7 +171,9 @@ void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>&
 	{
 		for (unsigned int d = 0; d < depth; ++d)
 		{
-			outMipImages[d].initialize(Image::Format::RGBAF, width, height, colorSpace);
+			if (!outMipImages[d].initialize(Image::Format::RGBAF, width, height, colorSpace))
+				return false;
+
 			double center = (d + 0.5)*invScale;
 			unsigned int start = std::max(static_cast<int>(center - offset + 0.5), 0);
 			unsigned int end = std::min(
@@ -224,6 +228,8 @@ void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>&
 			}
 		}
 	}
+
+	return true;
 }
 
 } // namespace
@@ -1341,8 +1347,14 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 
 	mipLevels = std::min(std::max(mipLevels, 1U),
 		maxMipmapLevels(dimension(), width(), height(), depth()));
-	m_impl->mipLevels = mipLevels;
-	m_impl->images.resize(mipLevels);
+
+	// Create the mip levels separately so the texture isn't changed on failure. The first level is only
+	// moved once everything else is created.
+	MipImageList images(mipLevels);
+	auto levelImages = [&](unsigned int mip) -> DepthImageList&
+	{
+		return mip == 0 ? m_impl->images[0] : images[mip];
+	};
 
 	if (m_impl->dimension == Dimension::Dim3D)
 	{
@@ -1351,9 +1363,9 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		std::vector<Image> mipImages;
 		for (unsigned int mip = 1; mip < mipLevels; ++mip)
 		{
-			unsigned int mipWidth = width(mip);
-			unsigned int mipHeight = height(mip);
-			unsigned int mipDepth = depth(mip);
+			unsigned int mipWidth = std::max(m_impl->width >> mip, 1U);
+			unsigned int mipHeight = std::max(m_impl->height >> mip, 1U);
+			unsigned int mipDepth = std::max(m_impl->depth >> mip, 1U);
 
 			// Check for custom mips. If one depth is provided, all must be, and have consistent
 			// replacement between them.
@@ -1387,10 +1399,10 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 				// previous mip level was custom with a replacement of once.
 				if (inputImages.empty())
 				{
-					inputImages.resize(m_impl->images[mip - 1].size());
+					inputImages.resize(levelImages(mip - 1).size());
 					for (unsigned int d = 0; d < inputImages.size(); ++d)
 					{
-						inputImages[d] = m_impl->images[mip - 1][d][0].resize(
+						inputImages[d] = levelImages(mip - 1)[d][0].resize(
 							mipWidth, mipHeight, filter);
 					}
 				}
@@ -1400,8 +1412,17 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 						image = image.resize(mipWidth, mipHeight, filter);
 				}
 
-				generateMips3d(mipImages, inputImages, mipWidth, mipHeight, mipDepth,
-					m_impl->colorSpace, filter);
+				for (const Image& image : inputImages)
+				{
+					if (!image)
+						return false;
+				}
+
+				if (!generateMips3d(mipImages, inputImages, mipWidth, mipHeight, mipDepth,
+						m_impl->colorSpace, filter))
+				{
+					return false;
+				}
 			}
 
 			// Set up inputImages based on whether we want to restore state for the next mip.
@@ -1427,11 +1448,13 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 						mipWidth, mipHeight, filter);
 					if (thisMipImage.format() != Image::Format::RGBAF)
 						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+					if (!thisMipImage)
+						return false;
 				}
 			}
 
-			// Move the results into the texture.
-			DepthImageList& depthImages = m_impl->images[mip];
+			// Move the results into the mip level.
+			DepthImageList& depthImages = images[mip];
 			depthImages.resize(mipDepth);
 			for (unsigned int d = 0; d < mipDepth; ++d)
 			{
@@ -1446,7 +1469,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		unsigned int depth = std::max(m_impl->depth, 1U);
 		for (unsigned int mip = 1; mip < mipLevels; ++mip)
 		{
-			DepthImageList& depthImages = m_impl->images[mip];
+			DepthImageList& depthImages = images[mip];
 			depthImages.resize(depth);
 			for (unsigned int d = 0; d < depth; ++d)
 			{
@@ -1463,8 +1486,8 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 			{
 				for (unsigned int mip = 1; mip < mipLevels; ++mip)
 				{
-					unsigned int mipWidth = width(mip);
-					unsigned int mipHeight = height(mip);
+					unsigned int mipWidth = std::max(m_impl->width >> mip, 1U);
+					unsigned int mipHeight = std::max(m_impl->height >> mip, 1U);
 					auto foundCustomMip = customMipImages.find(
 						ImageIndex(static_cast<CubeFace>(f), mip, d));
 
@@ -1480,9 +1503,12 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 							curMip = prevImage.resize(mipWidth, mipHeight, filter);
 						else
 						{
-							curMip = m_impl->images[mip - 1][d][f].resize(
+							curMip = levelImages(mip - 1)[d][f].resize(
 								mipWidth, mipHeight, filter);
 						}
+
+						if (!curMip)
+							return false;
 					}
 
 					// Set up prevImage based on whether we want to restore state for the next mip.
@@ -1496,13 +1522,15 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 					else
 						prevImage = Image();
 
-					Image& thisMipImage = m_impl->images[mip][d][f];
+					Image& thisMipImage = images[mip][d][f];
 					if (customMip)
 					{
 						thisMipImage = foundCustomMip->second.image->resize(
 							mipWidth, mipHeight, filter);
 						if (thisMipImage.format() != Image::Format::RGBAF)
 							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+						if (!thisMipImage)
+							return false;
 					}
 					else
 						thisMipImage = std::move(curMip);
@@ -1511,6 +1539,9 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 	}
 
+	images[0] = std::move(m_impl->images[0]);
+	m_impl->images = std::move(images);
+	m_impl->mipLevels = mipLevels;
 	return true;
 }
 
-- 
2.43.0


From 28045e054cafdc6548c2ec81fe96ca6c7eaca667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 13/29] fix: drop converted data when generating a different
 number of mip levels

---
 lib/src/Texture.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index fcc8e8b..0474f09 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1539,6 +1539,13 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 	}
 
+	// Data from a previous conversion doesn't match a different number of mip levels.
+	if (mipLevels != m_impl->mipLevels)
+	{
+		m_impl->format = Format::Unknown;
+		m_impl->textures.clear();
+	}
+
 	images[0] = std::move(m_impl->images[0]);
 	m_impl->images = std::move(images);
 	m_impl->mipLevels = mipLevels;
-- 
2.43.0


From 5ec87eb14852984acc9582b8d40bda4ddd805508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 14/29] fix: don't use a custom mip's restored state for the
 next face or depth

---
 lib/src/Texture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 0474f09..6c6564f 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1479,11 +1479,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 
 		// Then process mip by mip to make it easier to manage custom replacements.
-		Image prevImage;
 		for (unsigned int d = 0; d < depth; ++d)
 		{
 			for (unsigned int f = 0; f < m_impl->faces; ++f)
 			{
+				Image prevImage;
 				for (unsigned int mip = 1; mip < mipLevels; ++mip)
 				{
 					unsigned int mipWidth = std::max(m_impl->width >> mip, 1U);
-- 
2.43.0


From 2759af554cb5863c57f181ffd5dbfc41b63a7981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 15/29] fix: copy the replacement when assigning a custom mip
 image

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 6c6564f..c7e31db 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -300,6 +300,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(const CustomMipImage
 		image = other.image;
 		imageStorage = Image();
 	}
+	replacement = other.replacement;
 	return *this;
 }
 
@@ -318,6 +319,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(CustomMipImage&& oth
 		image = other.image;
 		imageStorage = Image();
 	}
+	replacement = other.replacement;
 	return *this;
 }
 
-- 
2.43.0


From 79884786fc6cc4bfe717e8e6b076a6f18aa16695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 16/29] fix: release the image when running out of memory while
 creating it

---
 lib/src/Image.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index ec24cc4..d9254e0 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -710,7 +710,11 @@ struct Image::Impl
 			return nullptr;
 		}
 
-		return new Impl(image, format, colorSpace);
+		// Don't lose the image if the allocation fails.
+		std::unique_ptr<FIBITMAP, decltype(&FreeImage_Unload)> imageOwner(image, &FreeImage_Unload);
+		Impl* impl = new Impl(image, format, colorSpace);
+		imageOwner.release();
+		return impl;
 	}
 
 	Impl(FIBITMAP* img, Format format, ColorSpace colorSpace)
@@ -878,20 +882,17 @@ bool Image::load(const void* data, std::size_t size, ColorSpace colorSpace)
 {
 	reset();
 
-	FIMEMORY* memoryStream = FreeImage_OpenMemory((BYTE*)data, (DWORD)size);
+	std::unique_ptr<FIMEMORY, decltype(&FreeImage_CloseMemory)> memoryStream(
+		FreeImage_OpenMemory((BYTE*)data, (DWORD)size), &FreeImage_CloseMemory);
 	if (!memoryStream)
 		return false;
 
-	FREE_IMAGE_FORMAT format = FreeImage_GetFileTypeFromMemory(memoryStream);
+	FREE_IMAGE_FORMAT format = FreeImage_GetFileTypeFromMemory(memoryStream.get());
 	if (format == FIF_UNKNOWN)
-	{
-		FreeImage_CloseMemory(memoryStream);
 		return false;
-	}
 
-	m_impl.reset(Impl::create(FreeImage_LoadFromMemory(format, memoryStream), colorSpace,
+	m_impl.reset(Impl::create(FreeImage_LoadFromMemory(format, memoryStream.get()), colorSpace,
 		Format::Invalid));
-	FreeImage_CloseMemory(memoryStream);
 	return m_impl != nullptr;
 }
 
-- 
2.43.0


From 1b139ac928a0cff16f4a1c3e8f9cb583e6412c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 17/29] fix: report image lists that cannot be read

---
 tool/CommandLine.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 910c6a4..26c195b 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -546,6 +546,12 @@ bool readImageList(std::vector<std::string>& images, const char* fileName)
 			images.push_back(curStr);
 	}
 
+	if (stream.bad())
+	{
+		std::cerr << "error: couldn't read image list file '" << fileName << "'" << std::endl;
+		return false;
+	}
+
 	return true;
 }
 
@@ -618,6 +624,12 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		}
 	}
 
+	if (stream.bad())
+	{
+		std::cerr << "error: couldn't read custom mip file '" << fileName << "'" << std::endl;
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From dcfa657dcbf38fdeb61e8ff03e32404586aa3b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 18/29] fix: report mipmaps that cannot be generated

---
 tool/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 161f1f3..33abe4a 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -370,7 +370,11 @@ bool saveTexture(
 	{
 		if (args.log == CommandLine::Log::Verbose)
 			std::cout << "generating mipmaps" << std::endl;
-		texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages);
+		if (!texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages))
+		{
+			std::cerr << "error: failed to generate mipmaps" << std::endl;
+			return false;
+		}
 		customMipImages.clear();
 	}
 
-- 
2.43.0


From 6363c17a706afc7ed3708694e6cbebdc85f0813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 19/29] fix: report images that cannot be flipped

---
 tool/main.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 33abe4a..93903ba 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -242,7 +242,11 @@ bool loadAndProcessImage(Image& image, CommandLine& args, const std::string& pat
 			std::cout << "flipping image '" << path << "' along the X axis" <<
 				std::endl;
 		}
-		image.flipHorizontal();
+		if (!image.flipHorizontal())
+		{
+			std::cerr << "error: couldn't flip image '" << path << "'" << std::endl;
+			return false;
+		}
 	}
 
 	if (args.flipY)
@@ -252,7 +256,11 @@ bool loadAndProcessImage(Image& image, CommandLine& args, const std::string& pat
 			std::cout << "flipping image '" << path << "' along the Y axis" <<
 				std::endl;
 		}
-		image.flipVertical();
+		if (!image.flipVertical())
+		{
+			std::cerr << "error: couldn't flip image '" << path << "'" << std::endl;
+			return false;
+		}
 	}
 
 	if (args.swizzle)
-- 
2.43.0


From bf2b22d8b007866dfdadc380f02a3d4ebee17999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 20/29] fix: refuse custom mips for cubes that don't exist

---
 tool/CommandLine.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 26c195b..73c789e 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -763,6 +763,8 @@ bool validate(CommandLine& args)
 	}
 
 	auto depth = static_cast<unsigned int>(args.images.size());
+	if (args.dimension == Texture::Dimension::Cube)
+		depth /= 6;
 	std::vector<unsigned int> levelDepthCounts;
 	for (const auto& customMip : args.customMipImages)
 	{
-- 
2.43.0


From 470e381247ad2fa9fc263dcd0e0cd1a0403a2d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 21/29] fix: don't load images that couldn't be fully read

---
 lib/src/Image.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index d9254e0..bfbb672 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -853,7 +853,15 @@ bool Image::load(const char* fileName, ColorSpace colorSpace)
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	m_impl.reset(Impl::create(FreeImage_Load(format, fileName), colorSpace, Format::Invalid));
+	// Some decoders take data that couldn't be read for the end of the file.
+	std::ifstream stream(fileName, std::ifstream::binary);
+	if (!stream.is_open())
+		return false;
+
+	m_impl.reset(Impl::create(FreeImage_LoadFromHandle(format, &istreamIO, &stream), colorSpace,
+		Format::Invalid));
+	if (stream.bad())
+		reset();
 	return m_impl != nullptr;
 }
 
@@ -864,6 +872,11 @@ bool Image::load(std::istream& stream, ColorSpace colorSpace)
 	{
 		std::vector<std::uint8_t> data;
 		readStreamData(data, stream);
+		if (stream.bad())
+		{
+			reset();
+			return false;
+		}
 		return load(data.data(), data.size(), colorSpace);
 	}
 
@@ -875,6 +888,8 @@ bool Image::load(std::istream& stream, ColorSpace colorSpace)
 
 	m_impl.reset(Impl::create(FreeImage_LoadFromHandle(format, &istreamIO, &stream), colorSpace,
 		Format::Invalid));
+	if (stream.bad())
+		reset();
 	return m_impl != nullptr;
 }
 
-- 
2.43.0


From aba113f503fa85b05e8b9394d7f08789f4141593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 22/29] fix: report the masks and shifts of the right channels

---
 lib/src/Image.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index bfbb672..cb259b0 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -721,25 +721,25 @@ struct Image::Impl
 		: image(img), format(format), colorSpace(colorSpace), bitsPerPixel(FreeImage_GetBPP(img)),
 		width(FreeImage_GetWidth(img)), height(FreeImage_GetHeight(img)),
 		redMask(FreeImage_GetRedMask(img)), greenMask(FreeImage_GetGreenMask(img)),
-		blueMask(FreeImage_GetGreenMask(img)),
+		blueMask(FreeImage_GetBlueMask(img)),
 		alphaMask(format == Format::RGBA8 ? FI_RGBA_ALPHA_MASK : 0), redShift(0),
 		greenShift(0), blueShift(0), alphaShift(0)
 	{
-		if (redMask == FI_RGBA_RED)
+		if (redMask == FI_RGBA_RED_MASK)
 			redShift = FI_RGBA_RED_SHIFT;
 		else if (redMask == FI16_555_RED_MASK)
 			redShift = FI16_555_RED_SHIFT;
 		else if (redMask == FI16_565_RED_MASK)
 			redShift = FI16_565_RED_SHIFT;
 
-		if (greenMask == FI_RGBA_GREEN)
+		if (greenMask == FI_RGBA_GREEN_MASK)
 			greenShift = FI_RGBA_GREEN_SHIFT;
 		else if (greenMask == FI16_555_GREEN_MASK)
 			greenShift = FI16_555_GREEN_SHIFT;
 		else if (greenMask == FI16_565_GREEN_MASK)
 			greenShift = FI16_565_GREEN_SHIFT;
 
-		if (blueMask == FI_RGBA_BLUE)
+		if (blueMask == FI_RGBA_BLUE_MASK)
 			blueShift = FI_RGBA_BLUE_SHIFT;
 		else if (blueMask == FI16_555_BLUE_MASK)
 			blueShift = FI16_555_BLUE_SHIFT;
-- 
2.43.0


From 98c8f710a4d1494ce5992072297cda6663d2e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 23/29] fix: convert custom mip images to the texture's color
 space

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index c7e31db..4d7ffe5 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1452,6 +1452,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
 					if (!thisMipImage)
 						return false;
+					thisMipImage.changeColorSpace(m_impl->colorSpace);
 				}
 			}
 
@@ -1533,6 +1534,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
 						if (!thisMipImage)
 							return false;
+						thisMipImage.changeColorSpace(m_impl->colorSpace);
 					}
 					else
 						thisMipImage = std::move(curMip);
-- 
2.43.0


From 8ae98117568c9574a0f460bd2d0964476a669043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 24/29] fix: mark single-level cube maps as complex DDS
 surfaces

---
 lib/src/SaveDds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/SaveDds.cpp b/lib/src/SaveDds.cpp
index b2bcbf3..3c086f5 100644
--- a/lib/src/SaveDds.cpp
+++ b/lib/src/SaveDds.cpp
@@ -592,7 +592,7 @@ Texture::SaveResult saveDds(const Texture& texture, std::ostream& stream)
 	if (texture.mipLevelCount() > 1)
 		header.caps |= DdsCapsFlags_Mipmap;
 	if (texture.mipLevelCount() > 1 || texture.dimension() == Texture::Dimension::Dim3D ||
-		texture.dimension() == Texture::Dimension::Dim3D || texture.isArray())
+		texture.dimension() == Texture::Dimension::Cube || texture.isArray())
 	{
 		header.caps |= DdsCapsFlags_Complex;
 	}
-- 
2.43.0


From ea379a0f2ee625efef6979e74c0441885686f920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 25/29] fix: swap the KTX types of B8G8R8A8 and A8B8G8R8

---
 lib/src/SaveKtx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b7a45df..1b4f227 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -378,7 +378,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::B8G8R8A8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8;
+			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_BGRA;
 			switch (type)
@@ -405,7 +405,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::A8B8G8R8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
+			info.type = GL_UNSIGNED_INT_8_8_8_8;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_RGBA;
 			switch (type)
-- 
2.43.0


From 8720afea60490318aecbb9c278f481259519fab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 26/29] fix: store signed R8G8 as bytes in KTX

---
 lib/src/SaveKtx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index 1b4f227..b20fe79 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -298,22 +298,25 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::R8G8:
-			info.type = GL_UNSIGNED_BYTE;
 			info.typeSize = 1;
 			info.format = GL_RG;
 			info.baseInternalFormat = GL_LUMINANCE_ALPHA;
 			switch (type)
 			{
 				case Texture::Type::UNorm:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8;
 					return true;
 				case Texture::Type::SNorm:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8_SNORM;
 					return true;
 				case Texture::Type::UInt:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8UI;
 					return true;
 				case Texture::Type::Int:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8I;
 					return true;
 				default:
-- 
2.43.0


From f9468d4aec5fe409f7f03335b993b72e076dd5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 27/29] fix: use integer formats for integer textures in KTX

---
 lib/src/SaveKtx.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b20fe79..60a9afd 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -289,10 +289,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_R8UI;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
 					info.internalFormat = GL_R8I;
+					info.format = GL_RED_INTEGER;
 					return true;
 				default:
 					return false;
@@ -314,10 +316,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8UI;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8I;
+					info.format = GL_RG_INTEGER;
 					return true;
 				default:
 					return false;
@@ -341,10 +345,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RGB8UI;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
 					info.internalFormat = GL_RGB8I;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				default:
 					return false;
@@ -486,10 +492,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_R16UI;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_R16I;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -515,10 +523,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_RG16UI;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_RG16I;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -543,10 +553,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_RGB16UI;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_RGB16I;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -571,10 +583,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_RGBA16UI;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_RGBA16I;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -592,10 +606,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_R32UI;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_R32I;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
@@ -613,10 +629,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_RG32UI;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_RG32I;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
@@ -633,10 +651,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_RGB32UI;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_RGB32I;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
@@ -653,10 +673,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_RGBA32UI;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_RGBA32I;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
-- 
2.43.0


From 43b0d3a072086e542fefea8d8cc1fe4075f66255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 28/29] fix: load images from the current position of seekable
 streams

Seeks to an absolute position ignored where the image data starts within the stream, so some file
types (such as TIFF) couldn't be loaded from a seekable stream that had been read before, while the
same bytes loaded from a stream that can't seek.
---
 lib/src/Image.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index cb259b0..6626413 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -208,6 +208,12 @@ bool isRGB16BPPFormat(Image::Format format)
 	}
 }
 
+struct IStreamSource
+{
+	std::istream* stream;
+	std::streamoff start;
+};
+
 void clearIStreamEnd(std::istream& stream)
 {
 	if (!stream.good() && !stream.bad())
@@ -216,7 +222,7 @@ void clearIStreamEnd(std::istream& stream)
 
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
-	auto stream = reinterpret_cast<std::istream*>(handle);
+	std::istream* stream = reinterpret_cast<IStreamSource*>(handle)->stream;
 	if (size == 0)
 		return 0;
 
@@ -234,12 +240,16 @@ unsigned int writeIStream(void*, unsigned int, unsigned int, fi_handle)
 
 int seekIStream(fi_handle handle, long offset, int origin)
 {
-	auto stream = reinterpret_cast<std::istream*>(handle);
+	auto source = reinterpret_cast<IStreamSource*>(handle);
+	std::istream* stream = source->stream;
+	std::streamoff streamOffset = offset;
 	std::ios_base::seekdir dir;
 	switch (origin)
 	{
 		case SEEK_SET:
+			// The data starts at the initial position of the stream.
 			dir = std::ios_base::beg;
+			streamOffset += source->start;
 			break;
 		case SEEK_CUR:
 			dir = std::ios_base::cur;
@@ -250,7 +260,7 @@ int seekIStream(fi_handle handle, long offset, int origin)
 		default:
 			return -1;
 	}
-	stream->seekg(offset, dir);
+	stream->seekg(streamOffset, dir);
 	bool success = !stream->fail();
 	clearIStreamEnd(*stream);
 	return success ? 0 : -1;
@@ -258,8 +268,9 @@ int seekIStream(fi_handle handle, long offset, int origin)
 
 long tellIStream(fi_handle handle)
 {
-	auto stream = reinterpret_cast<std::istream*>(handle);
-	return static_cast<long>(stream->tellg());
+	auto source = reinterpret_cast<IStreamSource*>(handle);
+	std::streamoff position = source->stream->tellg();
+	return position < 0 ? -1L : static_cast<long>(position - source->start);
 }
 
 FreeImageIO istreamIO{&readIStream, &writeIStream, &seekIStream, tellIStream};
@@ -858,7 +869,8 @@ bool Image::load(const char* fileName, ColorSpace colorSpace)
 	if (!stream.is_open())
 		return false;
 
-	m_impl.reset(Impl::create(FreeImage_LoadFromHandle(format, &istreamIO, &stream), colorSpace,
+	IStreamSource source = {&stream, 0};
+	m_impl.reset(Impl::create(FreeImage_LoadFromHandle(format, &istreamIO, &source), colorSpace,
 		Format::Invalid));
 	if (stream.bad())
 		reset();
@@ -868,7 +880,8 @@ bool Image::load(const char* fileName, ColorSpace colorSpace)
 bool Image::load(std::istream& stream, ColorSpace colorSpace)
 {
 	// Seeking is needed to detect the file type.
-	if (stream.tellg() < 0)
+	IStreamSource source = {&stream, stream.tellg()};
+	if (source.start < 0)
 	{
 		std::vector<std::uint8_t> data;
 		readStreamData(data, stream);
@@ -882,11 +895,11 @@ bool Image::load(std::istream& stream, ColorSpace colorSpace)
 
 	reset();
 
-	FREE_IMAGE_FORMAT format = FreeImage_GetFileTypeFromHandle(&istreamIO, &stream);
+	FREE_IMAGE_FORMAT format = FreeImage_GetFileTypeFromHandle(&istreamIO, &source);
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	m_impl.reset(Impl::create(FreeImage_LoadFromHandle(format, &istreamIO, &stream), colorSpace,
+	m_impl.reset(Impl::create(FreeImage_LoadFromHandle(format, &istreamIO, &source), colorSpace,
 		Format::Invalid));
 	if (stream.bad())
 		reset();
-- 
2.43.0


From 125d7db4ae2a392d6c4c0098e088ceae3f7ceb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 29/29] fix: load images from streams with exceptions enabled

---
 lib/src/Image.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 6626413..96e23a4 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -220,6 +220,37 @@ void clearIStreamEnd(std::istream& stream)
 		stream.clear();
 }
 
+// Reaching the end of the data is part of loading an image, and exceptions can't be thrown through
+// FreeImage.
+class DisableIStreamExceptions
+{
+public:
+	explicit DisableIStreamExceptions(std::istream& stream)
+		: m_stream(stream), m_exceptions(stream.exceptions())
+	{
+		stream.exceptions(std::ios_base::goodbit);
+	}
+
+	~DisableIStreamExceptions()
+	{
+		try
+		{
+			m_stream.exceptions(m_exceptions);
+		}
+		catch (...)
+		{
+			// Throws if already in a bad state. The exceptions are still restored.
+		}
+	}
+
+	DisableIStreamExceptions(const DisableIStreamExceptions&) = delete;
+	DisableIStreamExceptions& operator=(const DisableIStreamExceptions&) = delete;
+
+private:
+	std::istream& m_stream;
+	std::ios_base::iostate m_exceptions;
+};
+
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	std::istream* stream = reinterpret_cast<IStreamSource*>(handle)->stream;
@@ -879,6 +910,8 @@ bool Image::load(const char* fileName, ColorSpace colorSpace)
 
 bool Image::load(std::istream& stream, ColorSpace colorSpace)
 {
+	DisableIStreamExceptions disableExceptions(stream);
+
 	// Seeking is needed to detect the file type.
 	IStreamSource source = {&stream, stream.tellg()};
 	if (source.start < 0)
-- 
2.43.0

