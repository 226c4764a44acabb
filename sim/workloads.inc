#define STUB_ALL "thread scheduler, clock and hardware-concurrency report, operator new, disk (all file system calls act on an in-memory disk), allocation failures of FreeImage"
#define REAL_LIB "all of lib/src built from the working tree (compiled with memory-access instrumentation), FreeImage's image algorithms and codecs, libstdc++ iostreams"
#define ASSUME "Sequentially consistent execution: weak-memory reorderings are not simulated, only reported as data races. FreeImage and libstdc++ code is not instrumented: their accesses to image pixels are modelled at call granularity."
{"C01", runC01, none, 7000, "exploration", "Random textures (every standard format and type, 1D/2D/3D/cube, arrays, mip chains, sizes around multiples of the conversion tile, occasionally a surface above two million pixels) converted under a random thread count, reported core count and thread schedule and compared byte for byte with a one-thread conversion; happens-before race detection and bounds checks on every access; no worker may outlive the call. Nontrivial: at least one worker thread was started.", REAL_LIB, STUB_ALL, ASSUME},
{"C02", runC02, none, 20000, "exploration", "2-4 caller threads run random scripts of image and texture operations on their own and on shared read-only objects under a random schedule; half the runs make the very first use of the library concurrently. Each result is compared with the same script run alone. Nontrivial: all runs (at least two callers).", REAL_LIB, STUB_ALL, ASSUME},
{"C03", runC03, none, 12000, "exploration", "A rehearsal counts thread starts, allocations and image-library calls of a random conversion; then thread starts and allocations are made to fail at drawn points (single, double, persistent, combined). Success must equal the undisturbed bytes, failure must leave an unconverted texture that can be converted again. Nontrivial: a fault fired.", REAL_LIB, STUB_ALL, ASSUME},
{"C04", runC04, none, 150000, "fault_enumeration", "Random converted textures saved as DDS, KTX or PVR to a file on the simulated disk, a stream or a vector. A rehearsal counts the writes; then one drawn fault hits an open, the nth write (ENOSPC, EIO, EDQUOT, EFBIG), a byte budget, the close (which loses data), a stream that refuses bytes from a drawn position on or is bad on entry, or an allocation, together with interrupted and short writes that must be continued. Success must mean that the destination holds exactly the reference bytes; a failure must have a cause and be a write error; then the same save without faults must succeed. Nontrivial: a fault that cannot be continued fired.", REAL_LIB, STUB_ALL, ASSUME},
{"C05", runC05, none, 100000, "exploration", "Random converted textures of every storable format saved repeatedly to files, vectors, seekable and non-seekable streams, byte-wise, chunked and buffered streams from a drawn position, reused sinks and concurrently with another texture. All bytes must equal the first save, which an independent DDS, KTX or PVR reader must decode into exactly the converted data and attributes. Nontrivial: every run that decoded a file.", REAL_LIB, STUB_ALL, ASSUME},
{"C06", runC06, none, 200000, "exploration", "Textures and images whose save must be refused (invalid, not converted, no name, unknown type, format the container cannot hold, unwritable extension) or whose destination cannot be opened, against existing and absent files, streams and vectors; the simulated disk, the stream and the vector must be untouched and the result code right. Then a refused conversion must leave the texture as it was. Nontrivial: every run.", REAL_LIB, STUB_ALL, ASSUME},
{"C07", runC07, prepareImages, 40000, "exploration", "Encoded images of every file format and pixel type the installed FreeImage can write, loaded from files, memory, string and file streams, seekable and non-seekable streams that deliver drawn piece sizes, interrupted and short reads; all must give the pixels a load from memory gives. Sources that end or fail at a drawn byte or call must fail with an invalid image or yield a fully accessible one. Nontrivial: every run (at least one load besides the reference).", REAL_LIB, STUB_ALL, ASSUME},
{"C08", runC08, prepareImages, 60000, "fault_enumeration", "Random images of every pixel format saved to files on the simulated disk, streams and vectors in 20 file types; one drawn fault per save (open, nth write, byte budget, close, seek, refusing stream, allocation, image library) plus interrupted and short writes. True must mean the destination holds exactly the bytes an undisturbed save gives, which must load again with the same size and, for lossless formats, the same pixels; false must have a cause. Nontrivial: the image could be saved.", REAL_LIB, STUB_ALL, ASSUME},
{"C13", runC13, prepareImages, 80000, "exploration", "Random histories of 2-11 operations on three images of random formats; each operation first runs undisturbed on copies, then on the real images with an allocation or image library call failing at a drawn point. Completed operations must give the undisturbed result, failed ones an invalid image, false or an exception; all images are checked completely after each step. Nontrivial: a fault fired.", REAL_LIB, STUB_ALL, ASSUME},
{"C11", runC11, none, 100000, "exploration", "Random histories of 3-16 operations (initialize, set, fill, generate mipmaps, convert with any thread count, copy, assign, move, swap, reset, save, and refused variants of them) on three textures; a reference model predicts everything observable after each step; one operation in four gets an allocation, thread or image library failure. Nontrivial: a conversion was checked or a fault fired.", REAL_LIB, STUB_ALL, ASSUME},
{"C12", runC12, none, 90000, "exploration", "Random textures of every dimension with random custom mip images (both replacement modes, given by reference, storage or assignment, sometimes inconsistent); mipmaps are generated, in half of the runs with an allocation or image library failure, and every level compared with a chain computed surface by surface; then converted, saved, and generated again. Nontrivial: every run.", REAL_LIB, STUB_ALL, ASSUME},
{"C14", runC14, prepareImages, 30000, "exploration", "After a warm-up that absorbs one-time initialisation, one randomly chosen scenario of the other properties (conversions, saves, loads, histories of images and textures, mipmaps, concurrent callers) runs with its faults; when everything it created is destroyed, every memory block, bitmap, memory stream, file and thread acquired by the library since must have been released, each exactly once. Nontrivial: every run that reaches the comparison.", REAL_LIB, STUB_ALL, ASSUME},
{"C09", runC09, prepareImages, 16000, "exploration", "The command line tool runs in-process on random valid command lines (all texture kinds, storable formats, containers and processing options, images given directly or in list files). An undisturbed run must exit 0 with exactly the file that the documented processing gives through the library and an independent decoder accepts; then up to three disturbed runs: a disk call failing, short or interrupted, a full disk, threads, image library or allocations failing, missing or unreadable inputs, lists and destinations, bad arguments, or another number of jobs under another schedule. Nontrivial: a fault fired or the command had to fail.", REAL_LIB ", the whole tool (tool/main.cpp, tool/CommandLine.cpp)", STUB_ALL, ASSUME},
{"C10", runC10, prepareImages, 22000, "exploration", "The tool runs in-process with and without --create-dir on random absolute and relative output paths, some of whose ancestors exist, are files or are read-only; creating a directory fails, loses a race against another process, or two to four runs of the tool create overlapping paths at the same time under a random schedule; other runs fail for another reason. Every created directory is compared with a model of the path. Nontrivial: a directory had to be created, a directory fault or a race.", REAL_LIB ", the whole tool (tool/main.cpp, tool/CommandLine.cpp)", STUB_ALL, ASSUME},
{"C19", runC19, none, 28000, "exploration", "A script of 1-4 operations (images, conversions, saves, loads, mipmaps, queries) runs in a forked process without a past and again in the same process after 1-5 other operations, many of which fail for lack of memory, threads, disk or because the image library fails, and after the clock jumped; results must be equal. Nontrivial: a fault fired in the past.", REAL_LIB, STUB_ALL, ASSUME},
{"C20", runC20, prepareImages, 14000, "fault_enumeration", "An undisturbed run of the command line tool (or of a texture or image save) counts its changes to the disk; then runs of it are killed at a drawn change, once or twice, a write getting through in part. Nothing but the output may be touched, and the same command afterwards must succeed and leave the output of the undisturbed run. Nontrivial: a run was killed.", REAL_LIB, STUB_ALL, ASSUME},
{"C21", runC21, prepareImages, 36000, "exploration", "Damaged image files of every kind are loaded from every source and passed through the rest of the library, or one randomly chosen scenario of the other properties runs with its faults and schedules; every memory access of the library and the tool is checked against the bounds and lifetime of heap blocks and against unordered accesses of other threads, every release against a double one, and crashes, termination, deadlock and endless loops are caught. Nontrivial: every run.", REAL_LIB, STUB_ALL, ASSUME},
