import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","Converted bytes do not depend on thread count or interleaving",
 "Converting a texture yields, for every mip level, depth slice and face, exactly the bytes that a single-threaded conversion of the same images yields, whatever number of threads is requested, whatever number of cores the machine reports and however the worker threads are interleaved. While converting, no two threads access the same memory in conflicting ways without synchronisation and nothing outside live buffers is touched. When the call returns every worker it started has finished, and it always returns.",
 ["schedules","inputs","configurations"],
 "all interleavings of the worker threads, all thread counts (0, 1, more than jobs, all cores with any reported core count), all texture shapes, formats and types",
 "The tests convert small images with whatever schedule the OS happens to pick and the machine's own core count; a lost job, a torn counter or a worker that outlives the call shows only under particular preemptions.",
 ["lib/src/Converter.cpp","lib/src/StandardConverter.h","lib/src/Texture.cpp"],
 [("shared atomic job counter handed out to workers that are joined per image","lib/src/Converter.cpp Converter::convert"),
  ("1-D batches of 32 pixels so that workers write disjoint ranges","lib/src/StandardConverter.h jobsX/process"),
  ("allCores replaced by hardware_concurrency","lib/src/Texture.cpp Texture::convert")],
 [("job counter","index of the next batch to convert","Converter::convert curJob"),("output buffer","converted bytes of the current image","Converter::data")],
 ["Texture::data/dataSize after convert","memory accesses of all threads","threads alive on return"])

p("C02","Callers on different threads do not disturb each other",
 "Threads that work on distinct images and textures, or that only read shared ones (including copying, converting or resizing from a shared image), get exactly the results each would get running alone, for every interleaving. This includes the very first uses of the library, made by several threads at once. No unsynchronised conflicting access to shared memory happens inside the library.",
 ["schedules","histories"],
 "all interleavings of 2-4 caller threads running operation scripts over the image, texture, format-query and save/load API, from process start",
 "Every existing test is single-threaded at the API level; hidden shared state (function-local statics, scratch buffers, lazy initialisation) is invisible to them.",
 ["lib/src/Image.cpp","lib/src/Texture.cpp","lib/src/Converter.cpp","lib/src/Shared.cpp","lib/src/HalfFloat.cpp"],
 [("no mutable shared state besides one-time library initialisation through a function-local static","lib/src/Image.cpp freeImageInitialize, lib/src/Texture.cpp emptyImage"),
  ("const tables","lib/src/Texture.cpp isFormatValid/blockSize")],
 [],["results of each script","memory accesses of all threads"])

p("C03","Conversion survives failing threads and memory",
 "When the system refuses to start some or all worker threads, or a memory allocation fails, during a conversion, the call either produces exactly the bytes of an undisturbed conversion and reports success, or reports failure by returning false or throwing; it never terminates the process, hangs, or leaves workers behind. A conversion that reported failure leaves a texture that reports itself as not converted, hands out no data and refuses to be saved. Once resources are back, setting the images and converting again works.",
 ["fault_sequences","inputs","schedules"],
 "every thread start and every allocation made during a conversion failing singly or persistently, for all texture shapes, formats and thread counts",
 "Tests never see a failed thread start or allocation; the failure paths are only executed under resource exhaustion at a chosen point.",
 ["lib/src/Converter.cpp","lib/src/Texture.cpp"],
 [("workers are started one by one and joined","lib/src/Converter.cpp Converter::convert"),
  ("conversion state reset on failure","lib/src/Texture.cpp Texture::convert")],
 [("converted surfaces","data per mip/depth/face; non-empty means converted","Texture::Impl::textures")],
 ["Texture::convert result or exception","Texture::converted/data/save afterwards"])

p("C04","A texture save reports success only when every byte was stored",
 "Saving a texture to a file, stream or byte vector reports success if and only if the complete container has been accepted by the destination, including whatever is only written or rejected when the file is flushed or closed. If the disk is full, a write or close fails, the file cannot be opened or the stream refuses bytes at any point, the save reports a write error. Interrupted and partial writes that can be continued are continued and do not lose, duplicate or reorder bytes.",
 ["fault_sequences","inputs"],
 "every byte offset and every I/O call at which open, write, flush or close can fail or be shortened, for all textures, container types and sink kinds",
 "The tests save to healthy memory and disk only; an error at a chosen byte, and especially one delivered at close time, needs an injected disk fault.",
 ["lib/src/Texture.cpp","lib/src/SaveDds.cpp","lib/src/SaveKtx.cpp","lib/src/SavePvr.cpp","lib/src/Shared.h"],
 [("every write is followed by a stream state check","lib/src/Shared.h write, SaveDds/SaveKtx/SavePvr"),
  ("file stream opened, written and closed by the save call","lib/src/Texture.cpp Texture::save(const char*)")],
 [],["Texture::save result versus bytes in the destination"])

p("C05","Every sink receives the same faithful container",
 "For a converted texture, the DDS, KTX or PVR bytes that arrive at the destination are the same whether saved to a file, a stream or a byte vector, on the first or a repeated save, whatever was in the destination before (a stream is written from its current position on), however the destination splits the writes, and whatever other textures were saved before or concurrently. A reader that knows only the container format recovers from them the dimensions, mip count, layer count, face count, colour space, pixel format (channels, their order, size and type) and exactly the bytes of every mip level, slice and face, with nothing missing or left over; read through the pixel format the header declares, the texels are those of the source picture. Saving changes nothing observable about the texture.",
 ["histories","fault_sequences","inputs","configurations"],
 "all texture shapes, formats, types and containers, all sequences of saves to reused sinks, all write chunkings and interruptions",
 "The tests compare a few sizes and header fields for fixed textures on one sink; odd row paddings, arrays of cubes, reused sinks, mid-stream positions and chunked sinks are never combined.",
 ["lib/src/SaveDds.cpp","lib/src/SaveKtx.cpp","lib/src/SavePvr.cpp","lib/src/Texture.cpp","lib/src/Shared.cpp"],
 [("sequential container writers shared by all sinks","lib/src/SaveDds.cpp saveDds, SaveKtx.cpp saveKtx, SavePvr.cpp savePvr"),
  ("byte vector filled from a string stream","lib/src/Texture.cpp, lib/src/Shared.cpp readStreamData")],
 [],["bytes at the destination decoded by an independent reader"])

p("C06","A refused save or conversion leaves the destination untouched",
 "When a texture or image save is refused because the object is invalid or not converted, the file name is missing, the file type is unknown or the format cannot be stored in that file type, nothing happens to the destination: an existing file keeps its contents, no file or directory is created, a stream receives no bytes and a byte vector keeps its contents. The same holds when the destination cannot be opened. The result reported names the reason: invalid, unknown format, unsupported or write error.",
 ["histories","fault_sequences","inputs"],
 "all refused saves (every format/container pair, every extension, invalid and unconverted objects) against absent, existing and unopenable destinations",
 "Tests check the returned code only, not what happened to a file that was already there.",
 ["lib/src/Texture.cpp","lib/src/Image.cpp","lib/src/SaveDds.cpp","lib/src/SaveKtx.cpp","lib/src/SavePvr.cpp"],
 [("validity and format checks that precede the first write","Texture::save, saveDds/saveKtx/savePvr, Image::save")],
 [],["file system operations issued","destination contents before and after"])

p("C07","Image loading is independent of how the bytes arrive",
 "Loading an image gives the same outcome and the same pixels - those the file encodes, whatever it is called - whether the encoded bytes come from a file, from memory, from a seekable stream or from a stream that cannot seek (starting at its current position, and whether or not its exceptions are enabled), and however reads are split, interrupted or buffered. When the source is truncated, loading either fails or yields a fully usable image; when the source reports a read error, loading either fails or yields the same image as without the error. Loading never crashes, hangs or reports success for an image that is not valid. A load that fails leaves the image invalid, not holding its previous contents.",
 ["inputs","fault_sequences","histories"],
 "all encoded images, all ways of splitting reads, all truncation points and read-error points, all source kinds and previous states of the image",
 "Tests load a handful of intact files from disk and healthy streams that deliver everything at once.",
 ["lib/src/Image.cpp","lib/src/Shared.cpp"],
 [("FreeImage I/O callbacks over istream","lib/src/Image.cpp readIStream/seekIStream/tellIStream"),
  ("fallback that slurps non-seekable streams","lib/src/Image.cpp Image::load(istream), lib/src/Shared.cpp readStreamData")],
 [],["Image::load result, isValid, pixels"])

p("C08","An image save reports success only when a loadable file was stored",
 "Saving an image to a file, stream or byte vector returns true only if the complete encoded file was accepted by the destination (up to and including closing it), and then loading it back from there gives the same size and, for lossless formats, the same pixels. Disk-full, write, seek, open and close errors at any point, and streams that refuse bytes, make it return false. All sinks receive the same bytes.",
 ["fault_sequences","inputs"],
 "every byte offset and I/O call at which the sink can fail, all image formats and encodings, all sink kinds",
 "The tests save to healthy sinks in one or two file formats; error delivery during and after encoding is never exercised.",
 ["lib/src/Image.cpp","lib/src/Shared.cpp"],
 [("FreeImage I/O callbacks over ostream","lib/src/Image.cpp writeOStream/seekOStream/tellOStream"),
  ("result of the encoder returned","lib/src/Image.cpp Image::save")],
 [],["Image::save result versus bytes in the destination","reload of the destination"])

p("C09","The command line tool's exit status tells the truth",
 "The tool exits with 0 if and only if the requested output file exists with exactly the contents an undisturbed run produces, whatever number of jobs is requested. Under any disk or resource failure it exits non-zero with an error message on standard error (unless a resize or pixel conversion could be completed in another way despite the failing library call): 1 when the command line or an image list cannot be read, 2 when an input image cannot be loaded, 3 when the texture cannot be converted or stored. A run that fails before writing leaves the output path untouched.",
 ["fault_sequences","inputs","configurations","schedules"],
 "every file-system call of a run failing, shortening or being interrupted, for all combinations of texture kind, format, container, processing options and job counts",
 "The command line tests run the tool on intact inputs with a healthy disk, and check the exit code of a few invalid command lines.",
 ["tool/main.cpp","tool/CommandLine.cpp","lib/src/Texture.cpp","lib/src/Image.cpp"],
 [("stage-wise error propagation to distinct exit codes","tool/main.cpp main/loadImages/saveTexture"),
  ("list file readers","tool/CommandLine.cpp readImageList/readCustomMipList")],
 [],["exit status, standard error and output file of a run"])

p("C10","Creating the output directory is minimal and race tolerant",
 "With the create-directory option, saving below missing directories succeeds by creating exactly the missing ancestors of the output file, including when another process creates or is creating some of them at the same time, and fails with the save exit status and an error message if one of them cannot be created. Without the option, or when the run fails for a reason unrelated to the missing directory (bad arguments, unloadable input, conversion failure, unsupported format), no directory is created. No existing file or directory is removed or altered on the way.",
 ["fault_sequences","schedules","inputs","histories"],
 "all relative and absolute output paths, all sets of already existing ancestors, all points at which directory creation can fail or lose a race",
 "The tests never use the option with failing or concurrently created directories.",
 ["tool/main.cpp"],
 [("mkdir for each prefix, tolerating EEXIST","tool/main.cpp createParentDir"),
  ("directories are created only after a failed first write","tool/main.cpp saveTexture")],
 [],["mkdir calls and final directory tree"])

p("C11","A texture stays coherent through any history of operations",
 "After any sequence of creating, filling, generating mipmaps, converting, copying, moving, saving and resetting, in which any step may be refused or run out of memory, the texture's queries agree with each other: it reports itself converted exactly when every mip level, slice and face has data of the right size, that data belongs to the last successful conversion, and format, type, alpha and mask are those of that conversion. Out-of-range queries return empty results rather than touching memory. Copies are independent of their source, and a refused operation changes nothing that can be observed.",
 ["histories","fault_sequences"],
 "all operation sequences over several textures, with invalid arguments and allocation failures at any step",
 "Tests follow straight-line scripts: initialise, set, convert, check. Refused or failed steps followed by further use, reuse after conversion and copies of half-filled textures are not sampled.",
 ["lib/src/Texture.cpp","lib/src/Converter.cpp","lib/include/cuttlefish/Texture.h"],
 [("argument validation at the start of every operation","lib/src/Texture.cpp"),
  ("deep copies of images and converted data","lib/src/Texture.cpp Texture copy operations")],
 [("mip level count","number of levels every query is checked against","Texture::Impl::mipLevels"),("converted surfaces","result of last conversion","Texture::Impl::textures")],
 ["all public queries of the texture after every step"])

p("C12","Mipmap generation is complete, per-surface and fails cleanly",
 "When mipmap generation reports success, every requested level of every face and slice holds a valid image of that level's size which depends only on that surface's own base image and the custom images given for it: a custom image (in the texture's colour space) replaces exactly its level, levels below continue from it or, if it was given for that level only, from the chain without it. When memory runs out or the custom images are inconsistent it reports failure, and the texture can then not be converted into something incomplete, nor does any later operation touch memory out of range; the base level is unchanged and generating again without the fault succeeds.",
 ["histories","fault_sequences","inputs"],
 "all texture shapes, level counts, filters and custom image sets, with image or memory allocation failing at any point, followed by conversion, saving or a retry",
 "Tests cover a few fixed chains without faults; cross-surface leakage and half-generated chains need particular combinations of faces, replacement modes and failure points.",
 ["lib/src/Texture.cpp","tool/main.cpp"],
 [("per-surface chain with saved state for one-level replacements","lib/src/Texture.cpp Texture::generateMipmaps"),
  ("consistency checks of 3D custom mips","lib/src/Texture.cpp Texture::generateMipmaps"),
  ("completeness check before conversion","lib/src/Texture.cpp Texture::imagesComplete")],
 [],["Texture::getImage for every surface","Texture::imagesComplete/convert after a failure"])

p("C13","Image operations are isolated and fail cleanly when memory runs out",
 "Through any history of image operations in which allocations may fail, an operation either completes with the result it has in an undisturbed run (a resize or pixel conversion may instead complete through its fallback algorithm, with the same size and format), or reports failure by returning false or an invalid image or by throwing, without crashing. Operations that produce a new image give it the size and format asked for and the colour space of their source, which they leave unchanged; copies are equal to their source and never share pixels; turning and mirroring move pixels and change none; moved-from, reset and failed images are invalid, and queries on an invalid image or outside its bounds return nothing and touch no memory. A valid image always reports consistent size, format and colour space and gives access to every scanline and pixel.",
 ["histories","fault_sequences"],
 "all sequences of load, initialise, copy, move, convert, resize, rotate, flip, colour-space, swizzle and normal-map operations over a pool of images of every pixel format, with memory failures at any step",
 "Tests apply single operations to fresh images with memory always available.",
 ["lib/src/Image.cpp","lib/include/cuttlefish/Image.h"],
 [("deep clone on copy","lib/src/Image.cpp Image copy operations"),
  ("null result checks around every library call","lib/src/Image.cpp Image::Impl::create and callers")],
 [],["pixels and queries of every image of the pool after every step"])

p("C14","No operation leaks memory, bitmaps, file handles or threads",
 "Whatever combination of operations ran, succeeded, was refused, or failed because of disk, stream, thread or memory faults, once the images and textures involved are destroyed all memory, bitmaps, memory streams, open files and threads that the operations acquired have been released exactly once. An operation that does not hand out a resource releases what it acquired before it returns.",
 ["fault_sequences","histories","schedules"],
 "all operations of the library and all points at which a disk, stream, thread or memory fault can hit them",
 "Leaks on failure paths need the failure; the tests neither inject failures nor account for resources.",
 ["lib/src/Image.cpp","lib/src/Texture.cpp","lib/src/Converter.cpp"],
 [("ownership by unique pointers and explicit unload/close calls","lib/src/Image.cpp Image::Impl, Image::load(memory)"),
  ("streams owned by the save call","lib/src/Texture.cpp Texture::save")],
 [],["ledger of allocations, bitmaps, memory streams, descriptors and threads"])

p("C15","Pixel encodings are numerically correct for every format",
 "Every supported format and type stores each colour channel as the nearest representable value of the source colour in the documented bit layout, with out-of-range values clamped.",
 ["inputs"],"all pixel values, formats and types",
 "Tests check a few sample colours per format.",
 ["lib/src/StandardConverter.h","lib/src/StandardConverter.cpp","lib/src/HalfFloat.cpp"],
 [("per-format converters","lib/src/StandardConverter.h")])

p("C16","Image arithmetic is numerically correct",
 "Resizing, rotation, flipping, colour-space change, grayscale, swizzling, alpha pre-multiplication and normal-map generation compute the documented function of the source pixels for every size, filter and pixel format.",
 ["inputs"],"all images, sizes, filters and pixel formats",
 "Tests check fixed small images.",
 ["lib/src/Image.cpp","lib/include/cuttlefish/Color.h"],
 [("pixel loops","lib/src/Image.cpp")])

p("C17","The command line grammar accepts exactly the documented options",
 "Every documented option and combination is accepted with its documented meaning and processing order, and everything else is rejected with an explanation.",
 ["inputs","configurations"],"all command lines",
 "Tests check a sample of valid and invalid command lines.",
 ["tool/CommandLine.cpp","README.md"],
 [("hand-written option parser","tool/CommandLine.cpp")])

p("C18","Block-compressed encoders honour quality, mask and alpha settings",
 "The S3TC, ETC, ASTC and PVRTC encoders produce valid blocks for every image size, honouring quality, colour mask and alpha mode, independent of thread count.",
 ["inputs","schedules","configurations"],"all images, formats and settings of the block-compressed encoders",
 "Tests are disabled together with the encoders in this build.",
 ["lib/src/S3tcConverter.cpp","lib/src/EtcConverter.cpp","lib/src/AstcConverter.cpp","lib/src/PvrtcConverter.cpp"],
 [("third-party encoders behind the converter interface","lib/src/Converter.cpp createConverter")])
p("C19","The past of a process does not matter to new objects",
 "What an operation on newly created images and textures yields - its result, pixels, bytes, files and queries - is what it yields in a process that has done nothing before. It does not depend on which operations ran earlier on other objects, whether they succeeded, were refused, or failed for lack of memory, threads or disk space, nor on the time, the reported number of cores or what memory held before. In particular a failed operation never leaves the process in a state in which later operations fail, hang or give other results.",
 ["histories","fault_sequences"],
 "all sequences of library operations with faults at any point, followed by any sequence of operations on fresh objects",
 "Every test runs its operations once, without faults, in the order the test runner chooses; state left behind by a failed operation is never looked at.",
 ["lib/src/Image.cpp","lib/src/Texture.cpp","lib/src/Converter.cpp","lib/src/Shared.cpp","lib/src/HalfFloat.cpp"],
 [("one-time initialisation of the image library","lib/src/Image.cpp FreeImageInitializer"),
  ("lookup tables and other function-local or file-level statics","lib/src"),
  ("no state outside Image::Impl and Texture::Impl","lib/src/Image.cpp, lib/src/Texture.cpp")],
 [],["results of a script run in a forked fresh process and again after a faulted past"])

p("C20","A killed run does no lasting damage",
 "When the command line tool, or a save of a texture or image to a file, is killed at any moment, everything but the output file and, with the create-directory option, the directories above it is as before. Running the same command or save again, whatever the killed run left behind, succeeds and leaves exactly the output of an undisturbed run.",
 ["crash_points","histories"],
 "all points at which the process can be killed, including in the middle of a write and several times in a row, with the output absent, present or partly written before",
 "Tests never interrupt a run; what an interrupted run leaves on disk and how the next one copes with it is never exercised.",
 ["tool/main.cpp","lib/src/Texture.cpp","lib/src/Image.cpp"],
 [("output opened truncating","lib/src/Texture.cpp Texture::save, lib/src/Image.cpp Image::save"),
  ("directories created on demand, existing ones tolerated","tool/main.cpp createParentDir")],
 [],["the file tree after the kill and after the repeated command"])

p("C21","No input, fault or schedule makes it touch memory it does not own",
 "Whatever images are loaded (including damaged files), whatever operations are combined, whatever fails underneath and however threads interleave, the library and the tool read and write only memory of live objects within their bounds, release everything at most once, never access the same memory from two threads without ordering, and neither crash, terminate the process, deadlock nor loop forever.",
 ["inputs","schedules","histories"],
 "all image files including damaged ones, all operation histories, fault sequences and thread interleavings",
 "Tests load intact files and run without sanitizers, faults or a choice of schedule; an access just outside a block, or after its release on an error path, goes unnoticed.",
 ["lib/src/Image.cpp","lib/src/Texture.cpp","lib/src/Converter.cpp","lib/src/StandardConverter.h","lib/src/StandardConverter.cpp","tool/main.cpp","tool/CommandLine.cpp"],
 [("pixels accessed through scanlines","lib/src/Image.cpp getPixelImpl/setPixelImpl, lib/src/StandardConverter.h process"),
  ("jobs handed out to threads","lib/src/Converter.cpp Converter::convert"),
  ("ownership of bitmaps","lib/src/Image.cpp Impl::create")],
 [],["every instrumented access, release, signal and the end of every run"])

for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
