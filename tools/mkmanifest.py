#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("exploration", T + "seeded random thread schedules over the real conversion workers, every surface compared with a single-threaded reference, data races and thread leaks checked at every instrumented access",
   "Every run is a random texture converted under a seeded schedule of fibers standing for the worker threads; assumes sequential consistency, with unordered conflicting accesses reported as races."),
 "C02": ("exploration", T + "seeded schedules of several caller threads running operation scripts, results compared with each script run alone, happens-before race detection over instrumented accesses",
   "Covers image, texture, query and save calls incl. first use of the library in a fresh process; FreeImage internals are atomic steps."),
 "C03": ("exploration", T + "seeded thread-start and allocation failures at drawn points of conversions, compared with a fault-free rehearsal",
   "Failure points are drawn uniformly among those the rehearsal reached; combined and persistent failures included."),
 "C04": ("fault_enumeration", T + "one drawn disk, sink or allocation fault per save at any call or byte, reported result compared with the bytes that arrived",
   "Faults on an in-memory disk behind the C and POSIX file calls and behind stream buffers; each save's own calls are counted first and a fault point drawn from them."),
 "C05": ("exploration", T + "random save histories to all sink kinds with short and interrupted writes and concurrent callers, bytes compared with an independent container decoder and between sinks",
   "The oracle is an independent reader of DDS, KTX and PVR written from their specifications."),
 "C06": ("exploration", T + "random refused or unopenable saves against existing and absent destinations on a simulated disk that records every operation",
   "Destination state and operations on it are compared before and after; result codes come from an independent support table."),
 "C07": ("exploration", T + "random encoded images loaded through simulated files, memory and streams with short, interrupted, failing and truncated reads, compared with the same bytes loaded from memory",
   "Encodings are all that the installed FreeImage can write and recognise except four whose readers use uninitialised memory."),
 "C08": ("fault_enumeration", T + "one drawn disk, sink, allocation or image-library fault per image save, result compared with what arrived and reloaded pixel by pixel",
   "Lossless pairs are compared pixel for pixel after a reload, others by size."),
 "C09": ("exploration", T + "the real command-line tool run in-process on a simulated disk with injected read, write, open, close, mkdir and image-library faults, exit status and output compared with a fault-free run",
   "The tool's main is called in a fresh simulated process; files, directories and standard streams are the simulator's."),
 "C10": ("exploration", T + "the real tool run with directory creation on a simulated disk with racing creators, pre-existing entries and mkdir errors; the directory tree is compared with a model",
   "Another process creating the same directories is simulated at every mkdir."),
 "C11": ("exploration", T + "random operation histories on textures with allocation faults, checked after every step against a reference model",
   "After each step every query, every surface and one save are compared with the model; memory errors end a run as a violation."),
 "C12": ("exploration", T + "random mip generations with custom mips and allocation or image-library faults, each level compared with a per-surface reference chain",
   "The reference resizes each surface by itself through the public image API."),
 "C13": ("exploration", T + "random operation histories on images with allocation and image-library faults, each operation compared with an undisturbed twin",
   "Pixel equality is required whenever no image-library call failed, otherwise shape and accessibility."),
 "C14": ("exploration", T + "ledger of every allocation, bitmap, memory stream, file and thread over random faulted histories, compared after everything is destroyed",
   "A warm-up run absorbs one-time initialisation; what is left over afterwards is reported with its allocation point."),
 "C19": ("exploration", T + "random scripts run in a forked process without a past and again in the same process after random operations with memory, thread, disk and image-library faults and clock jumps; results must be equal",
   "The reference is the library itself in a process that has done nothing else."),
 "C20": ("fault_enumeration", T + "runs of the real tool and of file saves killed at a drawn change to the simulated disk (writes torn), once or twice, then repeated undisturbed; the file tree and the output are compared with an undisturbed run",
   "A killed process is one whose changes stop reaching the simulated disk at the drawn point."),
 "C21": ("exploration", T + "every memory access of the instrumented library and tool is checked against live heap blocks and vector clocks while damaged image files and the faulted scenarios of the other properties run",
   "Accesses inside the image library are not checked, and a crash inside it on a damaged file counts as the installed library's own; a block the image library asks for is at most 48 MB there."),
}
NA = {
 "C15": "Pure function of one pixel's value: no thread, clock, I/O, failure or multi-party behaviour changes it, so there is no schedule or fault for a simulator to search.",
 "C16": "Pure arithmetic on pixel values; schedules and faults cannot influence the numbers (that they do not is C13's and C02's business).",
 "C17": "Pure function of the argument list; no scheduling, time, I/O or fault dependency beyond what C09 and C10 already simulate.",
 "C18": "The block-compression encoders are git submodules that are not present here; the library is built without them, so their code cannot be run.",
}
import sys
claimed = [l.split('"')[1] for l in open('/verif/sim/workloads.inc') if l.startswith('{"C')]
na = dict(NA)
for p in C:
    if p not in claimed: na[p] = "Its check is still being built."
m = dict(version=1, setup_cmd="python3 tools/build.py", checks=[
  dict(property=p, quick_cmd="python3 tools/check.py %s quick" % p, thorough_cmd="python3 tools/check.py %s thorough" % p,
       evidence_file="evidence/%s.json" % p, technique=C[p][1], level=C[p][0], level_note=C[p][2]) for p in C if p in claimed],
  not_applicable=[dict(property=p, reason=na[p]) for p in sorted(na)],
  notes="No hooks in /repo: every source of nondeterminism is reached by linking (--wrap, replaced libc, libstdc++ and pthread entry points) and by compiling lib/src and tool with memory-access instrumentation into the simulator.")
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json', 'a').write('\n')
