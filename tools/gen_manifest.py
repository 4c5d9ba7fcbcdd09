#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
TECH = "deterministic simulation with fault injection: "
COMMON = " Assumes sequential consistency (races are searched separately), the simulator's model of the GCC OpenMP runtime and of the file interface, and the library compiled by g++ -O1 with asserts."
C = {
 "C01": ("seeded thread schedules and team sizes, exact comparison with a single-threaded build", "exploration", "Seeded search over team sizes 1-8, six schedulers and workloads; every model is compared bit by bit with the single-threaded one."),
 "C02": ("simulated random source (constant, repeating, adversarial values), comparison of models", "exploration", "Seeded search over value sequences of std::random_device; models are compared with tolerances for integrated quantities."),
 "C03": ("seeded schedules with happens-before race detection on every memory access", "exploration", "Vector-clock race detector over all instrumented accesses of the library in every simulated build; blind to races in code that no drawn workload reaches and to accesses inside uninstrumented libstdc++.so functions."),
 "C04": ("several application threads under one seeded scheduler, race detection, comparison with runs alone", "exploration", "Seeded search over interleavings of 2-3 application threads with own worker teams; results compared with what each gets alone, and all accesses checked for races."),
 "C05": ("seeded schedules and grid partitions against a geometric reference classification", "exploration", "Independent reference (winding numbers, exact triangle/box clipping) for every cell off a tolerance band around the surface."),
 "C06": ("seeded schedules of concurrent insertions, invariants and conservation against a geometric reference", "exploration", "Checks uniqueness, lookup and conservation in every simulated build; volumes against exact clipping."),
 "C07": ("seeded schedules and random draws, moments of each cut cell against exact integrals", "exploration", "Every rule of every cut cell is checked against moments computed by an independent polyhedral clipper; the accuracy clause allows the two exceptional cells that the statement names."),
 "C08": ("seeded creation orders of cells, exactness of single and assembled rules", "exploration", "Monomial exactness over single cells and over connected blocks of full cells; the creation order is that of the simulated threads."),
 "C09": ("seeded schedules of concurrent segment insertion, conservation of area against exact clipping", "exploration", "Areas per cell and in total against an independent triangle/box clipper; nearly coplanar configurations (within 1e-4 of a cell plane) only in total."),
 "C10": ("adversarial random source for ray directions, winding number oracle, bounded rays", "exploration", "Inside queries with chosen and random direction values against the generalised winding number; bounded number of draws per query."),
 "C11": ("simulated disk with short, interrupted and stalled writes; files decoded and compared with memory", "exploration", "All output files are decoded by independent readers and compared with the model in memory."),
 "C12": ("simulated disk: error and full-disk injected at every operation of a drawn write", "fault_enumeration", "For each drawn workload a fault is placed on operations of the write history (all of them when few, else a seeded sample); the call has to throw."),
 "C13": ("simulated disk: process crash at every operation of a drawn write, files judged as left behind", "fault_enumeration", "For each drawn workload the process stops at each (or a seeded sample) of the disk operations and inside writes; the remaining files are judged by the same decoders as C11."),
 "C14": ("simulated disk with split, interrupted and stalled reads of generated STL files", "exploration", "Mesh read compared with the triangles put into the file, for text and binary variants."),
 "C15": ("simulated disk: truncation, lost lines, read errors and early ends at drawn positions", "fault_enumeration", "Each run damages a generated file at many positions, or injects read faults at each read; the reader has to throw."),
 "C16": ("simulated clocks with jumps, drift and suspended process", "exploration", "Elapsed times against the simulated true time; model and files compared with an undisturbed run."),
 "C17": ("allocation failures injected at enumerated and drawn allocations of reading, building and writing", "fault_enumeration", "An allocation fails at chosen indices; outcome must be exception, process stop, or the undisturbed result."),
 "C18": ("seeded histories of operations (also failing ones) before the judged one, heap contents varied", "exploration", "Result after a drawn history compared with the result in a fresh process; earlier models compared before and after."),
 "C19": ("seeded schedules with stalled threads, step budget as progress bound, deadlock detection", "exploration", "Termination as a bounded number of simulated steps after which no fault is pending; deadlock is detected exactly; damaged meshes only for deadlock."),
 "C20": ("queries against a model through its life under destroyed inputs, reused memory and seeded schedules", "exploration", "Geometric oracle for the material queries; answers repeated after input files were destroyed and memory overwritten; all accesses checked against released memory and left stack frames."),
 "C21": ("checked memory (no reuse of released blocks, gaps between blocks, left stack frames) under the workloads, schedules and faults of the other properties", "exploration", "Every instrumented access of the library is judged in runs that repeat the workloads, schedules and injected failures of the other properties, each phase on a stack above the frames left by the phases before it; accesses inside uninstrumented libstdc++.so functions and overruns within one block's reserved capacity that no assertion of libstdc++ covers are not seen."),
 "C22": ("seeded histories of accepted, refused and memory-starved operations against a reference model, readers under seeded schedules", "exploration", "Model-based histories of operations on settings dictionaries, with failing allocations; the dictionary and its printed form are compared with a reference model after the operations; concurrent readers are checked for races."),
 "C23": ("seeded histories of mesh operations with failing allocations, parallel measures and concurrent users under seeded schedules, independent geometry as reference", "exploration", "After every operation the mesh is compared with a list of triangles kept by the harness (exactly, or by surface integrals and containment for refinements); measures are computed anew in extended precision."),
}
m = {"version": 1, "setup_cmd": "python3 lib/check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the simulator takes the OpenMP runtime, operator new, clocks, std::random_device and the file system calls at link level. See DESIGN.md."}
for k, (t, level, note) in C.items():
    m["checks"].append({"property": k, "quick_cmd": f"python3 lib/check.py {k} --tier quick", "thorough_cmd": f"python3 lib/check.py {k} --tier thorough",
                        "evidence_file": f"evidence/{k}.json", "technique": TECH + t, "level": level, "level_note": note + COMMON})
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
