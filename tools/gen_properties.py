#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements are easy to review and diff)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "The model does not depend on the number of threads or on their scheduling",
  "For the same settings and geometry, building a model gives the same result for every number of worker threads, every assignment of work to threads and every interleaving: the same cells with the same cut/full state, for each cell the same integration points and weights, for each condition the same segments with the same triangles, and the same reported counts; reported volumes and areas may differ only by rounding.",
  ["schedules", "configurations", "inputs"],
  "all thread counts, work distributions and interleavings of the worker threads, for all valid settings and closed meshes",
  "The tests run each case once, with two threads and whatever interleaving the OS gives; a result that depends on one rare order or on another team size is never seen.",
  ["queso/embedded_model.cpp", "queso/embedding/flood_fill.cpp", "queso/containers/background_grid.hpp", "queso/embedding/element_builders.hpp", "queso/utilities/mesh_utilities.cpp"],
  [("critical insertion of elements", "BackgroundGrid::MakeElement"), ("partitioned flood fill and merge", "FloodFill::PartitionedFill / MergeGroups"),
   ("critical insertion of condition segments and sum reduction", "EmbeddedModel::ComputeCondition"), ("parallel sums", "MeshUtilities::AreaOMP / VolumeOMP")],
  ["elements, points, weights, conditions, model info after the model is built"])

p("C02", "Random numbers drawn inside the library never change the model",
  "For the same settings and geometry, the model (which cells are active, cut or full, and, up to tolerance, their integrated volume and the segments of every condition) is the same whatever values the operating system's random source returns, and stays so when that source repeats itself or returns constant values.",
  ["histories", "inputs"],
  "all value sequences of the random source, for all valid settings and closed meshes",
  "The tests draw one real random sequence per run, and cannot choose or repeat it.",
  ["queso/embedding/brep_operator.cpp", "queso/embedding/geometry_query.cpp", "queso/embedding/flood_fill.cpp"],
  [("repeated randomized rays with majority vote", "BRepOperator::IsInside"), ("random perturbation of a cell whose clipped mesh is not closed", "BRepOperator::pGetTrimmedDomain")],
  ["elements, points, conditions of the model"])

p("C03", "Building a model is free of data races",
  "While the worker threads build a volume or a condition, no two of them ever access the same memory without synchronisation when one of the accesses is a write.",
  ["schedules", "inputs"], "all interleavings and thread counts, for all valid settings and meshes",
  "The tests run un-instrumented with two threads; a race shows only as a rare wrong result, and never on this machine.",
  ["queso/embedded_model.cpp", "queso/embedding/flood_fill.cpp", "queso/embedding/element_builders.hpp", "queso/containers/background_grid.hpp"],
  [("omp critical around shared containers", "BackgroundGrid::MakeElement, FloodFill::PartitionedFill, EmbeddedModel::ComputeCondition"),
   ("atomic time accumulators", "element_builders.hpp"), ("thread-private visited flags", "FloodFill::PartitionedFill")])

p("C04", "Application threads can use the library side by side without interference",
  "Several application threads may build different models at the same time, and several may read the same finished model through its read-only interface at the same time; every thread gets what it would have got alone and no two threads race on memory.",
  ["schedules", "histories"], "all interleavings of up to several application threads, each with its own worker team",
  "No test uses the library from more than one application thread.",
  ["queso/containers/cell_domain.hpp", "queso/containers/data_set.hpp", "queso/includes/dictionary_factory.hpp", "queso/io/binary_buffer_writer.hpp", "queso/includes/register_keys.hpp"],
  [("no shared mutable state between models", "EmbeddedModel"), ("function-local statics", "DictionaryFactory, BinaryBufferWriter, integration point factory"), ("read-only interface with internal caches", "CellDomain, DataSet")])

p("C05", "Every cell is classified correctly however the grid is split among threads",
  "For a closed mesh, every cell that the surface does not touch is reported as inside when it lies in the body and as outside when it does not, and every cell whose interior the surface crosses is reported as cut; this holds for every number of threads, also when cavities, several bodies or thin walls cross the boundaries between the parts of the grid handled by different threads.",
  ["schedules", "configurations", "inputs"], "all grids, bodies, thread counts and interleavings",
  "The tests compare a few bodies with one team size of two threads, so most partition layouts and merge orders never occur.",
  ["queso/embedding/flood_fill.cpp", "queso/embedding/brep_operator.cpp", "queso/embedding/geometry_query.cpp"],
  [("grid stripes per thread", "FloodFill::ClassifyElements"), ("local flood fill", "FloodFill::Fill / Move"), ("merge of groups over stripe boundaries", "FloodFill::MergeGroups / GroupFill"), ("inside count by local ray tracing", "FloodFill::GetIsInsideCount")])

p("C06", "Each active cell is stored exactly once and the model info adds up",
  "After a volume is built, each full cell and each cut cell whose material share is above the configured minimum is stored exactly once, no other cell is stored, every stored cell is found under its id and by walking through the grid with its own bounds, and the reported numbers of active, cut, full and inactive cells, of points, and the represented volume agree with the stored cells and with the volume of the body.",
  ["schedules", "inputs"], "all interleavings and thread counts, for all valid settings and closed meshes",
  "A lost or doubled element needs a particular interleaving of insertions; tests check a few totals for one order.",
  ["queso/containers/background_grid.hpp", "queso/embedded_model.cpp", "queso/embedding/element_builders.hpp"],
  [("id map and element vectors updated in one critical section", "BackgroundGrid::MakeElement"), ("dynamic loop over active cells", "EmbeddedModel::ComputeVolume")])

p("C07", "Cut cells get positive weights, points in the material, few and exact enough",
  "However the cells are distributed over threads and whatever random numbers are drawn, each cut cell's integration rule has only positive weights, only points inside the part of the cell covered by the body, at most the number of points of the full tensor product rule, and integrates polynomials up to the chosen order over the covered part with a relative error below one in ten thousand, which at most two difficult cells of a model may miss, and those by no more than one percent in total; with the optional fictitious domain, a cut cell has in addition exactly those points of its full rule that lie outside the body, weighted with the chosen factor.",
  ["schedules", "histories", "inputs"], "all interleavings, random sequences, closed meshes, orders and grids with default fitting tolerance",
  "The tests check these guarantees for a handful of cells of three bodies with one random sequence and one order of processing.",
  ["queso/quadrature/trimmed_element.hpp", "queso/embedding/trimmed_domain.cpp", "queso/embedding/trimmed_domain_on_plane.cpp", "queso/solvers/nnls.cpp", "queso/embedding/brep_operator.cpp", "queso/embedding/octree.cpp"],
  [("moment fitting with point elimination", "QuadratureTrimmedElement"), ("closed sub-mesh of the cut cell", "BRepOperator::pGetTrimmedDomain, TrimmedDomainOnPlane"), ("non-negative least squares", "nnls")])

p("C08", "Full cells integrate exactly, alone or assembled, in whatever creation order",
  "Full cells carry positive weights at points inside the cell; per-cell rules integrate the polynomials that the chosen rule promises exactly over every full cell, and rules assembled over several cells integrate constants and smooth polynomials exactly over each box-shaped block of full cells they cover, with every full cell covered, independent of the order in which threads created the cells.",
  ["schedules", "inputs"], "all creation orders and thread counts, orders, methods and grids",
  "The assembling walk starts from containers whose order is set by the thread schedule; tests use one order and few blocks.",
  ["queso/quadrature/multiple_elements.hpp", "queso/quadrature/single_element.hpp", "queso/containers/background_grid.hpp"],
  [("neighbour coefficients and box growth", "QuadratureMultipleElements"), ("tensor product rule", "QuadratureSingleElement")])

p("C09", "A condition's surface is split over the cells without loss or overlap",
  "Every part of a condition's surface inside the grid belongs to exactly one segment of the cell that contains it: each segment lies in its cell, the segments' areas add up to the area of the surface within the grid, cells not touched by the surface get none, and the reported share lying in active cells equals the share computed from the segments, for every distribution of cells over threads.",
  ["schedules", "inputs"], "all interleavings and thread counts, for all surfaces including surfaces lying exactly on cell faces",
  "Segments are appended concurrently; tests check sums for one order and team size.",
  ["queso/embedded_model.cpp", "queso/embedding/brep_operator.cpp", "queso/embedding/clipper.cpp", "queso/embedding/polygon.cpp", "queso/containers/condition.hpp"],
  [("unique clipping with shifted cell box", "BRepOperator::ClipTriangleMeshUnique"), ("critical append and sum reduction", "EmbeddedModel::ComputeCondition")])

p("C10", "Inside/outside queries are right whatever rays are drawn, and always end",
  "For a closed mesh, asking whether a point lies in the body returns the true answer for every point not on the surface, whatever random directions are used for the test, including for points and meshes for which many directions hit edges or vertices, and every query ends after a bounded number of rays.",
  ["histories", "inputs"], "all sequences of the random source, points and closed meshes",
  "Each test query uses one random sequence; a wrong answer for one direction in a thousand passes.",
  ["queso/embedding/brep_operator.cpp", "queso/embedding/geometry_query.cpp", "queso/embedding/ray_aabb_primitive.cpp"],
  [("majority vote over successful rays, bounded retries", "BRepOperator::IsInside"), ("rejection of rays that hit edges", "GeometryQuery::IsInside")])

p("C11", "Output files hold exactly the model, also on slow or interrupted storage",
  "Whenever writing a model or mesh reports success, every announced output file exists and decodes to exactly the model in memory: all cells with their corners, all points with coordinates and weights, all condition triangles, all model info values, and a mesh written as STL or VTK holds the mesh; short, delayed or interrupted write calls do not change a byte of the files.",
  ["fault_sequences", "inputs"], "all models, encodings, and sequences of short or interrupted system calls",
  "Tests write to a healthy disk and mostly check that files exist or read back one mesh.",
  ["queso/io/io_utilities.tpp", "queso/io/io_utilities.cpp", "queso/io/binary_buffer_writer.hpp", "queso/embedded_model.cpp"],
  [("buffered big/little endian writer", "BinaryBufferWriter"), ("file writers", "IO::Write*")])

p("C12", "A failed write is always reported as an error the caller can handle",
  "If any part of an output file cannot be stored, because it cannot be created, the disk is full or the device fails, at any point including the final close, the writing call raises an exception instead of returning normally, and never terminates the process.",
  ["fault_sequences"], "every storage operation of every writer failing, once or from then on, with any error code",
  "No test injects a storage failure.",
  ["queso/io/binary_buffer_writer.hpp", "queso/io/io_utilities.cpp", "queso/io/io_utilities.tpp"],
  [("stream state checked after each file", "IO::Write*"), ("buffer flush checked", "BinaryBufferWriter::Flush")])

p("C13", "After a crash, a complete model info file means that all results are complete",
  "If the process stops at any moment while results are being written into a new directory, then whenever the model info file exists there and is complete, all other result files of that run exist and are complete too.",
  ["crash_points"], "a crash at every storage operation while results are written, including in the middle of a write",
  "No test stops the process while it writes.",
  ["queso/embedded_model.cpp", "queso/io/io_utilities.tpp"],
  [("model info is written last, after the other files are closed", "EmbeddedModel::WriteModelToFile")])

p("C14", "Reading an STL file gives the same mesh however the bytes arrive",
  "Reading a valid STL file, text or binary, also binary files whose header starts like a text file, yields exactly the triangles stored in the file with matching vertices shared and normals given by the vertex order, no matter how the storage splits, delays or interrupts the reads, and text and binary files with the same coordinates yield the same mesh.",
  ["fault_sequences", "inputs"], "all valid files and all sequences of short or interrupted reads",
  "Tests read a few files from a disk that always delivers full blocks.",
  ["queso/io/io_utilities.cpp"],
  [("encoding detection", "IO::GetEncodingType"), ("text and binary readers", "IO::ReadMeshFromSTL_Ascii / _Binary")])

p("C15", "A damaged or unreadable STL file is reported, never silently cut short",
  "If an STL file is missing, ends before its announced or terminated end, lacks a line or a coordinate, or cannot be read to its end because of a storage error, reading it (or building a model from it) raises an exception; it never returns normally with only part of the triangles.",
  ["fault_sequences", "inputs"], "all truncation points of all files, lost lines and coordinates, and a storage error at every read operation",
  "Tests read only intact files.",
  ["queso/io/io_utilities.cpp"],
  [("stream state checks per record", "IO::ReadMeshFromSTL_*")])

p("C16", "Clock jumps never disturb a run and elapsed times are never negative",
  "Whatever the system clock does while a model is built and written, including jumping backwards or forwards, the model and files (other than elapsed times) are unaffected, every reported elapsed time is finite, not negative and no longer than the time that really passed, and the reported total equals the sum of its parts.",
  ["histories", "fault_sequences"], "all behaviours of the wall clock, including jumps in either direction at any reading, with a monotonic clock available",
  "The tests run with the machine's clock, which does not jump.",
  ["queso/includes/timer.hpp", "queso/embedded_model.cpp", "queso/embedding/element_builders.hpp"],
  [("timer", "Timer"), ("accumulation of elapsed times", "EmbeddedModel, element builders")])

p("C17", "Running out of memory never yields a wrong model silently",
  "If memory allocation fails at any point while a mesh is read, a model is built or its files are written, the operation does not report success with an incomplete or wrong result: it either ends with an exception or stops the process, and otherwise the result is the same as without the failure.",
  ["fault_sequences"], "failure of every allocation, once or from then on, on any thread",
  "No test makes an allocation fail.",
  ["queso/embedded_model.cpp", "queso/embedding/flood_fill.cpp", "queso/containers/background_grid.hpp", "queso/io/io_utilities.cpp"],
  [("no exception is swallowed on the way to the caller", "whole library")])

p("C18", "A result does not depend on what the process did before",
  "Building, reading or writing gives the same result whether it is the first operation of the process or follows any sequence of earlier operations on other models and files, including operations that failed, and building one model leaves earlier models unchanged.",
  ["histories", "fault_sequences"], "all sequences of builds, reads, writes, queries and failed operations in one process",
  "Each test case runs in a process of its own with a short fixed sequence.",
  ["queso/embedded_model.h", "queso/includes/dictionary_factory.hpp", "queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp", "queso/io/io_utilities.cpp"],
  [("no hidden global state", "whole library")])

p("C19", "Every build ends, under every scheduling of its threads",
  "Building a model ends after a bounded amount of work for every interleaving of its worker threads, also when one of them is stalled for arbitrarily long, and neither deadlocks nor waits for progress that cannot come.",
  ["schedules"], "all interleavings, thread counts and stalls, for all valid settings and meshes, including damaged meshes",
  "A deadlock or an endless loop that needs one interleaving or one random sequence is not reached by a handful of runs.",
  ["queso/embedding/brep_operator.cpp", "queso/embedding/flood_fill.cpp", "queso/containers/background_grid.hpp", "queso/quadrature/trimmed_element.hpp"],
  [("bounded iterations", "BRepOperator::IsInside, pGetTrimmedDomain, QuadratureTrimmedElement"), ("short critical sections", "BackgroundGrid::MakeElement")])

p("C20", "A finished model answers every query by itself, correctly, and for ever",
  "After a model has been built, every read-only query about the material in its cells (points, boxes, bounds, boundary meshes and boundary points, in global and parametric coordinates) ends without a fault and is right everywhere off the surface. The same query gets the same answer later, after the input files of the build are gone, other models were built and destroyed, memory was reused or the model was moved.",
  ["histories", "inputs", "schedules"],
  "all queries, including points on the surface and in the plane of a cut face, and all later histories of the process",
  "The tests query elements a moment after they were built, with the input and all temporaries of the build still in memory.",
  ["queso/embedded_model.h", "queso/embedding/trimmed_domain.cpp", "queso/embedding/trimmed_domain.h", "queso/containers/element_base.hpp", "queso/containers/cell_domain.hpp"],
  [("local ray test on the clipped mesh, with the mesh operator as fallback", "TrimmedDomain::IsInsideTrimmedDomain"), ("state of a box", "TrimmedDomain::GetIntersectionState"), ("boundary of a full cell", "CellDomain")])

p("C21", "The library touches only memory it owns",
  "No input (also damaged files and meshes), schedule, history, or failure (allocation, write, read, exception) makes the library read or write memory that was released, memory beyond a block it was given, memory released twice, or the stack frame of a function that has returned; this includes all queries of a finished, moved or re-used model.",
  ["inputs", "schedules", "failures", "histories"],
  "all inputs, schedules, failures and histories",
  "Wrong accesses mostly go unnoticed: the tests see the values that happen to be left in memory, on the paths of a few inputs without failures.",
  ["queso/embedded_model.h", "queso/embedded_model.cpp", "queso/embedding", "queso/containers", "queso/io/io_utilities.cpp", "queso/quadrature"],
  [("references from cells to the operator and the mesh", "TrimmedDomain::mpBrepOperatorGlobal"), ("spans into the mesh's arrays", "TriangleMeshView"), ("vertex sets that point into vectors with reserved capacity", "TrimmedDomainOnPlane::Reserve"), ("tree over the boxes of the triangles", "AABB_tree")])

p("C22", "Settings are exactly what was accepted, and unfit settings are refused",
  "Whatever sequence of accepted, refused and (for lack of memory) failed operations came before, a settings or info dictionary holds for each key exactly the value that was last accepted, or its documented default, and nothing else; unknown names, wrong types and negative counts are refused with an exception and change nothing. Printing yields valid JSON with exactly these values. The check before every build refuses exactly those settings in which a required value is missing, or polynomial order, grid type and integration method do not go together. Any number of threads may read the same settings at once.",
  ["histories", "failures", "schedules"],
  "all sequences of operations, all points at which memory runs out, all interleavings of readers",
  "The tests set a handful of values in fresh dictionaries, one after the other, and never look at a dictionary after an operation failed half way.",
  ["queso/containers/dictionary.hpp", "queso/containers/data_set.hpp", "queso/includes/dictionary_factory.hpp", "queso/includes/register_keys.hpp", "queso/utilities/check_dictionary_utilities.hpp", "queso/embedded_model.h"],
  [("access by name and by key", "Dictionary"), ("types of values", "DataSet::SetValue"), ("the check before a build", "CheckDictionaryUtilities::CheckSettings")])

p("C23", "A mesh keeps its surface through every operation and is measured right",
  "Whatever sequence of operations came before, a triangle mesh holds exactly the surface these operations describe: refining keeps every point and the orientation of the surface and reaches the number of triangles asked for, appending unites two meshes and leaves the appended one as it was, removing takes exactly the triangle named, a box that is made is closed and has the extent asked for. A refinement that fails for lack of memory leaves the surface as it was, an append that fails leaves a consistent mesh that lost nothing. Every view of a mesh, native or through the adapter for other mesh types, whole or of selected triangles, shows exactly these triangles and their normals, also when the view was copied. Area, volume, bounding box, aspect ratios and quality are right for every number of threads and every scheduling of them, and several threads may measure the same mesh while others work on their own.",
  ["histories", "schedules", "failures", "inputs"],
  "all sequences of operations, all teams and interleavings, all points at which memory runs out",
  "The tests refine and append two or three given meshes once, measure them on the machine's number of threads, and never use a mesh after an operation failed.",
  ["queso/containers/triangle_mesh.hpp", "queso/containers/triangle_mesh_view.hpp", "queso/utilities/mesh_utilities.cpp", "queso/utilities/mesh_utilities.h", "queso/utilities/triangle_utilities.hpp"],
  [("refinement with shared midpoints", "MeshUtilities::Refine"), ("offset of the vertices", "MeshUtilities::Append"), ("parallel sums", "MeshUtilities::VolumeOMP"), ("adapter and its normals", "TriangleMeshView::PopulateNormals"), ("selected triangles and early stop", "TriangleMeshView::VisitEachTriangle")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
