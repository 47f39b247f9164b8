#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=mech, technique=technique, note=note, na=na, state=state, observe=observe))


O, A = "swiftsimio/objects.py", "swiftsimio/_array_functions.py"
SYN = "abstract interpretation of the source (trace-partitioned dataflow, no solver)"

prop("P01", "Arithmetic gives every result the scale-factor dependence it really has",
     "For every elementwise numpy operation, operator, reduction or in-place form applied to cosmology-aware arrays, the result's scale-factor dependence and comoving/physical label describe the numbers it holds. "
     "Multiplying the result by its labelled scale-factor dependence converts it to exactly what the same operation on physical inputs gives.",
     "inputs programs", "every supported elementwise operation and method (call, reduce, accumulate, outer, out=) and every combination of operand frames and dependences",
     "The tests check a handful of operations at one scale factor and mostly with all operands in one frame; a wrong exponent or direction for one (operation, frame) pair is invisible to them.",
     O + " " + A, [("dispatch of elementwise operations", O + ": cosmo_array.__array_ufunc__"), ("dependence rules per operation", A + ": _*_cosmo_factor"), ("coercion of operands", A + ": _prepare_array_func_args")],
     SYN + " over a (scale-factor dimension, frame) domain, exhaustive over operand frames",
     "Numerical values, units and dtype are not modelled; transfer functions of numpy primitives are trusted; operand frames and the operation list are enumerated completely.")
prop("P02", "numpy functions give results the scale-factor dependence they really have",
     "For every supported numpy function (linear algebra, histograms, sorting, sets, FFTs, interpolation, concatenation, selection, ...) each returned array's scale-factor dependence and comoving/physical label describe the numbers it holds, for every mixture of comoving and physical arguments.",
     "inputs programs", "every supported function, its documented argument forms, and every combination of argument frames",
     "The tests call each function with one argument form and all arguments in one frame and only compare labels, not labels against numbers.",
     A, [("registry of implementations", A + ": implements / _HANDLED_FUNCTIONS"), ("dispatch", O + ": cosmo_array.__array_function__"), ("coercion and return labelling", A + ": _prepare_array_func_args, _return_helper")],
     SYN + " over a (scale-factor dimension, frame) domain, exhaustive over argument frames",
     "Functions without a scenario are listed in the evidence; numerical values and units are not modelled.")
prop("P03", "Comoving and physical numbers are never combined silently",
     "Whenever an operation combines operands given in different frames it first brings them to one common frame, and it refuses operands with incompatible scale-factor dependence or whose frame is unknown next to ones whose frame is known. "
     "Two representations of the same quantity can therefore be exchanged without changing any physical result.",
     "inputs programs", "every operation with at least two operands, over all assignments of frames and dependences to the operands",
     "Tests rarely mix frames, and each operation has its own coercion code path, so the combinations are far more than the tests enumerate.",
     O + " " + A, [("coercion", A + ": _prepare_array_func_args"), ("dependence agreement", A + ": _preserve_cosmo_factor, _comparison_cosmo_factor"), ("assignment", O + ": cosmo_array.__setitem__")],
     SYN + ": every numpy primitive reached must see numbers of one frame",
     "Decided for operand frames comoving/physical/untransformable/unset; sequences of more than three operands are represented by two or three.")
prop("P04", "Slicing, copying and converting never drop the cosmology labels",
     "Indexing, slicing, reshaping, copying, unit conversion and every other array method return an array of the cosmology-aware class of its shape carrying the same comoving flag, scale-factor dependence, transformability and compression information as the array they were applied to.",
     "inputs programs", "every array method and view form, for arrays, scalars and each frame",
     "Tests check a list of methods on one comoving array; labels lost for scalars, chained calls or unset frames are not visible.",
     O + " " + A, [("label propagation wrappers", A + ": _propagate_cosmo_array_attributes_to_result, _ensure_result_is_cosmo_array_or_quantity"), ("view hook", O + ": cosmo_array.__array_finalize__")],
     SYN + " of each method for each frame of the receiver", "unyt/numpy methods are modelled by whether they preserve, copy or drop attributes.")
prop("P05", "Conversions between comoving and physical are exact, guarded and reversible",
     "Converting an array to physical or comoving multiplies or divides its numbers by its own scale-factor dependence exactly once, is idempotent, and is undone by the opposite conversion. "
     "Arrays that have no valid transform, or whose frame is unknown, are refused before anything is changed, and conversions that return a new array never touch the original.",
     "inputs programs", "every conversion entry point and their compositions, for every frame, transformability and dependence",
     "Tests convert one length array forwards and back at one redshift.",
     O, [("in-place conversion", O + ": convert_to_comoving, convert_to_physical"), ("copying conversion", O + ": to, to_physical, to_comoving, to_value"), ("guards", O + ": _verify_valid_transform_validity")],
     SYN + " with symbolic scale factor and per-buffer write tracking", "Floating-point rounding is not modelled.")
prop("P06", "Operations never change their inputs; out= arrays are written and labelled",
     "No operation, constructor or conversion changes the numbers or the labels of an argument it is not documented to write. An output array given by the caller is written itself, in whatever frame it was, and ends up labelled for the numbers it then holds.",
     "inputs programs", "every operation and every combination of operand frames, in particular mixed frames where operands must be converted",
     "Tests compare return values and do not look at the inputs afterwards; corruption happens only when a conversion is needed.",
     O + " " + A, [("copying coercion", A + ": _prepare_array_func_args"), ("out handling", O + ": cosmo_array.__array_ufunc__; " + A + ": _return_helper")],
     SYN + " with per-buffer write and alias tracking", "Writes made inside numpy/unyt primitives are taken from their documentation.")
prop("P07", "Construction attaches exactly the requested labels or refuses",
     "Building an array or quantity from numbers, lists of quantities, existing arrays or other libraries' arrays attaches the labels the caller asked for, converts the numbers when the input is in the other frame, and refuses contradictory requests.",
     "inputs programs", "every constructor and importer, each way of giving the labels, each kind of input and its frame",
     "Tests construct from plain lists with consistent labels.",
     O, [("constructors", O + ": cosmo_array.__new__, cosmo_quantity.__new__"), ("importers", O + ": from_astropy, from_pint"), ("label parsing", O + ": _parse_cosmo_factor_args, _verify_valid_transform_validity")],
     SYN + " of constructor programs", "Unit parsing and dtype handling belong to unyt and are not modelled.")
prop("P08", "Pickling and copying preserve numbers and labels",
     "Pickling and unpickling, copying or deep-copying a cosmology-aware array or quantity yields an independent object with the same numbers and the same comoving flag, scale-factor dependence, transformability and compression information.",
     "inputs programs", "arrays and quantities in every frame, and chains of copies", "Tests pickle one comoving array.",
     O, [("pickle protocol", O + ": __reduce__, __setstate__"), ("copy hooks", O + ": copy, __copy__, __deepcopy__")],
     SYN + " through a model of the pickle/copy protocols", "The byte-level pickle format belongs to numpy/unyt.")

VB = "swiftsimio/visualisation/"
LN = "trace-partitioned abstract interpretation of the source, index facts decided in the linear (polyhedral) domain"
POLY = "abstract interpretation of the source: value-flow summaries per path and polyhedral facts over loop bounds (no solver)"
R, MO, AR = "swiftsimio/reader.py", "swiftsimio/metadata/objects.py", "swiftsimio/metadata/field/attr_reader.py"
VF = "whole-library abstract interpretation over model files (symbolic contents), value flow compared as terms; no execution, no solver"
prop("P09", "Every field read from a file carries that file's data, units and labels",
     "Whatever the kind of file (snapshot, SOAP catalogue, FOF catalogue, line of sight), each field a user reads returns exactly that dataset's rows (the masked ranges when a mask is given, the single column for named columns). It carries the units, scale-factor dependence, "
     "comoving/physical label, convertibility, compression and description recorded in the file for that dataset. Fields are read only when first asked for, cached per field, per column and per group, and read anew after deletion; assigned values are returned as assigned.",
     "inputs histories", "every dataset, column and group attribute of the model files, with distinct labels per field, masked and unmasked, and the order of reads, deletions and assignments",
     "The tests that touch real files need downloads and compare a few fields; labels swapped between fields, a column offset, or a cache shared between groups passes them.",
     R + " " + AR + " swiftsimio/metadata/objects.py swiftsimio/metadata/soap/soap_types.py swiftsimio/metadata/particle/particle_types.py",
     [("field properties", R + ": _generate_getter, _generate_setter, _generate_deleter"), ("per-file classes", R + ": _generate_datasets, SWIFTDataset"), ("label decoding", AR)], VF,
     "File contents are symbols; the set of groups, datasets and header lengths is that of the model files. The row-range reader itself is P12.")
prop("P10", "The metadata reported for a file is the file's own",
     "Every value of the metadata object (times, redshift, scale factor, box size, particle counts, mass tables, run names, dates, units, cosmology, subgrid columns and mapping tables, present groups and their fields) comes from the header entry of that meaning, with that quantity's unit and frame, "
     "for every file kind and header length. Optional entries that are absent read as documented defaults, and fields without the optional label attributes read as comoving, convertible and independent of the scale factor. The kind of file decides the kind of metadata.",
     "inputs", "all header contents (symbolic), 6 to 8 particle types, byte and text strings, presence or absence of the optional groups and attributes, every declared file type",
     "The tests compare a few header values of downloaded files; a swapped unit or an entry that is wrong only for one file kind or header length is invisible.",
     MO + " swiftsimio/conversions.py swiftsimio/metadata/metadata/metadata_fields.py swiftsimio/metadata/unit/unit_types.py swiftsimio/metadata/particle/particle_types.py swiftsimio/metadata/soap/soap_types.py",
     [("header unpacking", MO + ": SWIFTMetadata.postprocess_header"), ("file kinds", MO + ": _metadata_discriminator"), ("units", MO + ": SWIFTUnits"), ("cosmology", "swiftsimio/conversions.py: swift_cosmology_to_astropy")], VF,
     "The numerical choice of base unit and the fallback background temperature are not decided, only that the unit returned is the one converted to.")
prop("P11", "File handles are owned by whoever opened them",
     "Every file the library opens is closed again by the time the call that opened it is over, also when the call fails because an access to the file fails, for every way of giving the file (path, pathlib path, open handle) and every kind of file; a handle "
     "the caller passes in is never closed; no closed file is used: datasets, masks, metadata and the documented reload methods stay usable after the file they were made from has been closed; and source files are opened for reading only and never changed.",
     "histories", "every sequence of load, mask, validate_file, lazy reads of every field, column and group attribute, reload, direct construction of the public classes, constraints, subsets and snapshot writing in the client programs; a failure at any distinct call path that reaches the file",
     "The tests never look at open handles: a handle left open on one path shows only when the file is later reopened for writing, and a failing access needs a damaged file at one particular entry.",
     "swiftsimio/_handle_provider.py swiftsimio/_file_utils.py swiftsimio/__init__.py swiftsimio/reader.py swiftsimio/masks.py swiftsimio/subset_writer.py swiftsimio/snapshot_writer.py " + MO,
     [("ownership", "swiftsimio/_handle_provider.py: HandleProvider"), ("entry points", "swiftsimio/__init__.py: load, mask, validate_file"), ("lazy reads", "swiftsimio/reader.py: _generate_getter, SWIFTDataset"), ("writers", "swiftsimio/subset_writer.py: write_subset; swiftsimio/snapshot_writer.py: SWIFTSnapshotWriter.write")],
     "Typestate analysis: client programs are interpreted through the library's source over an HDF5 model with every handle's open, close and use recorded; the undisturbed run and one run for every distinct call path that reaches the file, with that access failing, are checked against the open/closed automaton.",
     "Remote (hdfstream) files are not modelled; a failure while one of the public classes is constructed directly from a path is not covered (only load, mask, validate_file, lazy reads, constraints and the writers).")
prop("P12", "Range reads return exactly the requested rows in order",
     "Reading a dataset through a list of ordered, disjoint row ranges returns those rows, in that order, with the requested columns, type and byte order, whatever the dataset's chunking, dimensionality or whether it is remote; "
     "no row is read twice, left out, or written outside the result. Index lists become ranges that hold exactly those indices. Remote requests are sent in file order and the answer is put back in the order asked for.",
     "inputs", "all range bounds, chunk sizes and dataset lengths (symbolic), up to three ranges, one- and two-dimensional datasets",
     "The tests read a few ranges of one file; a chunk boundary, an empty range, adjacent ranges or a short last chunk that is handled wrongly returns other particles' values without any error.",
     "swiftsimio/accelerated.py swiftsimio/_ordered_slices.py",
     [("chunked and contiguous reads", "swiftsimio/accelerated.py: read_ranges_from_file_chunked, read_ranges_from_file_unchunked, get_chunk_ranges, expand_ranges, extract_ranges_from_chunks"),
      ("index lists", "swiftsimio/accelerated.py: ranges_from_array"), ("remote reads", "swiftsimio/_ordered_slices.py: OrderedSlices")], LN)
prop("P13", "A spatial mask loses no particle of the region",
     "constrain_spatial selects, for each particle type, at least every row whose particle can lie inside the region, including regions that reach across the periodic boundary and given in inverted order, axes left unrestricted, particles that drifted out of their cell and files whose cells are not in file order; "
     "cells that lie entirely outside the region on some axis are not selected; regions further than half a box outside the box are refused. The rows of the selection are whole cells, in file order and disjoint, and cell positions carry the file's length unit, frame and scale factor.",
     "inputs", "all region bounds, box sizes, cell geometries, extents, counts and offsets (symbolic), up to three cells and two types; snapshots with and without extents and SOAP catalogues; every safe_padding setting",
     "The tests mask one downloaded file at a few regions; a cell lost at the periodic boundary, for one particle type, or for cells out of order goes unnoticed.",
     "swiftsimio/masks.py swiftsimio/__init__.py",
     [("cell selection", "swiftsimio/masks.py: SWIFTMask._generate_cell_mask, _sanitize_region, constrain_spatial"), ("cell metadata", "swiftsimio/masks.py: SWIFTMask._unpack_cell_metadata"), ("row ranges", "swiftsimio/masks.py: SWIFTMask._update_range_masks")], LN,
     "Region bounds are taken to be in the frame and unit of the cells; conversions between frames and units are P01 to P05. Positions are real numbers, not floating point.")
prop("P14", "Mask constraints combine as documented, in any order",
     "Whatever sequence of mask calls is made, each stored selection is exactly what the calls that succeeded describe: a spatial constraint selects the rows of its cells, a union adds those of another region, "
     "constrain_property keeps of the current selection of that particle type alone (of the shared selection in a catalogue) the rows with lower < value <= upper, read and compared with the field's own frame and scale-factor dependence, and constrain_index and constrain_indices select exactly the given rows. "
     "A spatial constraint after another constraint (unless it is a union after a spatial one), and constraints to rows after any other or in a file whose arrays do not share their length, raise RuntimeError and change nothing. Converting between boolean and range form changes no selection.",
     "histories", "all sequences of up to three calls over spatial constraint, union, property constraint of either type and both conversions (thorough) plus a catalogue of longer ones with indices and the deprecated names; symbolic particle numbers, field values and bounds; three cells, two particle types; snapshots and SOAP catalogues",
     "The tests apply a few two-call sequences to one downloaded snapshot; a third call, a conversion in between or a second particle type reach states they never visit.",
     "swiftsimio/masks.py",
     [("constraints", "swiftsimio/masks.py: SWIFTMask.constrain_spatial, constrain_property, constrain_index, constrain_indices, _constraint"), ("updates", "swiftsimio/masks.py: SWIFTMask._update_range_masks, convert_masks_to_bool, convert_masks_to_ranges")], LN,
     "Region to cell selection is P13; the unit and frame conversion inside the comparison is P01 to P05.")
prop("P15", "Boolean and range forms of a mask agree in rows, sizes and counts per cell",
     "After every operation the stored masks have the form range_mask announces: ordered, disjoint row ranges of shape (n, 2), also when nothing is selected, with the stored size equal to the number of rows they hold, or booleans with one entry per row of the file. "
     "Conversions keep the selected rows. The number of selected rows per cell and their offsets in the masked data are those of the selection, in either form.",
     "histories", "all field values, particle numbers and cell boundaries (symbolic), selections of whole cells, of arbitrary predicates and of up to two arbitrary runs of rows; three cells, two particle types",
     "Counts per cell are only tested through one downloaded file; empty selections and runs that cross cell boundaries are not tested.",
     "swiftsimio/masks.py",
     [("conversions", "swiftsimio/masks.py: SWIFTMask.convert_masks_to_bool, convert_masks_to_ranges"), ("counts", "swiftsimio/masks.py: SWIFTMask._get_masked_counts_offsets")], LN,
     "ranges_from_array itself is P12.")
prop("P16", "A written subset is a snapshot of exactly the selected particles",
     "write_subset leaves a file that holds, for every particle group of the input, exactly the rows the mask selects, in order, with the dtype, attributes and further dimensions of the input's datasets; groups and header entries that are not particles unchanged; "
     "the particle numbers of this file, and cell counts and offsets that describe the rows actually written, cell by cell, so that the subset can be read and masked again. Named columns, links and skipped groups are carried over as documented. A mask with no constraint is refused.",
     "inputs", "all particle numbers, cell boundaries and selected cells (symbolic), spatial and boolean masks in either form, snapshots and catalogues", "The tests write a subset of one downloaded file, and are skipped without it; offsets of later particle types and empty cells are not compared.",
     "swiftsimio/subset_writer.py", [("writing", "swiftsimio/subset_writer.py: write_subset, write_datasubset, write_metadata"), ("cells", "swiftsimio/subset_writer.py: update_metadata_counts")], LN,
     "HDF5 is a model of groups, attributes, datasets and links. NumPart_Total is copied from the input, as the code documents no other value.")
prop("P17", "A file written by the Writer describes the data it was given",
     "Writer.write stores each assigned array, in the Writer's unit system and the comoving frame, in the dataset and group of its particle type, with attributes that state its true dimensions, unit, and dependence on the scale factor; "
     "particle numbers, box size, scale factor and units in the header are those of the data written; particle IDs are the given ones or, when any are missing, 1..N over all types in order. The arrays the user assigned are not modified.",
     "inputs", "all array contents, lengths, scale factors and unit systems, comoving and physical inputs, every particle type alone and together", "The tests write one small file and read the units back; a wrong attribute is cancelled by the reader using the same wrong value.",
     "swiftsimio/snapshot_writer.py swiftsimio/metadata/writer/required_fields.py", [("fields", "swiftsimio/snapshot_writer.py: generate_setter, get_attributes"), ("file", "swiftsimio/snapshot_writer.py: SWIFTSnapshotWriter.write, _write_metadata, _write_units, _generate_ids")], LN,
     "Arrays are labelled stand-ins; the arithmetic of conversions is P01 to P05.")
prop("P18", "The Writer refuses inconsistent data before it touches the disk",
     "Data with a missing field, fields of different lengths, coordinates and velocities of different shapes, wrong dimensions, missing units or frame, another scale factor than the Writer's, or particle IDs below one or repeated within or across types, and boxes of the wrong number of lengths, raise an exception, and no file of the given name is created or truncated. A refused assignment does not take effect.",
     "inputs", "every particle type and field, each fault, all lengths and values", "The tests try a few faults on gas; a fault in another field or type, or a check that runs after the file is opened, is not exercised.",
     "swiftsimio/snapshot_writer.py", [("assignment", "swiftsimio/snapshot_writer.py: generate_setter"), ("consistency", "swiftsimio/snapshot_writer.py: check_consistent, write")], LN, "")
prop("P20", "Projection kernels deposit the smoothed mass of every particle, once, in place",
     "Every projection backend adds to exactly the pixels inside each particle's kernel the particle's weight times the kernel evaluated at that pixel's distance, for the particle and each of its periodic images, never outside the image, and never twice. "
     "Kernels narrower than the backend's limit put their whole weight into the pixel that holds the particle; the kernels integrate to one.",
     "inputs", "all particle positions, smoothing lengths, weights, box sizes and resolutions",
     "The tests render a few particle sets at one or two resolutions; a missing row, image, edge pixel or a factor that matters for some sizes only stays inside their tolerance.",
     " ".join(VB + "projection_backends/" + x for x in ("fast.py", "histogram.py", "reference.py", "renormalised.py", "subsampled.py", "subsampled_extreme.py", "kernels.py")),
     [("pixel loops of each backend", VB + "projection_backends/*.py: scatter"), ("kernel functions", VB + "projection_backends/kernels.py")], POLY,
     "Real arithmetic; single-precision rounding is not modelled. The GPU backend is not claimed.")
prop("P21", "Parallel visualisation backends compute the serial backend's result",
     "Every thread-parallel rendering function hands its serial sibling each particle exactly once with the same arguments in the same roles, and returns the sum of the partial images with the serial result's shape, for any number of threads and particles, including fewer particles than threads. "
     "The serial and parallel registries offer the same backends, each pair implementing the same method.",
     "inputs schedules", "all particle counts, thread counts and arguments", "Tests run with the machine's thread count and a few hundred particles; an off-by-one in a chunk bound or a forwarded argument hides in the tolerance or needs another thread count.",
     " ".join(VB + x for x in ("projection_backends/fast.py", "projection_backends/histogram.py", "projection_backends/reference.py", "projection_backends/renormalised.py", "projection_backends/subsampled.py",
                               "projection_backends/subsampled_extreme.py", "slice_backends/sph.py", "slice_backends/nearest_neighbours.py", "volume_render_backends/scatter.py", "power_spectrum.py",
                               "projection_backends/__init__.py", "slice_backends/__init__.py", "volume_render_backends/__init__.py")),
     [("parallel drivers", VB + "*/*.py: scatter_parallel, slice_scatter_parallel, deposit_parallel"), ("registries", VB + "*_backends/__init__.py")],
     "abstract interpretation of the source; chunk partition decided on the extracted bounds", "Threads are assumed not to share the partial images, as each writes its own array.")
prop("P22", "Slice and volume kernels deposit every particle's density, once, in place",
     "The slice and voxel rendering kernels add to exactly the cells within each particle's kernel its weight times the three-dimensional kernel evaluated at the cell's distance (for slices: including the distance from the slice plane), for the particle and each of its periodic images, never outside the image, and never twice.",
     "inputs", "all particle positions, smoothing lengths, weights, box sizes, slice positions and resolutions, including a different depth resolution",
     "The tests render a few particle sets; missing edge layers or images change totals by less than their tolerance.",
     " ".join(VB + x for x in ("slice_backends/sph.py", "volume_render_backends/scatter.py")),
     [("cell loops", VB + "slice_backends/sph.py: slice_scatter; " + VB + "volume_render_backends/scatter.py: scatter, scatter_limited_z")], POLY,
     "Real arithmetic; single-precision rounding is not modelled. The nearest-neighbour slice is a tree query and is covered by P21 only.")

CMD = "python3 check.py %s"


def main():
    from sa import props
    try:
        props.load("P01")
    except KeyError:
        pass
    claimed = [p for p in P if p["id"] in props.TABLE]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py", "checks": [], "not_applicable": [],
           "notes": "All checks read the source under /repo with a stdlib-only abstract interpreter (sa/); nothing of /repo is imported or run. See DESIGN.md."}
    for p in P:
        if p in claimed:
            man["checks"].append({"property": p["id"], "quick_cmd": CMD % p["id"] + " --tier quick", "thorough_cmd": CMD % p["id"] + " --tier thorough",
                                  "technique": p["technique"], "level": props.TABLE[p["id"]].level, "level_note": p["note"] or ""})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "no sound static check has been built"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(claimed), "claimed", len(P) - len(claimed), "not applicable")


if __name__ == "__main__":
    main()
