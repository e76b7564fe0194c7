"""Source of properties.jsonl and MANIFEST.json:  python3 tools/registry.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = "src/pyuvdata/"
TECH = "deterministic simulation with fault injection"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[U + f for f in files],
                  mech=[dict(name=n, where=U + w) for n, w in mech], technique=f"{TECH}: {technique}", note=note, observe=observe or []))


DISK = ("Seeded exploration, not proof. Trusts the interposed libc layer to see every file operation of the "
        "process, the kernel's tmpfs, and the object generators to cover the domain. ")

prop("C01", "Acknowledged visibility writes are readable and complete",
     "When writing a visibility object to any supported visibility format returns without an error, reading the file back gives "
     "the same observation, up to what the format documents it cannot hold. This holds for every valid object and writer option, and whatever "
     "the disk does during the write (full, over quota, I/O errors, short writes, process death right after the call returns): a failed write is reported, never silently lost.",
     ["inputs", "configurations", "fault_sequences", "crash_points"],
     "all valid visibility objects x writer options x formats (UVH5, UVFITS, Miriad, MS) x disk fault sequences during the write",
     "Tests round-trip a few sample files on a disk that never fails; they sample one object shape per option and never a fault.",
     ["uvdata/uvh5.py", "uvdata/uvfits.py", "uvdata/miriad.py", "uvdata/ms.py", "uvdata/uvdata.py", "utils/io/hdf5.py", "utils/io/fits.py", "utils/io/ms.py", "uvdata/src/miriad_wrap.pyx"],
     [("UVH5 writer", "uvdata/uvh5.py:write_uvh5"), ("UVFITS writer", "uvdata/uvfits.py:write_uvfits"), ("Miriad writer and bundled C library", "uvdata/miriad.py:write_miriad"), ("MS writer", "uvdata/ms.py:write_ms")],
     "seeded disk faults under the real writers, durability and fidelity oracle on re-read",
     DISK + "Oracle: snapshot of the object before the write against the object read back, with a per-format table of documented losses.")

prop("C02", "Acknowledged calibration writes are readable and complete",
     "When writing a calibration solution to a calibration format returns without an error, reading the file back gives the same solution, "
     "for every kind of solution (gain or delay, wide-band, flexible windows, sky or redundant style) and every writer option. "
     "Whatever the disk does during the write, loss is reported and never silent.",
     ["inputs", "configurations", "fault_sequences", "crash_points"],
     "all valid calibration objects x writer options x formats (calfits, CalH5, CASA tables) x disk fault sequences",
     "Tests round-trip a few hand-made solutions on a disk that never fails.",
     ["uvcal/calfits.py", "uvcal/calh5.py", "uvcal/ms_cal.py", "uvcal/uvcal.py", "utils/io/hdf5.py", "utils/io/fits.py", "utils/io/ms.py"],
     [("calfits writer and reader", "uvcal/calfits.py:CALFITS"), ("CalH5 writer and reader", "uvcal/calh5.py:CalH5"), ("CASA calibration tables", "uvcal/ms_cal.py:MSCal")],
     "seeded disk faults under the real writers, durability and fidelity oracle on re-read", DISK)

prop("C03", "Acknowledged beam writes are readable and complete",
     "When writing an antenna beam to a beam file returns without an error, reading the file back gives the same beam, for every kind of "
     "beam (electric field, power; regular or HEALPix grid) and every writer option; kinds the format cannot hold are refused. "
     "Whatever the disk does during the write, loss is reported and never silent.",
     ["inputs", "configurations", "fault_sequences", "crash_points"],
     "all valid beam objects x writer options x disk fault sequences",
     "Tests round-trip a few simulated beams on a disk that never fails.",
     ["uvbeam/beamfits.py", "uvbeam/uvbeam.py", "utils/io/fits.py"],
     [("beamfits writer and reader", "uvbeam/beamfits.py:BeamFITS")],
     "seeded disk faults under the real writer, durability and fidelity oracle on re-read", DISK)

prop("C04", "Acknowledged flag writes are readable and complete",
     "When writing a flag or metric object to its file format returns without an error, reading the file back gives the same flags, metrics and "
     "metadata, for baseline, antenna and waterfall objects and every writer option. "
     "Whatever the disk does during the write, loss is reported and never silent.",
     ["inputs", "configurations", "fault_sequences", "crash_points"],
     "all valid flag objects (3 types x 2 modes) x writer options x disk fault sequences",
     "Tests round-trip a few flag files on a disk that never fails.",
     ["uvflag/uvflag.py", "utils/io/hdf5.py"],
     [("UVFlag writer and reader", "uvflag/uvflag.py:write")],
     "seeded disk faults under the real writer, durability and fidelity oracle on re-read", DISK)

prop("C05", "A failed or interrupted write is reported and can be repeated",
     "A write that cannot be completed, because of a disk error, a failed allocation or an interrupt at any point, raises an exception "
     "and leaves the object in memory standing for the same data, no file left open and the working directory unchanged. "
     "Once the cause is gone the same object can be written in the same process, and that file is complete.",
     ["fault_sequences", "crash_points", "inputs"],
     "all formats x all points of the write at which an I/O operation fails or the Python code is interrupted",
     "Tests never interrupt a write, and never use an object again after a failed one.",
     ["uvdata/uvh5.py", "uvdata/uvfits.py", "uvdata/miriad.py", "uvdata/ms.py", "uvcal/calfits.py", "uvcal/calh5.py", "uvbeam/beamfits.py", "uvflag/uvflag.py", "utils/io/hdf5.py", "utils/io/fits.py"],
     [("context managers around files", "uvdata/uvh5.py:write_uvh5"), ("temporary in-place changes undone", "uvdata/ms.py:write_ms")],
     "disk faults and line-event interrupts, then retry, state and descriptor oracles",
     "Seeded exploration. Interrupt points are line events of the package's own Python code; disk faults are injected at libc calls.")

prop("C06", "Existing files are only ever replaced on request",
     "No write replaces, truncates or changes an existing file or directory unless overwriting was asked for, and a refused or rejected write leaves "
     "everything on disk as it was, byte for byte. A write that does overwrite leaves exactly the file a write to an empty place would have left, with no remains of "
     "the old one. This holds for every format and for every history of writes, refused writes, bad arguments and interrupts.",
     ["histories", "inputs", "configurations", "crash_points"],
     "all sequences of writes (all formats, with and without overwriting, valid and invalid arguments, interrupted) to a set of paths",
     "Tests try one refused write per format and do not compare what is on disk before and after, nor histories of writes to the same place.",
     ["uvdata/uvh5.py", "uvdata/uvfits.py", "uvdata/miriad.py", "uvdata/ms.py", "uvcal/calfits.py", "uvcal/calh5.py", "uvbeam/beamfits.py", "uvflag/uvflag.py"],
     [("clobber checks", "uvdata/uvh5.py:initialize_uvh5_file"), ("directory formats removed before writing", "uvdata/miriad.py:write_miriad")],
     "seeded histories of writes, refusals and interrupts against a byte-level model of the directory",
     "Seeded exploration. Oracle: fingerprints of whole directory trees and a model of which paths may change.")

prop("C07", "A read gives what the file holds or fails, and costs nothing",
     "A read either returns exactly what the file holds or raises an exception, whatever the disk does (I/O errors, short reads, no descriptors, permission) and wherever it is interrupted: no item is "
     "silently dropped, defaulted or cut short because reading it failed. A read that fails on an I/O error leaves the target object as it was, keeps no file open and never changes the file, and reading "
     "again afterwards in the same process gives the full result.",
     ["fault_sequences", "crash_points", "inputs", "histories"],
     "all readable files of all formats this package writes x fault sequences during the read x interrupt points x new or used target objects",
     "Tests read intact files from a disk that never fails.",
     ["uvdata/uvh5.py", "uvdata/uvfits.py", "uvdata/miriad.py", "uvdata/ms.py", "uvcal/calfits.py", "uvcal/calh5.py", "uvbeam/beamfits.py", "uvflag/uvflag.py", "utils/io/hdf5.py", "utils/io/ms.py", "telescopes.py", "uvdata/aipy_extracts.py"],
     [("lazy HDF5 metadata", "utils/io/hdf5.py:HDF5Meta"), ("Miriad header items", "uvdata/aipy_extracts.py:UV._rdhd"), ("telescope items", "telescopes.py:Telescope.from_hdf5"), ("optional MS tables", "utils/io/ms.py:_ms_utils_call_checks")],
     "seeded read faults and line-event interrupts under the real readers, equality and state oracles",
     DISK + "FITS data are read instead of mapped so that faults reach them.")

prop("C09", "Files written in parts equal files written at once",
     "A UVH5 file initialised and then filled part by part holds exactly the same observation as one written in a single call, whatever the partition "
     "(by times, baselines, frequencies, polarizations, in any order, parts written again, overlapping), dtype and compression, and across process restarts between parts. "
     "Parts written by calls that returned stay in the file when a later call is refused, rejected, interrupted or meets a disk error; what was not yet written reads as flagged empty data, and the object used to "
     "write is left as it was.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "all sequences of part writes (selection kinds, orders, refusals, interrupts, disk errors, restarts) of all UVH5-writable objects",
     "Tests write a few regular partitions in order in one process with no failure between parts.",
     ["uvdata/uvh5.py", "utils/io/hdf5.py", "uvdata/uvdata.py"],
     [("file initialised with no data", "uvdata/uvh5.py:initialize_uvh5_file"), ("part written at indices", "uvdata/uvh5.py:write_uvh5_part"), ("indices to hyperslabs", "utils/io/hdf5.py:_convert_to_slices")],
     "seeded histories of part writes, restarts, refusals, interrupts and disk errors against a model array",
     "Seeded exploration. Oracle: a model of which elements have been acknowledged, compared with the file read back after every step.")

prop("C10", "Selecting while reading equals selecting afterwards",
     "Selecting from an object gives exactly the selected values with their own labels and nothing else, whatever criteria are combined, in whatever order and form they are given, and however many selections follow "
     "each other. Giving the same criteria to a read gives the same object as reading everything and selecting afterwards, however the reader fetches the data and whatever short or failing reads it meets on the way. "
     "A selection that leaves nothing is refused.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "all objects x combinations of selection criteria and their forms x formats x read strategies x read faults",
     "Tests try single criteria on sample files; they do not combine criteria freely, permute them, chain selections or let the partial reads meet short or failing reads.",
     ["uvdata/uvdata.py", "uvdata/uvh5.py", "uvdata/uvfits.py", "uvdata/miriad.py", "uvdata/ms.py", "uvcal/uvcal.py", "uvcal/calh5.py", "uvcal/calfits.py", "uvbeam/uvbeam.py", "uvbeam/beamfits.py", "uvflag/uvflag.py", "uvbase.py", "utils/io/hdf5.py", "utils/bltaxis.py", "utils/times.py", "utils/frequency.py", "utils/pol.py"],
     [("select in memory", "uvbase.py:UVBase._select_along_param_axis"), ("partial HDF5 reads", "utils/io/hdf5.py:_index_dset"), ("UVFITS partial reads", "uvdata/uvfits.py:_get_data"), ("Miriad selection in the C library", "uvdata/miriad.py:read_miriad"), ("CalH5 partial reads", "uvcal/calh5.py:_get_data")],
     "seeded selection histories and partial reads under read faults against an index model",
     DISK + "Oracle: numpy indexing of the full arrays with the indices the criteria stand for, and equality of partial read with read and select.")

prop("C11", "Reading many files gives their union and reports every bad one",
     "Reading a list of files of one observation gives the union of what the files hold, every value under its own labels, whatever the order of the files, how the observation was split between them and whether a concatenation axis is given. "
     "A file that cannot be read (missing, damaged, I/O error) makes the read fail, or, when bad files are to be skipped, is left out and named in a warning; no readable file is ever left out.",
     ["inputs", "configurations", "fault_sequences"],
     "all splits of an observation into files x orders of the files x sets of missing, damaged or failing files x read options",
     "Tests read a few fixed splits of sample files in one order and with at most one bad file.",
     ["uvdata/uvdata.py", "uvcal/uvcal.py", "uvbeam/uvbeam.py", "uvflag/uvflag.py", "utils/phase_center_catalog.py", "uvbase.py"],
     [("multi-file reads of visibilities", "uvdata/uvdata.py:UVData.read"), ("fast concatenation", "uvdata/uvdata.py:UVData.fast_concat"), ("combination", "uvdata/uvdata.py:UVData.__add__"), ("multi-file reads of solutions", "uvcal/uvcal.py:UVCal.read"), ("multi-file reads of beams", "uvbeam/uvbeam.py:UVBeam.read")],
     "seeded splits, file orders, damaged and failing files under the real readers against a labelled-union model",
     DISK + "Oracle: every array as a map from labels to values; the union of the maps of the files read one by one. What a damaged file that still reads holds is not judged here.")

prop("C17", "Combining objects gives their union or changes nothing",
     "Combining pieces of an observation, calibration, beam or flag set in memory (a + b, a += b, fast_concat) gives the union of the pieces, every value under its own labels and places that no piece fills flagged, "
     "whatever the axis the pieces were split along, the order of their entries, the order in which they are combined and the numbering of their phase centers. "
     "Pieces that overlap or do not go together are refused. A refused combination leaves all objects as they were, and a + b, even interrupted at any point, never changes a or b.",
     ["inputs", "histories", "crash_points"],
     "all splits and permutations of objects x trees of combinations x points of interruption or failed allocation",
     "Tests combine two or three sample pieces whose entries are in the same order, and never interrupt a combination.",
     ["uvdata/uvdata.py", "uvcal/uvcal.py", "uvbeam/uvbeam.py", "uvflag/uvflag.py", "utils/tools.py"],
     [("UVData", "uvdata/uvdata.py:UVData.__add__"), ("UVData", "uvdata/uvdata.py:UVData.fast_concat"), ("UVCal", "uvcal/uvcal.py:UVCal.__add__"), ("UVCal", "uvcal/uvcal.py:UVCal.fast_concat"), ("UVBeam", "uvbeam/uvbeam.py:UVBeam.__add__"), ("UVFlag", "uvflag/uvflag.py:UVFlag.__add__")],
     "seeded splits, permutations and combination trees with interrupts and failed allocations, against a labelled-union model",
     "Seeded exploration, not proof. Oracle: every array as a map from labels to values; the union of the maps of the pieces; snapshots of the operands.")

prop("C12", "Background LST computation never changes what a read returns",
     "A read whose LSTs are computed in a background thread gives the same object, or the same exception, as one that computes them in the foreground, whatever the interleaving of the two threads: "
     "LSTs and apparent coordinates are complete and right when the read returns, nothing changes the object afterwards, a failure of the background computation is reported by the read, and an object whose read failed or was interrupted can be read into again with the same result as a new one.",
     ["inputs", "schedules", "crash_points"],
     "all files without stored LSTs x interleavings of the background thread x failures inside the thread x interrupts of the reading thread",
     "Tests read with the thread under the operating system's scheduling, where it nearly always ends before it is joined, and never let it fail.",
     ["uvdata/uvdata.py", "uvcal/uvcal.py", "uvflag/uvflag.py", "utils/tools.py", "uvdata/uvh5.py", "uvdata/uvfits.py", "uvdata/ms.py", "uvdata/miriad.py", "uvcal/calh5.py", "uvcal/calfits.py"],
     [("UVData", "uvdata/uvdata.py:UVData.set_lsts_from_time_array"), ("UVCal", "uvcal/uvcal.py:UVCal.set_lsts_from_time_array"), ("UVFlag", "uvflag/uvflag.py:UVFlag.set_lsts_from_time_array")],
     "seeded scheduling of the real background thread with thread failures and interrupts, against the foreground read",
     "Seeded exploration, not proof. Oracle: the read with background_lsts=False under no faults; digest of the object after every other thread has ended.")
prop("C14", "Values stay under their labels through any history of edits",
     "Through any history of reorderings (of baseline-times, frequencies, spectral windows, polarizations, antennas, times, Jones terms), conjugations of baselines, phase center renames, splits and merges, flex-pol conversions, copies, pickles, "
     "setter calls and changes of x_orientation, every data, flag, nsample, gain, beam and metadata value stays under its labels; the attributes that describe the order are true; "
     "the accessors (get_data, get_flags, get_nsamples, get_times, get_antpairs, get_gains, antpair2ind ...) return exactly what the arrays hold for the labels asked for, whichever calls came before and even if one of them was interrupted or refused. "
     "UVBeam.interp (also with reuse_spline, and for a part of the frequencies and polarizations) and the beam areas answer for the beam as it is now, as a new object with the same contents does, whatever was asked and edited before.",
     ["inputs", "histories", "crash_points"],
     "all objects x sequences of editing, access and refused calls x points of interruption of accessors",
     "Tests make one or two edits on a sample object and never look at caches or order attributes left over from earlier calls.",
     ["uvdata/uvdata.py", "uvcal/uvcal.py", "utils/bltaxis.py", "utils/pol.py", "utils/tools.py", "utils/frequency.py", "uvbase.py", "uvbeam/uvbeam.py"],
     [("UVBeam", "uvbeam/uvbeam.py:UVBeam.interp"), ("UVData", "uvdata/uvdata.py:UVData.reorder_blts"), ("UVData", "uvdata/uvdata.py:UVData.reorder_freqs"), ("UVData", "uvdata/uvdata.py:UVData.conjugate_bls"), ("UVData", "uvdata/uvdata.py:UVData._key2inds"), ("UVData", "uvdata/uvdata.py:UVData._smart_slicing"), ("UVCal", "uvcal/uvcal.py:UVCal.reorder_antennas"), ("UVCal", "uvcal/uvcal.py:UVCal.reorder_freqs")],
     "seeded histories of edits, accesses, refused and interrupted calls, against a label-to-value model",
     "Seeded exploration, not proof. Oracle: every array as a map from labels to values, compared after each step; accessors against direct look-up by label; beam queries against a new object with the same contents.")

prop("C15", "Operations that return new objects leave their operands alone",
     "Every operation that returns something new (select, +, fast_concat, sum_vis, diff_vis, compress_by_redundancy, copy, pickling, comparison, beam conversions and interpolation, uvcalibrate and apply_uvflag with inplace=False, making a UVFlag or UVCal "
     "from another object, matching a UVFlag to one) leaves its operands and arguments exactly as they were, also when it is refused or interrupted at any point; its result shares no mutable state with the operands (changing the one never changes the other); "
     "repeating it gives the same again; and its in-place form produces the same object. Excepted are attributes that are only worked out on first use (blts_are_rectangular, time_axis_faster_than_bls), and the creation date in a history.",
     ["inputs", "histories", "crash_points"],
     "all objects of the four classes x operations and their options x points of interruption x later changes to operand or result",
     "Tests compare results with expectations; none changes a result afterwards to see whether the operand changes too, and none interrupts an operation.",
     ["uvdata/uvdata.py", "uvcal/uvcal.py", "uvcal/initializers.py", "uvbeam/uvbeam.py", "uvflag/uvflag.py", "utils/uvcalibrate.py", "utils/apply_uvflag.py", "uvbase.py"],
     [("UVData", "uvdata/uvdata.py:UVData.fast_concat"), ("UVData", "uvdata/uvdata.py:UVData.select"), ("UVCal", "uvcal/uvcal.py:UVCal.fast_concat"), ("UVBeam", "uvbeam/uvbeam.py:UVBeam.interp"), ("UVFlag", "uvflag/uvflag.py:UVFlag.to_baseline"), ("calibration", "utils/uvcalibrate.py:uvcalibrate")],
     "seeded operations interrupted at seeded points, operands and results overwritten in turn, against snapshots",
     "Seeded exploration, not proof. Oracle: deep snapshots (values, types, parameter descriptions) of operands before and after, of the result before and after overwriting everything reachable from the operands, and of the in-place form.")

prop("C18", "Flags and metrics stay with the data they were made for",
     "Whatever is done to a UVFlag object made for an observation - converting it between waterfall, baseline and antenna type or between flags and metrics, collapsing its polarizations, writing and reading it, reordering or dropping its rows - "
     "and when it is applied to data with apply_uvflag, every flag and metric stays with the baseline or antenna, time, channel and polarization it was made for, in whatever order these are on either object. "
     "A request that cannot be matched is refused and changes no value; an apply_uvflag that is interrupted never sets a flag that neither object has nor clears one, and doing it again gives the same flags; the flag object and everything else of the data stay as they were.",
     ["inputs", "histories", "crash_points"],
     "all UVData/UVCal objects x flag objects made for them x histories of conversions, reorderings, files and applications x points of interruption",
     "Tests convert and apply to objects whose axes are in the same order; mismatched orders, repeated conversions and interrupted applications are not sampled.",
     ["uvflag/uvflag.py", "utils/apply_uvflag.py", "uvcal/uvcal.py", "uvdata/uvdata.py"],
     [("UVFlag", "uvflag/uvflag.py:UVFlag.to_baseline"), ("UVFlag", "uvflag/uvflag.py:UVFlag.to_antenna"), ("UVFlag", "uvflag/uvflag.py:UVFlag.to_waterfall"), ("UVFlag", "uvflag/uvflag.py:UVFlag.collapse_pol"), ("apply_uvflag", "utils/apply_uvflag.py:apply_uvflag")],
     "seeded histories of conversions and applications, shuffled axes, interruptions at seeded points, against a label-to-value model",
     "Seeded exploration, not proof. Oracle: a dictionary from labels to values, transformed by the documented meaning of each operation.")

prop("C13", "Lazy metadata handles tell what the file holds, whatever was done before",
     "A FastUVH5Meta or FastCalH5Meta handle answers every attribute, derived quantity and query (antenna pairs, unique times and LSTs, positions, polarizations, phase centers, rectangularity, has_key, ...) with what was written to the file, "
     "and with the same answer a new handle gives, after any history of accesses, transactional accesses, released attributes, closes, reopenings, pickling and copying, other handles on the same file, reads of whole objects through it, "
     "and accesses that failed because the file could not be read or that were interrupted; a failed access raises something other than AttributeError. Nothing is held open after close() or get_transactional(), copies do not share the file, handles are equal and hash equal exactly "
     "when they are for the same file, and no access changes the file.",
     ["inputs", "histories", "fault_sequences", "crash_points"],
     "all uvh5 and calh5 files (also older ones without optional header items) x hints x histories of accesses on several handles x read failures x points of interruption",
     "Tests access attributes of a few files once, in a fixed order, on a disk that never fails.",
     ["utils/io/hdf5.py", "uvdata/uvh5.py", "uvcal/calh5.py", "telescopes.py"],
     [("HDF5Meta", "utils/io/hdf5.py:HDF5Meta"), ("FastUVH5Meta", "uvdata/uvh5.py:FastUVH5Meta"), ("FastCalH5Meta", "uvcal/calh5.py:FastCalH5Meta"), ("Telescope", "telescopes.py:Telescope.from_hdf5")],
     "seeded histories of accesses on handles with read failures and interruptions, against the written object and fresh handles",
     "Seeded exploration, not proof. Oracles: the object that was written (derived quantities recomputed independently), a new handle per attribute, and the open descriptors of the process.")

prop("C16", "What threads do with objects of their own does not depend on each other",
     "Writing, reading, selecting, editing, flagging and converting objects, opening lazy handles and looking up telescopes gives in each of several threads exactly what the same calls give when nothing else runs in the process, "
     "whatever the interleaving of the threads and whichever of them is interrupted, and also afterwards in the same process. Read-only queries of an object that several threads hold (data, flags, antenna pair, time and polarization look-ups, "
     "copies, selections into new objects, comparisons) give the right answer in each of them and leave the object as it is.",
     ["schedules", "inputs", "crash_points"],
     "all pairs and triples of such calls (all formats, also the read-only ones) x all interleavings at statement granularity x points of interruption of one thread",
     "Tests run one call after the other in one thread.",
     ["uvdata/uvdata.py", "uvcal/uvcal.py", "uvbeam/uvbeam.py", "uvflag/uvflag.py", "telescopes.py", "utils/io/hdf5.py", "uvdata/miriad.py", "uvdata/_miriad.pyx", "uvdata/aipy_extracts.py", "utils/tools.py"],
     [("UVData caches", "uvdata/uvdata.py:UVData.antpair2ind"), ("Miriad handles", "uvdata/aipy_extracts.py:UV"), ("known telescopes", "telescopes.py:Telescope.from_known_telescopes"), ("HDF5Meta", "utils/io/hdf5.py:HDF5Meta"), ("background LSTs", "utils/tools.py:_ReraisingThread")],
     "seeded interleavings of threads with own and shared objects under a baton scheduler, against the same programs run alone",
     "Seeded exploration, not proof. Threads switch at statements of the package's Python code, not inside native libraries. Oracle: each program run alone in a process of its own.")

prop("C19", "Results depend on the inputs only, not on the process they are computed in",
     "Building, writing, reading, selecting, combining, editing, converting, flagging and querying objects gives the same objects, answers and outcomes in every process that is given the same inputs: "
     "whatever its hash seed, the contents of fresh memory, the date and time zone, the current directory, the umask, numpy's print options, the state of the random generators, when the garbage collector runs, "
     "and whatever was done earlier in the same process. Only the time stamps that are put into histories may differ.",
     ["configurations", "histories", "inputs"],
     "all programs of such operations x all surroundings of the process x all earlier programs in it",
     "Tests run each call once, in one kind of process, with one hash seed, and mostly on fresh (zeroed) memory.",
     ["uvdata/uvdata.py", "uvcal/uvcal.py", "uvbeam/uvbeam.py", "uvflag/uvflag.py", "telescopes.py", "uvbase.py", "utils/io/hdf5.py", "uvdata/_miriad.pyx"],
     [("combination", "uvdata/uvdata.py:UVData.__add__"), ("caches", "uvdata/uvdata.py:UVData._key2inds"), ("unordered collections", "uvdata/uvdata.py:UVData.get_feedpols"), ("new arrays", "uvcal/uvcal.py:UVCal.__add__"), ("known telescopes", "telescopes.py:Telescope.from_known_telescopes")],
     "seeded programs run in two simulated surroundings (clock, hash seed, heap contents, past, ...), with every observation compared",
     "Seeded exploration, not proof. Oracle: the same program in a plain process. Two further interpreters with other hash seeds are kept; the clock is shifted by the interposed libc layer, fresh memory is filled by the allocator.")

#NEXT

NA = []


def na(id, title, statement, text, files, mech, why="Tests sample a few values."):
    NA.append(dict(id=id, title=title, statement=statement, over=["inputs"], text=text, why=why, files=[U + f for f in files], mech=[dict(name=n, where=U + w) for n, w in mech],
                   reason="A statement about pure arithmetic on its inputs: there is no concurrency, time, I/O, failure or history for a simulator to decide, and sampling inputs for it would be another technique."))


na("N01", "Phasing and unphasing are inverse and preserve the visibilities",
   "Phasing to any center and back gives the original visibilities and uvws to numerical precision, and phasing in two steps equals phasing directly.",
   "all objects x phase centers", ["uvdata/uvdata.py", "utils/phasing.py"], [("phasing", "uvdata/uvdata.py:UVData.phase")])
na("N02", "Coordinate conversions are mutually inverse",
   "Conversions between geodetic, geocentric, rotated and local coordinates, and baseline numbers and antenna pairs, are inverse to each other on their domains, for every ellipsoid and selenoid.",
   "all coordinates in the domain", ["utils/coordinates.py", "utils/bls.py"], [("coordinates", "utils/coordinates.py:ECEF_from_ENU")])
na("N03", "Averaging and resampling conserve the weighted visibilities",
   "Averaging in time, frequency or over redundant baselines conserves the nsample-weighted mean and treats flagged samples as documented.",
   "all objects x averaging factors", ["uvdata/uvdata.py"], [("frequency_average", "uvdata/uvdata.py:UVData.frequency_average"), ("downsample_in_time", "uvdata/uvdata.py:UVData.downsample_in_time")])
na("N04", "Applying and undoing a calibration are inverse",
   "uvcalibrate applies exactly gain_1 * conj(gain_2) (or its inverse) to each visibility and undo=True takes it back.",
   "all visibilities x solutions", ["utils/uvcalibrate.py"], [("uvcalibrate", "utils/uvcalibrate.py:uvcalibrate")])
na("N05", "Beam interpolation agrees with the beam at its own grid points",
   "Interpolating a beam at its own pixels and frequencies gives the stored values, and converting to power or pseudo-Stokes is independent of the order of axes.",
   "all beams x positions", ["uvbeam/uvbeam.py"], [("interp", "uvbeam/uvbeam.py:UVBeam.interp")])
na("N06", "Polarization names and numbers correspond one to one",
   "Polarization, Jones and feed strings and numbers convert back and forth under any x_orientation, and conjugating a polarization twice gives it back.",
   "all names x orientations", ["utils/pol.py"], [("polarization conversion", "utils/pol.py:polstr2num")])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P + [n for n in NA]:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": p["mech"]}}
            if p.get("observe"):
                d["anchors"]["observe_at"] = p["observe"]
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    m = {"version": 1,
         "setup_cmd": "bash checks/setup.sh",
         "hooks": {"guard": "none: no hooks were added to the repository", "enable": "nothing to enable; all seams are outside the code (interposed libc, line events, patched thread factory)", "source_commits": []},
         "checks": [], "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NA]}
    for p in P:
        m["checks"].append({"property": p["id"], "quick_cmd": f"bash checks/run.sh {p['id']} quick",
                            "thorough_cmd": f"bash checks/run.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
