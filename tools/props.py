#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, obs=None, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech, state=state or [], observe_at=obs or [], hook_needed=hook)))

p("P01","Big-endian number encoding is exact and reversible",
 "Encoding a 16-, 32- or 64-bit integer or a 32-bit IEEE float puts its most significant byte first, and decoding returns exactly the value that was encoded. Decoding any byte string and encoding the result gives the same bytes back.",
 ["inputs"],"every value of every encoded width, and every byte string of that width",
 "Tests encode and decode a handful of constants; the value space has 2^32 to 2^64 points.",
 ["src/utils/encoding/number_encoding.cc","include/ExSeisDat/utils/encoding/number_encoding.hh"],
 ["from_big_endian / to_big_endian overloads"],obs=["returned bytes and values"])

p("P02","IBM hexadecimal floats convert to the correctly rounded IEEE value",
 "Every 32-bit IBM/360 hexadecimal float pattern decodes to the IEEE single closest to its mathematical value (a tie may go either way): exact when that value is representable, infinity of the right sign when too large, and zero or a denormal of the right sign when too small. This holds for traces read from IBM-format files as well.",
 ["inputs"],"all 2^32 IBM patterns (and every sample pattern of an IBM-format trace)",
 "Tests convert a few hand-picked patterns with ordinary exponents; overflow, underflow, unnormalised fractions and rounding carries are unreached, and no test reads an IBM-format trace with known content.",
 ["src/utils/encoding/number_encoding.cc","src/ReadSEGY.cc"],
 ["from_IBM and to_float with the rounding right shift","conversion loop over trace samples on read"],obs=["the decoded float","samples returned by a trace read"])

p("P03","EBCDIC and ASCII text convert consistently",
 "Converting a character of the supported set from ASCII to EBCDIC and back, or the reverse, returns the same character, and the mapping is the standard code page 37/1047 one for letters, digits, space and basic punctuation. Characters outside the set become the substitute character instead of some other character.",
 ["inputs"],"every byte value in both directions, and every text header content that mixes them",
 "Tests convert fixed strings; unmapped bytes and the boundaries of the mapping table are not covered.",
 ["src/utils/encoding/character_encoding.cc","src/ReadSEGY.cc"],
 ["to_ASCII_from_EBCDIC / to_EBCDIC_from_ASCII table lookup","header text decoding choice"],obs=["converted characters","text returned by a file read"])
open_ = None
p("P04","SEG-Y regions never overlap and tile the file exactly",
 "For every number of samples and every trace index, the text header, binary header, trace headers and trace data occupy disjoint byte ranges that together cover the file from byte 0 to its size with no gap. The number of traces derived from a file size is the inverse of the size derived from a number of traces, and partial trailing data never yields an extra trace.",
 ["inputs"],"all sample counts and trace numbers the format can hold (16-bit sample count, file sizes below 2^62)",
 "Tests check a few sizes; offset arithmetic must hold for every index including ones beyond 32 bits.",
 ["include/ExSeisDat/PIOL/segy_utils.hh","src/ObjectSEGY.cc"],
 ["offset and size functions of the layout","object-layer reads and writes of header, trace header and trace data"],obs=["byte ranges touched on disk"])

p("P05","Traces and headers written are read back unchanged",
 "After any sequence of trace and trace-header writes, in any order and in contiguous or listed form, reading a trace or header back returns the last value written for it, and nothing written for one trace changes another trace, its header or the file header. A trace and its parameters written together equal the same data written separately.",
 ["inputs","histories"],"all sample values, integer and coordinate parameter values within the format's range, offsets, list orders and write/read sequences up to the stated bounds",
 "Tests write and read back one pattern per call shape with mocks; arbitrary interleavings, values and list orders are not sampled.",
 ["src/WriteSEGY.cc","src/ReadSEGY.cc","src/ObjectSEGY.cc","src/DataMPIIO.cc"],
 ["writeTraceT / readTraceT","object-layer (de)interleaving of headers and data","data-layer contiguous, strided and listed access"],obs=["bytes on disk","values returned by reads"])

p("P06","Coordinates survive the SEG-Y scale-factor encoding",
 "A set of coordinates stored in a trace header is read back with an error no larger than the resolution of the scale factor chosen, the scale factor is one of the powers of ten the format allows, and no stored integer overflows its 32-bit field. A set of whole numbers that fit the field is read back exactly, and up to four decimals are kept as far as every value of the set still fits.",
 ["inputs"],"every coordinate value within the 32-bit header field's range, alone and combined with others sharing the scale factor",
 "Tests use a few coordinate values; the choice of a scale factor depends on the decimals and magnitude of several values at once.",
 ["src/segy_utils.cc","include/ExSeisDat/PIOL/segy_utils.hh"],
 ["find_scalar / parse_scalar","parameter insertion and extraction with a shared scale factor"],obs=["stored integers and scale factor","coordinates read back"])

p("P07","Rule sets stay consistent under any sequence of edits",
 "After any sequence of rule additions and removals, the counts per type, the slot given to each parameter and the header byte span describe exactly the rules currently present: slots of one type are distinct and dense, and the span is the smallest one that covers every present rule's bytes.",
 ["histories","inputs"],"all sequences of add/remove operations of the three rule kinds up to the stated length, over any parameters and header locations",
 "Tests check a few fixed sequences of edits; the bookkeeping is history dependent.",
 ["src/Rule.cc","include/ExSeisDat/PIOL/Rule.hh"],
 ["addLong/addShort/addSEGYFloat/addCopy/rmRule","extent() recomputation flag","memUsage and paramLen/paramMem"],obs=["rule queries","parameter structures built from the rule"])

p("P08","Parameter get, set and copy touch exactly the addressed value",
 "Setting a parameter of a trace and reading it back returns the value set, and leaves every other parameter and every other trace of the structure unchanged. Copying parameters between structures with different rule sets transfers exactly the parameters both hold, at the requested trace positions.",
 ["inputs","histories"],"all parameters, indices, values and pairs of rule sets within the stated sizes",
 "Tests set and get fixed values with one rule set; aliasing between slots and cross-rule copies are not quantified over.",
 ["src/param_utils.cc","src/Param.cc"],["getPrm/setPrm/cpyPrm index arithmetic"],obs=["parameter values"])

p("P09","Every file written is a well-formed SEG-Y file",
 "The file headers of a written file state in standard positions the sample count, sample interval and data format that the user set, in the encoding the standard requires, and its size matches the number of traces, so that opening it again reports the same sample count, trace count, interval and text. This does not depend on the order in which those attributes were set before the first write.",
 ["inputs","histories"],"all sample counts, intervals, trace counts, texts and orders of setting them within the format's range",
 "Tests check calls on a mocked layer for particular values; order of attribute setting and value ranges are not quantified.",
 ["src/WriteSEGY.cc","src/ReadSEGY.cc","include/ExSeisDat/PIOL/segy_utils.hh"],
 ["header packing and the changed-header flag","header parsing on open"],obs=["bytes 0..3600 and the file size","reopened file's metadata"])

p("P10","Writing leaves the caller's data untouched",
 "Writing traces or parameters never modifies the buffers, lists or parameter structures passed in: after the call they compare equal byte for byte with what they were before.",
 ["inputs"],"all buffers, sizes and call forms within the stated bounds",
 "Tests do not compare buffers after the call for each call form; the implementation byte-swaps in place.",
 ["src/WriteSEGY.cc"],["in-place conversion before and after the write"],obs=["caller buffers after a write"])

p("P11","Reads never go past the end of the file",
 "A request that starts or extends beyond the last trace returns exactly the traces that exist, leaves the rest of the caller's buffers untouched and never reads outside the file, while still taking part in every collective operation.",
 ["inputs"],"all offsets and counts, including zero-length requests and offsets beyond the end",
 "Tests use in-range offsets and one overshoot; the combination space of offset, count and size is not covered.",
 ["src/ReadSEGY.cc","src/ReadDirect.cc"],["clamping of offset and size in the read calls"],obs=["bytes requested from storage","returned buffers"])

p("P12","Listed reads and writes equal one access per listed trace",
 "Reading a list of traces, in any order and with repeats, fills slot i of the output with listed trace i exactly as a single read of that trace would, for traces, parameters or both. Writing an ascending list stores element i at listed trace i and nothing else changes.",
 ["inputs"],"all index lists (including empty, unordered and with repeats) up to the stated length, any data",
 "Tests use regular strides and one shuffled list; permutations with repeats are not enumerated.",
 ["src/ReadSEGY.cc","src/ReadInterface.cc","src/DataMPIIO.cc"],["readTraceNonContiguous / readTraceNonMonotonic de-duplication","listIO view construction"],obs=["output buffers","bytes on disk"])

p("P13","Chunked transfers move exactly the requested bytes, once",
 "However large the request and whatever the message limit, as long as it holds one strided block or two listed blocks, a contiguous, strided or listed read or write transfers each requested byte exactly once between the right file position and the right buffer position, and touches no other byte.",
 ["inputs","configurations"],"all counts, block sizes, strides, offsets and chunk limits within the stated bounds",
 "Chunking only starts above 2 GB per call, so the ordinary tests run a single chunk.",
 ["src/DataMPIIO.cc"],["contigIO/listIO loops, remaining-call balancing, file views"],obs=["file ranges and buffer ranges of each storage call"],hook=True)

p("P14","All processes make matching collective calls",
 "For any distribution of work among processes, including processes with nothing to do, every process takes part in the same sequence of collective operations, so parallel reads, writes and searches always finish.",
 ["schedules","inputs"],"all per-process request sizes for up to the stated number of processes",
 "The tests run as a single process; mismatched collective calls only hang with several unbalanced processes.",
 ["src/DataMPIIO.cc","src/ReadInterface.cc","src/sort.cc","include/ExSeisDat/PIOL/operations/minmax.h"],["balancing calls with empty requests","reductions that agree on the number of calls"],obs=["sequence of collective calls per process"])

p("P15","A failed storage operation is always reported",
 "If any storage call made on behalf of an open, read, write, size or close operation fails, an error is recorded in the log before the operation returns, and no error is recorded when all calls succeed.",
 ["fault_sequences"],"a failure of any single storage call, or any set of them, in any operation",
 "Tests never make the storage layer fail in the middle of an operation.",
 ["src/DataMPIIO.cc","src/Logger.cc"],["return-code checks after each storage call"],obs=["recorded log entries"])

p("P16","Block decomposition partitions the work evenly and exactly",
 "Splitting N items over any number of processes gives contiguous blocks in rank order that cover every item exactly once with sizes differing by at most one, and looking up an item returns the owning process and its local index.",
 ["inputs"],"all item counts, process counts, ranks and item indices (64-bit) for which arithmetic does not overflow",
 "Tests check a few sizes; correctness must hold for all N, P pairs.",
 ["src/utils/decomposition/block_decomposition.cc"],["block_decomposition and block_decomposition_location"],obs=["returned offset and size"])

p("P17","Sort orders are strict orderings on the documented keys",
 "Each predefined sort order compares traces by its documented sequence of keys and breaks ties by original position, so it is irreflexive, asymmetric, transitive and total for every pair of traces.",
 ["inputs"],"all key values (finite) of any two or three traces",
 "Tests sort particular files; an ordering defect shows only for particular ties and key combinations.",
 ["src/sort.cc"],["comparison functions of the sort types"],obs=["resulting order"])

p("P18","A parallel sort yields one globally ordered permutation",
 "Sorting trace parameters distributed over any number of processes returns a list in which every trace number appears exactly once, parameters move together with their trace, and the whole sequence across processes in rank order satisfies the sort order. The list returned in file order is the position of each local trace in that sequence.",
 ["inputs","schedules"],"all parameter values and distributions of traces over the stated number of processes",
 "Tests run on one process, where the exchange between neighbours never happens.",
 ["src/sort.cc"],["neighbour exchange rounds until no change","sorted-to-file-order list conversion"],obs=["returned index list"])

p("P19","Order verification accepts exactly ordered files",
 "Checking a file against a sort order reports success if and only if no adjacent pair of traces in the checked range is out of order, including pairs split between processes.",
 ["inputs"],"all parameter values and trace counts within the bound, and all distributions",
 "Tests check one sorted and one unsorted file.",
 ["src/sort.cc"],["adjacent comparison in checkOrder"],obs=["returned verdict"])

p("P20","Minimum and maximum searches return the true extremes",
 "The minimum and maximum of a pair of parameters over all traces of all processes are the true extremes, and each is reported with the number of a trace that attains it (for a set of files, the number of the trace within its file).",
 ["inputs","schedules"],"all parameter values (including negative), trace numbers and distributions, including processes without traces",
 "Tests use fixed data on one process.",
 ["include/ExSeisDat/PIOL/operations/minmax.h","src/minmax.cc","src/Flow/Set.cc"],["local extreme search, reduction across processes, owner lookup","accumulation over several files"],obs=["returned extreme elements"])

p("P21","Gathers are the maximal runs of equal line numbers",
 "The gather list of a file is its sequence of maximal runs of traces with the same inline and crossline, with the right number of traces in each, however the traces are distributed over processes.",
 ["inputs","schedules"],"all inline/crossline sequences up to the stated length over the stated numbers of processes",
 "Tests run on one process where no gather crosses a process boundary.",
 ["src/gather.cc"],["run detection and boundary exchange"],obs=["list of gather sizes and line numbers"])

p("P22","A distributed vector behaves like one shared array",
 "Each element of a distributed vector, read from any process, holds the last value written to it by any process that wrote it earlier, for every element type, and writing one element never changes another.",
 ["schedules","inputs"],"all lengths, element types, indices, values and process numbers within the bounds",
 "Tests run on one process with one element type.",
 ["include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"],["window allocation size and element displacement","owner lookup for get and set"],obs=["values read"])

p("P23","A workflow writes each input trace exactly once, in order",
 "A workflow of single-trace operations (tapering, gain control) over a set of input files writes one output per combination of trace length and sample interval, which contains, for every input trace of that kind, exactly one trace with its header parameters and with its samples transformed by the workflow's operations in their order and nothing else, concatenated in the order in which files were added, whatever the numbers of traces, files, processes and the block size.",
 ["inputs","histories","configurations"],"all file sizes, numbers of files and block sizes within bounds, all sample values",
 "Tests run one workflow over fixed files on one process with one block per file.",
 ["src/Flow/Set.cc","src/Flow/Cache.cc"],["add/concat/output/startSingle block loop","offset maps from input to output files"],obs=["output file contents"],hook=True)

p("P24","A sorting workflow outputs the same traces in sorted order",
 "The output of a workflow that sorts its input is a permutation of the input traces, each with its own header and samples, in the requested order over the whole output; traces which compare equal may come in any order. A set too small to be spread over the processes may be refused with a reported error, and then nothing is promised about its output.",
 ["inputs","histories"],"all key values, numbers of traces, files and processes within bounds",
 "Tests mock the sort and cannot see a mismatch between sorted headers and trace data.",
 ["src/Flow/Set.cc","src/Flow/Cache.cc","src/sort.cc"],["subset stage, parameter cache, trace index list"],obs=["output file contents"])

p("P25","Tapers multiply only the requested ends of a trace",
 "Tapering multiplies the samples of the requested head length (counted from the first non-zero sample) and tail length (counted back from the end of the trace) by weights between 0 and 1 that rise monotonically away from the end as the chosen shape defines, leaves all other samples and traces unchanged, shortens lengths that exceed the live part to it, and always terminates without touching memory outside the traces.",
 ["inputs"],"all sample values, trace lengths, tail lengths and shapes within bounds",
 "Tests taper a few constant traces; leading zeros, all-zero traces and tails as long as the trace are not covered.",
 ["src/utils/signal_processing/taper.cc","src/utils/signal_processing/Taper_function.cc"],["ramp loops and live-sample search","taper shape functions"],obs=["trace samples after the call"])

p("P26","Automatic gain control uses exactly the window around each sample",
 "Gain control scales every sample by the target amplitude over the chosen statistic of the samples in its window, clipped to the trace, never reading outside the trace; each statistic equals its definition, and a window statistic of zero leaves the sample unscaled.",
 ["inputs"],"all sample values, trace lengths and window lengths within bounds and every gain function",
 "Tests use random data with one window size and recompute with the same formulas.",
 ["src/utils/signal_processing/AGC.cc","src/utils/signal_processing/Gain_function.cc"],["sliding window bounds","gain function definitions"],obs=["trace samples after the call"])

p("P27","Temporal filtering is confined to the selected window",
 "Filtering changes no sample outside the selected window and no other trace, never accesses memory outside the trace for any window with its centre in the trace and any padding mode, and padding reproduces the chosen extension of the windowed signal.",
 ["inputs"],"all trace lengths, windows, centres, padding kinds within bounds",
 "Tests filter whole traces with one window; off-centre windows and short traces are not covered.",
 ["src/temporalfilter.cc"],["window start/end computation and padding loops","filter recursion over the padded trace"],obs=["trace samples after the call"])

p("P28","4D binning pairs each trace with its true nearest match",
 "For each trace of the first survey which has a trace of the second within the distance limit (and, if requested, on the same line), binning selects the one with the smallest combined source and receiver distance, where source and receiver of one survey may be exchanged, and reports that distance; a trace without such a partner is not reported within the limit. This holds whatever the distribution over processes of traces which each process holds in the order of the source x coordinate.",
 ["inputs","schedules"],"all coordinates and line numbers of up to the stated numbers of traces per process",
 "No unit test covers the binning core; its boundaries and remote exchange depend on data and process layout.",
 ["util/4dcore.cc"],["sorted-window candidate restriction, distance update, remote coordinate exchange"],obs=["selected partner and distance of each trace"])

p("P29","The C interface does the same as the C++ interface",
 "Every C function performs the operation of its C++ counterpart with the same arguments, results and effects on files, and handles obtained from one call remain valid until their delete call.",
 ["inputs"],"all argument values within the bounds of the C++ checks",
 "One small C wrapper test checks that mocks are called with fixed arguments.",
 ["src/PIOL_C_bindings.cc","src/Flow/Flow_C_bindings.cc","src/utils/signal_processing/taper.cc"],["argument forwarding of each wrapper"],obs=["file contents and returned values"])

p("P30","Process-group operations combine every process's value in rank order",
 "Gathering returns each process's value at its rank, reductions return the sum, minimum or maximum over all processes in the group, and the running offset is the sum of the values of lower ranks, all over the communicator the library was created with.",
 ["inputs","schedules"],"all values and up to the stated number of processes, for any communicator",
 "Tests run as one process with the world communicator.",
 ["src/CommunicatorMPI.cc"],["typed gathers and reductions","offset computation"],obs=["returned values"])

p("P31","Velocity-model lookups return the addressed trace and sample",
 "For every regular grid of inlines and crosslines stored in a model file, reading the model at given grid positions returns exactly the trace stored for that inline and crossline, from the requested first sample.",
 ["inputs"],"all grid origins, increments and sizes within bounds, all positions on the grid",
 "Tests use one fixed grid.",
 ["src/ReadSEGYModel.cc"],["grid inference from header parameters and index computation"],obs=["values returned by the model read"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
