#!/usr/bin/env python3
# regenerates properties.jsonl (kept as source so wording edits stay reviewable)
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p("C01","Intel HEX image is exact for every partition of the work and every schedule",
 "Reading a well-formed Intel HEX file (data, extended linear address, start address and end-of-file records, either line ending, either letter case) succeeds and returns exactly the address-to-byte map the file defines: each data byte at the base address of the nearest preceding extended linear address record (zero if none) plus the record's address field plus its index in the record, no byte missing and none extra. "
 "This holds for every file length, every number and placement of segments including a segment at zero, a repeated segment or a record that crosses a 64K border, every number of processors and every interleaving of the workers.",
 ["schedules","inputs","configurations"],"every well-formed Intel HEX file x every processor count x every interleaving of the record, offset, checksum and data workers",
 "The one test reads one fixed file with four segments on this machine's processor count and compares only the number of bytes; it can place no segment boundary relative to a worker boundary and picks no interleaving of the offset and checksum workers.",
 ["ihex32/hex.go","ihex32/record.go"],
 [("line partition, ordered collection of the workers' records","ihex32/hex.go parseHex"),("offset workers that stop where another worker has already been","ihex32/record.go addOffsets"),("per-record address computation","ihex32/record.go calcDataEntries")],
 ["map returned by the Intel HEX reader","CalibrationData.Hex"],
 [("record.offset","upper 16 address bits of a record, written by concurrent workers under the record's lock","ihex32/record.go")])
p("C02","Motorola S19 image is exact for every partition of the work and every schedule",
 "Reading a well-formed S-record file of 32-bit data records, with or without header, count and termination records anywhere the format allows them, succeeds and returns exactly the address-to-byte map its data records define, no byte missing and none extra. "
 "This holds for every file length, either line ending, either letter case, every number of processors and every interleaving of the workers.",
 ["schedules","inputs","configurations"],"every well-formed S-record file with 32-bit addresses x every processor count x every interleaving of the workers",
 "The one test reads one file that has no header record, on this machine's processor count, and compares only the number of bytes.",
 ["srec19/hex.go","srec19/record.go"],
 [("line partition, ordered collection of the workers' records","srec19/hex.go parseHex"),("record decoding","srec19/record.go parseRecord, calcDataEntries")],
 ["map returned by the S19 reader","CalibrationData.Hex"])
p("C03","A damaged memory image is never accepted silently",
 "If the stored Intel HEX or S19 file was damaged so that some record is malformed (wrong start character, non-hex digit, checksum that does not match, length that does not match its byte count, a record torn short or run together with the next, or, for Intel HEX, a missing end-of-file record), the read returns an error, whichever worker meets the damage and in whatever order the workers finish. "
 "A read that returns no error has returned exactly the image the bytes on disk define.",
 ["fault_sequences","schedules","inputs","configurations"],"every sequence of stored-byte faults (flips, substitutions, deletions, insertions, torn tail, lost or repeated blocks) in every position x every processor count x every interleaving",
 "No test reads a damaged file with a checked outcome; the fuzz targets only look for crashes.",
 ["ihex32/hex.go","ihex32/record.go","srec19/hex.go","srec19/record.go"],
 [("record parsing and its error path","parseRecord, parseRecordRoutine"),("parallel checksum validation and its result channel","validateChecksumsRoutine, parseHex")],
 ["error result of the two image readers and of ReadCalibration"])
p("C04","An address defined twice is always an error",
 "If two data bytes of a memory image file claim the same 32-bit address, reading the file returns an error, whether the two records lie next to each other or are handled by different workers, whether their values agree or differ, and in whatever order the workers run; a file without such a pair is never rejected for a collision.",
 ["schedules","inputs","configurations"],"every placement of the two colliding records over the file x every processor count x every interleaving, for both image formats",
 "No test contains a collision.",
 ["ihex32/hex.go","srec19/hex.go"],
 [("collision test while the workers' data are merged","parseHex")],
 ["error result of the two image readers"])
p("C05","Every A2L object is read, exactly, whatever the partition and schedule",
 "Reading a well-formed A2L file with one or several modules succeeds and returns every module in file order and, in each, exactly the objects the module defines (none lost, none invented, none altered or mixed with a neighbour), keyed by their identifiers, with each object's content equal to what it is when that object stands alone in a file. "
 "This holds for every size and order of objects, layout, comment and quoted text in the file (identifiers unique per kind), every number of processors and every interleaving of the workers.",
 ["schedules","inputs","configurations"],"every well-formed A2L file x every processor count (hence every position of worker boundaries in lines and in tokens) x every interleaving of tokenisers, object parsers and collectors",
 "The tests parse two fixed demo files on one processor count and look up a single identifier; worker boundaries fall at fixed places and the schedule is whatever the machine did.",
 ["a2l/token_generator.go","a2l/module.go","a2l/project.go","a2l/a2l.go"],
 [("parallel tokenising of line chunks","a2l/token_generator.go buildTokenGeneratorFromString"),("module split into token ranges parsed by workers","a2l/module.go parseModuleMultithreaded, parseModuleMainLoop"),("one collector per object kind","a2l/module.go collectChannelsMultithreaded"),("sequential parser for several modules","a2l/module.go parseModule")],
 ["exported maps of the returned modules","all fields of the returned objects"],
 [("token list, module count, multithreading switch","shared state the workers read","a2l/token_generator.go, a2l/a2l.go")])
p("C06","A truncated or structurally broken A2L file is always an error",
 "If an A2L file was cut short at any byte, or lost or repeated a block of bytes or lines so that its block structure no longer closes (a module or project without its end, an object without its end, a parameter that cannot be converted), reading it returns an error on every processor count and for every interleaving, even when only one of many workers meets the damage; a read of a cut file that returns no error has returned exactly the content of the uncut file.",
 ["fault_sequences","schedules","inputs","configurations"],"every truncation point and lost block x every processor count x every interleaving",
 "Unit tests feed hand-made token lists to single parsers; none reads a damaged file, and none checks that an error found by one worker survives the collection.",
 ["a2l/a2l.go","a2l/module.go","a2l/project.go","a2l/token_generator.go"],
 [("error channel and its collector","a2l/module.go parseModuleMainLoop, collectChannelsMultithreaded"),("end-of-file checks in every object parser","a2l/*.go")],
 ["error result of the A2L reader and of ReadCalibration"])
p("C07","Reading a calibration is all or nothing",
 "Reading a calibration (identifiers unique per kind) returns no error exactly when both the description file and the image file can be read on their own, and then both parts equal what the individual readers return for those files, the image format being chosen from the image file's name. "
 "If either part fails, or the image file's type is unsupported, an error that comes from a failed part is returned, whichever part finishes first.",
 ["schedules","fault_sequences","inputs"],"every combination of good, damaged, missing and unreadable files x every order in which the two readers progress and finish",
 "The test reads one good pair; no failing pair is ever read.",
 ["calib_data.go"],
 [("two reader goroutines, wait group, error and result channels","calib_data.go ReadCalibration, readA2L, readHex")],
 ["result and error of ReadCalibration"])
p("C08","Every read ends, with a result or an error",
 "For any content of the files, any I/O fault, any processor count and any interleaving, a read returns a result or an error after a number of steps bounded by the size of its input: it never deadlocks, never panics, never ends the process, and leaves no goroutine behind that can not finish.",
 ["schedules","fault_sequences","inputs","configurations"],"every file content (including damaged, truncated, empty and arbitrary bytes) x every I/O fault x every processor count x every interleaving",
 "Tests read good files on one processor count; a deadlock or a leaked worker needs a particular error at a particular point of the hand-over between workers and collectors.",
 ["calib_data.go","a2l/module.go","a2l/token_generator.go","ihex32/hex.go","srec19/hex.go"],
 [("channel capacities, close order, wait groups","ReadCalibration, parseModuleMultithreaded, closeChannelsAfterParsing, parseHex")],
 ["termination of every exported read function","goroutines alive after it returned"])
p("C09","Concurrent reads do not disturb each other",
 "When several callers read calibrations, A2L files or image files at the same time, each call returns exactly what it would have returned had it run alone (identifiers unique per kind), for every interleaving of the calls and whether the others succeed or fail.",
 ["schedules","inputs","histories"],"every set of overlapping calls on equal or different files x every interleaving",
 "Tests make one call at a time.",
 ["a2l/token_generator.go","a2l/a2l.go","calib_data.go"],
 [("package-level parser state","a2l/token_generator.go, a2l/a2l.go"),("global logger configuration","calib_data.go configureLogger")],
 ["results of overlapping calls"],
 [("token list, module count, multithreading switch","process-wide parser state","a2l/token_generator.go, a2l/a2l.go")])
p("C10","A read's outcome does not depend on earlier reads",
 "The outcome of a read depends only on the files it reads: after any history of earlier successful or failed reads of any kind in the same process, whatever they read, it equals the outcome in a fresh process (identifiers unique per kind).",
 ["histories","schedules","fault_sequences"],"every sequence of earlier calls, including failed and fault-hit ones x every interleaving of their workers",
 "Test order and content are fixed and results are compared only by size.",
 ["a2l/token_generator.go","a2l/a2l.go","calib_data.go","ihex32/hex.go","srec19/hex.go"],
 [("re-initialisation of parser state per call","a2l/token_generator.go buildTokenGeneratorFromString")],
 ["results of calls in a sequence"])
p("C11","No data race in any read or lookup",
 "No execution of the exported read and lookup functions, on any file, any processor count and any interleaving, including overlapping calls and overlapping lookups on one calibration, contains two unsynchronised conflicting accesses to the same memory.",
 ["schedules","inputs","configurations"],"every execution: every input, processor count and interleaving",
 "The suite is not run under a race detector, and a race needs the two accesses to be executed by workers whose hand-over leaves them unordered.",
 ["a2l/module.go","a2l/token_generator.go","ihex32/record.go","ihex32/hex.go","srec19/hex.go","calib_data.go"],
 [("record locks, channels, wait groups, atomic module counter","ihex32/record.go, a2l/token_generator.go, a2l/module.go")],
 ["memory accesses of the instrumented run (happens-before detector)"])
p("C12","A returned result is stable and belongs to the caller",
 "Once a read has returned, nothing the library does afterwards (goroutines still finishing, later or overlapping reads and lookups) changes the returned data, and nothing the caller does to the returned data changes what a later read returns.",
 ["schedules","histories","fault_sequences"],"every continuation after a return: every interleaving of left-over workers, every sequence of later calls and caller mutations",
 "No test looks at a result again after a later call.",
 ["calib_data.go","a2l/a2l.go","a2l/module.go","ihex32/hex.go","srec19/hex.go"],
 [("fresh maps and slices per call","parseModule*, parseHex"),("collectors waited for before the result is returned","a2l/module.go collectChannelsMultithreaded")],
 ["deep content of earlier results after later activity"])
p("C13","Lookups return exactly the selected module's objects under concurrency",
 "Looking an identifier up in a read calibration returns exactly the objects carrying that identifier in the selected module, one per kind that is searched (axis points, characteristics, conversion methods and tables, functions, groups, measurements, record layouts, system constants, units), with their content, and nothing for an unknown identifier or a module that is not there; any number of lookups may run at the same time as each other and as other reads without changing any answer.",
 ["schedules","inputs","histories"],"every calibration, module selection and identifier x every interleaving of overlapping lookups and reads",
 "One lookup of one identifier is made, alone, and only its non-emptiness is checked.",
 ["record_manager.go"],
 [("lookup over the module's maps","record_manager.go GetObjectByIdent")],
 ["objects returned by the lookup"])
p("C14","Logging trouble never corrupts a read",
 "If the log file can not be created, reading a calibration returns an error and reads nothing; if writing the log or the console output fails, is short or is slow at any point, whether the read succeeds and what it returns are unchanged.",
 ["fault_sequences","schedules"],"every point at which creating or writing the log or the console fails (full disk, I/O error, short write, closed output) x every interleaving",
 "Tests run with a writable directory and a working console.",
 ["calib_data.go"],
 [("log set-up and its error path","calib_data.go configureLogger, ReadCalibration")],
 ["result and error of ReadCalibration under log faults"])
p("C15","A file that can not be read in full is an error",
 "If opening or reading an input file fails at any point (missing, permission denied, too many open files, I/O error after any number of bytes), each read function that needed it returns an error and never a result built from the part that was read; reads that are short or interrupted but eventually complete do not change the outcome.",
 ["fault_sequences","schedules"],"every fault kind at every operation on either input file x every interleaving of the two readers",
 "Tests read existing, readable files.",
 ["a2l/a2l.go","ihex32/hex.go","srec19/hex.go","calib_data.go"],
 [("file reading and its error path","readFileToString in a2l, ihex32, srec19")],
 ["error result of each exported read function"])
p("C16","The same files give the same answer on every schedule",
 "For any content of the files, well-formed or not (identifiers unique per kind), on a given processor count, whether a read succeeds and, if it does, what it returns are the same for every interleaving of its workers.",
 ["schedules","inputs","configurations"],"every file content including damaged and arbitrary bytes x every pair of interleavings on the same processor count",
 "A test run observes one interleaving per input and never compares two.",
 ["a2l/module.go","a2l/token_generator.go","ihex32/hex.go","ihex32/record.go","srec19/hex.go","calib_data.go"],
 [("order-preserving collection, single-writer collectors","parseHex, buildTokenGeneratorFromString, collectChannelsMultithreaded")],
 ["outcome of repeated reads of one input under different schedules"])
p("C17","Raw bytes are converted to physical values as the standard defines",
 "For every data type, byte order, record layout and conversion method, the raw and physical value computed for a characteristic equals the value the standard defines.",
 ["inputs"],"every characteristic, record layout, conversion method and image content",
 "The code that would do this is not reachable from the exported API and not tested.",
 ["record_manager.go","compu_methods.go","calib_data.go","axis_pts.go","fnc_values.go"],
 [("byte conversion and conversion methods","record_manager.go, compu_methods.go")],
 ["none: not reachable from the exported API"])
p("C18","Every keyword's parameters land in the right field",
 "For every A2L keyword, each parameter written in the file is stored in the field the standard assigns to it.",
 ["inputs"],"every keyword and parameter value",
 "Unit tests cover about half of the keywords with one sample each.",
 ["a2l/*.go"],
 [("one parser function per keyword","a2l/*.go")],
 ["fields of the parsed structures"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
