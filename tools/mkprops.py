import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":mech}
    if state:a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SP="freesif/sequentialparser/"
D="freesif/data/"
p("C01","Conversion stores every supported record of the source exactly",
 "Converting any well-formed interface file (T/L model, R structural results, G hydrodynamic; formatted or unformatted) stores, in the group of its superelement, one row per source record of every supported type, in source order, with every field and every variable-length part equal to the source value at the stored precision, plus the list of record types read and the superelement's type, level and kind. The stored content does not depend on how the operating system delivers the bytes (short reads at any boundary, interrupted reads), on the internal buffering thresholds, on how many records of a type there are or whether they come in several runs, or on the clock.",
 ["inputs","fault_sequences","configurations"],
 "every well-formed source built from the supported record types, in both encodings and line endings, times every partition of the byte stream into reads and every buffer threshold",
 "The tests convert a handful of fixed files with whole-buffer reads and only check that nothing raises; no test crosses the 100000-record buffer boundary, repeats a record type in two runs, or compares stored values record by record.",
 [SP+"parsers.py",SP+"sequentialfiles.py",SP+"sif2hdf5.py"],
 ["per-record readers and descriptors","recdata/vldata buffering with tmp_arr_size and start/stop index bookkeeping","read_floats rest handling across continuation records","get_table/get_path group naming"],
 [{"name":"tmp_arr_size","meaning":"rows buffered before a table append"},{"name":"vldata.startindex","meaning":"running index into the variable-length array"}])
p("C02","Same model, same answers: encoding, medium and target do not matter",
 "The same model written as a formatted or as an unformatted file, converted to a new file on disk, appended to an existing one or read in memory, gives the same superelements, the same stored records and the same answers from every query, to the precision of the encoding. Reading in memory creates or changes no file on disk, at any point, whether it succeeds or fails, and models of the same file name in different directories do not mix.",
 ["inputs","configurations","histories","fault_sequences"],
 "every well-formed model times {formatted, unformatted} times {new file, append, in memory, open_sif} times the order in which these are done, with short reads",
 "Tests only ever have one encoding of each model and compare each medium with itself.",
 [SP+"sif2hdf5.py",SP+"sequentialfiles.py",D+"file.py"],
 ["format detection by first byte","the two reader classes with different continuation rules","H5FD_CORE driver without backing store","group naming from file name and prefix"])
p("C03","Conversions do not depend on what the process converted before",
 "The outcome of a conversion (stored data, or the error) is a function of its source files and arguments only: it is the same in a fresh process as after any sequence of earlier conversions of other models, successful, failed, interrupted or in memory.",
 ["histories","fault_sequences"],
 "every sequence of conversions (kinds, filters, failures at any record or I/O call, interrupts) before the conversion under test",
 "Each test converts once or twice in a fixed order after successful conversions; parser state is module-global and only a history that leaves stale state behind and then needs it can expose a leak.",
 [SP+"parsers.py",SP+"sif2hdf5.py"],
 ["reset() of module-level parser state between files","element type, result-point and complex-flag lookups kept between records"],
 [{"name":"module globals of the parser","meaning":"state carried from record to record and file to file"}])
p("C04","A failed conversion raises, leaks nothing, and can simply be retried",
 "If reading a source or opening the output fails at any moment of a conversion (missing or unreadable file, read error, malformed record, interrupt, allocation failure), the call raises; it never returns as if it had succeeded. It leaves no file of the conversion open, and repeating the same call in the same process once the cause is gone succeeds with the complete, correct result.",
 ["fault_sequences","histories"],
 "every position and kind of a fault (open, n-th read, short data, malformed record, exception or interrupt at an I/O call) in every kind of conversion (single, hierarchy, sequence, append, in memory), followed by a retry",
 "The tests have no failing conversion at all beyond closed-file errors.",
 [SP+"sif2hdf5.py",SP+"sequentialfiles.py",D+"file.py"],
 ["open and close of source files and of the output handle around parsing","PyTables registry of open files"])
p("C05","A truncated source is never converted as if it were complete",
 "If a source file ends at any byte before the end of its data, the conversion raises an error; it never returns normally with records missing, shortened, zero-filled or with altered values. A cut inside the end-of-data record or after it loses no data: whether such a file is refused or converted, what is stored is complete.",
 ["crash_points","inputs"],
 "every cut position of every well-formed source in both encodings, on the top-level and on lower-level files",
 "Tests contain only complete files; detecting truncation depends on which byte of which record the cut falls in.",
 [SP+"sequentialfiles.py",SP+"parsers.py"],
 ["end-of-file detection in the record readers","IEND handling","numeric parsing of a partial last line"])
p("C06","A conversion killed at any instant never leaves silently wrong data",
 "If the process dies at any instant of a conversion, opening the output afterwards either fails, or offers only superelements whose stored data are exactly those of a complete conversion; a partly written superelement is never offered as a readable one with missing or wrong content, nor the top level of a hierarchy without the superelements that belong to it.",
 ["crash_points","inputs"],
 "every prefix of the sequence of writes issued to the output file, with the last write whole or torn, for single files and hierarchies",
 "Tests never kill a conversion; the state left on disk at an arbitrary instant is unreachable from a unit test.",
 [SP+"parsers.py",SP+"sif2hdf5.py",D+"file.py"],
 ["superelement attributes are written after its records","opening requires those attributes"])
p("C07","A write failure on the output is never reported as success",
 "If any write, extension or close of the output file fails during a conversion (disk full, I/O error, short write, quota), the conversion either raises, or returns with the complete and correct data on disk. It never returns normally leaving missing or wrong data behind.",
 ["fault_sequences"],
 "every position, kind and duration of write, truncate and close failures on the output, for new, appended and hierarchical outputs",
 "Tests always write to a healthy disk; whether a failed flush at close is noticed depends on which cached block the failure hits.",
 [SP+"sif2hdf5.py",SP+"parsers.py"],
 ["flush and close of the output through PyTables, which ignores the status of both"])
p("C08","Appending never damages what the file already holds",
 "Converting into an existing file in append mode leaves every superelement already there readable with exactly the same data, whatever is appended, under whatever prefix, in whatever order, and also when the appended conversion fails part-way (error in the source, name collision, interrupt). A conversion without append replaces the file's content entirely.",
 ["histories","fault_sequences"],
 "every sequence of conversions into one file with append, prefixes and file-name prefixes, with failures of any appended conversion at any I/O call",
 "The tests append at most one healthy model and only look at the keys.",
 [SP+"sif2hdf5.py",SP+"parsers.py",D+"file.py"],
 ["append mode opening","group name prefixing","partially written groups after a failure"])
p("C09","Superelement hierarchies are assembled completely and correctly",
 "Converting the top-level file of a superelement hierarchy stores every superelement whose file is present (each model type once, each result repetition under its own index) below the top-level superelement, with its own records only and the right level, type and index. A lower-level file that is missing, also when it disappears while the conversion runs, never causes its superelement to appear or the others to change: it is either skipped or the conversion fails.",
 ["inputs","fault_sequences","configurations"],
 "every hierarchy shape (depth, repetition, mixed levels), file-name prefix, encoding, set of missing files, and file-system races between looking a file up and opening it",
 "One fixed hierarchy with all files present is tested, for keys only.",
 [SP+"sif2hdf5.py",SP+"parsers.py",D+"file.py"],
 ["candidate file names from HIERARCH records","per-file reset and current hierarchy record","group path composition"])
p("C10","Filtering and unsupported records never affect the records kept",
 "Converting with a list of wanted record types stores for those types (given the types they need) exactly what an unfiltered conversion stores, and nothing for the others. Records of types the library does not store, anywhere in the file, in both encodings, with or without continuation lines, are skipped without changing any stored record.",
 ["inputs","configurations","fault_sequences"],
 "every choice of wanted types closed under their documented dependencies, every placement of unsupported and text records, under short reads",
 "No test uses the filter, and unsupported records occur only where the sample files happen to have them.",
 [SP+"parsers.py",SP+"sequentialfiles.py"],
 ["parse_file with only","skip_restofrecord heuristics","at_headerrec and the list of allowed names"])
p("C11","Open files follow their life cycle whatever the order of operations",
 "After a file or one of its data objects is closed, directly or with all files, every operation on it and on its data objects raises the closed-file error and closing again does nothing; operations on other open files, also of the same path or data, are unaffected. Opening something that is not a readable result file, or failing to open it, raises and leaves nothing open, so that the path can be converted to or opened again.",
 ["histories","schedules","fault_sequences"],
 "every interleaving of opening, querying, closing and re-opening several files and in-memory models, with open and read failures",
 "The tests close one file once and check a fixed list of methods.",
 [D+"file.py",D+"sifdata.py"],
 ["registry of open files","cascade of close to data objects","constructor failure paths"],
 [{"name":"_open_files","meaning":"set of open File objects"}])
p("C12","Structural results are those of the source, for every selection",
 "Node results, beam forces and shell stresses returned for any run, result cases, sets, kind and connectivity choice are exactly the source values of those result cases, nodes and elements, in the documented order, shape and extrapolation, real or complex. A query during which a read fails raises and never returns wrong values, and later queries are unaffected by earlier ones, failed or not.",
 ["inputs","histories","fault_sequences"],
 "every results model (element types, several runs and cases, real and complex, sets) times every history of queries with arguments, with read faults between and inside queries",
 "Tests compare a few fixed queries on three models with one or two cases; they use no failing reads and no query histories.",
 [D+"strucdata.py",D+"sifdata.py",SP+"parsers.py"],
 ["result record lookup by result reference","per-element-type processing of result points","complex reinterpretation"])
p("C13","Geometry, numbering and connectivity of any selection agree",
 "For any sets, kind and connected or disconnected choice, node coordinates, node numbers, connectivity, offsets, element types, element numbers, section properties and shell thicknesses describe the same selection in the same order: every element of the selection is returned once, its connectivity points at the coordinates and numbers of exactly its own nodes, and set names and result case names are those of the source. This holds in any history of queries, and a failing read raises rather than yields a wrong selection.",
 ["inputs","histories","fault_sequences"],
 "every structural model with beams and shells, sets of elements in one or several parts, every selection argument, any query history with read faults",
 "Tests check four fixed selections on three sample models.",
 [D+"strucdata.py",D+"sifdata.py",D+"helpers.py"],
 ["set member lookup","element kind filter","connectivity renumbering for subsets"])
p("C14","Hydrodynamic queries return the source data, placed correctly",
 "For any hydrodynamic model the frequencies, periods, directions or time instants, sections, points, body properties, global constants, matrices, motion, force, section force, drift, pressure and fluid-kinematics transfer functions are the source values at the documented position (body, component, direction, frequency), with values asked for in the wrong domain, for an absent body or an absent record refused. This holds in any history of queries, and a failing read raises rather than yields wrong values.",
 ["inputs","histories","fault_sequences"],
 "every hydrodynamic model (one or several bodies, directions, frequencies, sections, points, panels, symmetry parts) times every history of queries with read faults",
 "Tests use one file with one body and no section, panel, time-domain or multi-body data.",
 [D+"hydrodata.py",D+"sifdata.py",D+"helpers.py"],
 ["reshape to (direction, frequency, component)","body to condition lookup","matrix type selection"])
p("C15","Coordinate transformations follow the superelement hierarchy",
 "The transformation of any superelement occurrence to any level, and node coordinates asked for at a level, at the top or with an explicit matrix, equal the composition of the transformations along the path of that occurrence in the hierarchy of the source; levels that do not exist or that the occurrence does not reach are refused with the hierarchy error. Coordinates without transformation stay those of the source, in any history of queries and read faults.",
 ["inputs","histories","fault_sequences"],
 "every hierarchy shape, occurrence index, level and explicit matrix, for model and result hierarchies",
 "One hierarchy is tested and no transformation is compared with an independent composition.",
 [D+"strucdata.py",D+"file.py"],
 ["walk up the hierarchy records","reference from lower-level data to the top level"])
p("C16","What a query returned belongs to the caller",
 "Modifying, in place or in any other way, anything a query returned, or an array passed to a query or to the writer afterwards, changes no later answer of any query and nothing stored; and a query or the writer never modifies the arrays the caller passed in.",
 ["histories"],
 "every history that interleaves queries with in-place modification of earlier answers and arguments",
 "Tests call each query once and discard the answer.",
 [D+"hydrodata.py",D+"strucdata.py","freesif/utils/writers.py"],
 ["cached arrays of the hydrodynamic data object","in-place element processing and reordering"])
p("C17","Threads converting and querying do not disturb each other",
 "When several threads convert sources to different outputs, query open files of their own or write VTU files of their own, each conversion stores, each query returns and each VTU file holds exactly what it would have alone, however the threads are interleaved, and all of them finish. A conversion that is refused or fails because of its source does not disturb the others.",
 ["schedules","histories"],
 "every interleaving, at the granularity of the library's source lines and bytecode instructions (calls into PyTables, HDF5 and numpy are taken as atomic), of up to four threads each converting, querying or writing its own files",
 "The tests are single-threaded.",
 [SP+"parsers.py",SP+"sif2hdf5.py",D+"file.py"],
 ["module-level parser state shared by all conversions","registry of open files"])
p("C18","The VTU writer always produces a valid document with the given data",
 "For any sequence of pieces, point data and cell data with any supported arrays, the closed file is well-formed XML of the documented structure whose decoded arrays equal those given, with the element connectivity and element-node results in the order the VTK element type requires. A call out of order or with unsupported data is refused without damaging what was or will be written, and the result does not depend on how the operating system splits the writes.",
 ["inputs","histories","fault_sequences"],
 "every call history of the writer, valid and invalid calls mixed, array types, layouts and byte orders, names with any characters, with short writes",
 "Tests compare the bytes of a few fixed outputs.",
 ["freesif/utils/writers.py"],
 ["element stack","base64 block with size header","connectivity reordering"])
p("C19","A write failure of the VTU writer is reported and releases the file",
 "If writing a VTU file fails at any moment (disk full, I/O error), a call up to and including close raises; a close that returned normally means the complete document is on disk. After a failure the file can be closed and the same path written again successfully.",
 ["fault_sequences"],
 "every position, kind and duration of write and close failures during every call history",
 "Tests write to a healthy disk only.",
 ["freesif/utils/writers.py"],
 ["buffered binary file","close"])
p("C20","Stress post-processing functions are correct and pure",
 "Principal stress, von Mises stress, signed absolute maximum and element-result index lookup return the mathematically correct value for every input array and modify nothing.",
 ["inputs"],
 "every array of stresses and every element/node pair",
 "Not tested at all; but a pure function of its arguments.",
 ["freesif/calc/principal.py","freesif/calc/vonmises.py","freesif/calc/general.py"],
 ["closed formulas"])
p("C21","VTF files written are read back unchanged",
 "A VTF model written to a file and read again has the same nodes, elements, results and scalars.",
 ["inputs","fault_sequences"],
 "every model accepted by the VTF writer",
 "Not tested at all.",
 ["freesif/utils/vtfdata.py"],
 ["text writer and reader of VTF blocks"])
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
    n=q["statement"].count(". ")+1
    assert n<=3,(q["id"],n)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(q)+'\n' for q in P))
