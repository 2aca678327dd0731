"""Writes properties.jsonl from the table below (kept here so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": ["pyconform/" + f for f in files],
                  "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                  "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                  "observe_at": observe, "hook_needed": None}})

prop("C01", "Written output equals an independent evaluation of its definition",
 "Whenever a set of input NetCDF files and an output specification are accepted and executed, every variable in every written file holds exactly the values obtained by evaluating its definition on the input data: elementwise arithmetic and functions aligned by dimension name, converted to the declared output units, laid out in the declared dimension order and cast to the declared type. A point of the output is missing exactly when some input point it is computed from is missing.",
 ["inputs", "configurations"], "all input datasets (dimension sizes, types, missing values, one or many files) and all output specifications accepted over them",
 "The data flow tests run one fixed dataset with one definition set and compare hardly any values; they do not reach combinations of slicing, transposition, unit conversion, masking and type casting in one definition.",
 ["dataflow.py", "flownodes.py", "functions.py", "physarray.py", "parsing.py", "datasets.py"],
 [("graph construction from parsed definitions", "pyconform/dataflow.py"), ("map, validate and write stages", "pyconform/flownodes.py")],
 ["contents of the written NetCDF files re-read with an independent reader"])

prop("C02", "Chunked execution writes the same output as unchunked execution",
 "For every accepted specification and every accepted choice of chunk sizes and chunk order over output dimensions (including sizes that do not divide the dimension, sizes of one and sizes larger than the dimension), the written files have the same variables, values and missing points as those written without chunking. Every element of every variable is written, and none is left at the fill value by accident.",
 ["configurations", "inputs"], "all chunk-size maps over the chunkable output dimensions, with inverted coordinates, character data, transposed and sliced inputs",
 "Existing tests run four chunkings of one dataset and only check that the files exist.",
 ["flownodes.py", "dataflow.py"],
 [("iteration over chunks, read-chunk inversion, once-per-chunk writing", "pyconform/flownodes.py"), ("chunk argument checks", "pyconform/dataflow.py")],
 ["contents of the written files for different chunkings of one data flow"])

prop("C03", "Parallel runs write each file exactly once, whatever the number of ranks",
 "When a data flow is executed on any number of cooperating processes, every output file is written by exactly one of them and the resulting set of files and their contents are the same as from a serial run. This holds for every timing of the processes, including more processes than files and files that share new output directories.",
 ["schedules", "configurations"], "all rank counts from one to more than the number of files, all interleavings of the ranks, all assignments of file sizes",
 "No test runs more than one rank.",
 ["dataflow.py", "flownodes.py", "cli/xconform.py"],
 [("partition of weighted files over ranks", "pyconform/dataflow.py"), ("directory creation that tolerates a concurrent creator", "pyconform/flownodes.py")],
 ["file create and rename events per process, final directory contents"])

prop("C04", "An output file appears under its name only when it is complete",
 "If a run is killed, raises an error or meets a failing file-system operation at any point, then every output path either does not exist, still holds what it held before the run, or holds a complete file with all its data; a partially written file is never visible under the output name. Running again after such a failure produces the complete output.",
 ["crash_points", "fault_sequences"], "a kill or an I/O error at every write, resize, rename, open and close of the run, and an exception from any evaluation step",
 "No test injects a fault.",
 ["flownodes.py"],
 [("writing to a temporary name and renaming after close", "pyconform/flownodes.py")],
 ["directory listing and file contents after the fault"])

prop("C05", "Evaluating and executing never changes input data or stored operands",
 "Arithmetic, comparison of directions, unit conversion, transposition, reductions and every built-in function leave the values, mask, units, name and dimensions of their operands unchanged, and asking any node of a data flow again for the same index gives the same result as the first time. Running a conversion leaves every input file byte for byte unchanged.",
 ["histories", "inputs"], "all sequences of evaluations over shared operands and nodes",
 "Unit tests evaluate each expression once and never look at the operands afterwards.",
 ["physarray.py", "functions.py", "flownodes.py"],
 [("binary operators that align, convert and flip the second operand", "pyconform/physarray.py"), ("functions that relabel or modify an array view", "pyconform/functions.py")],
 ["byte comparison of operands and input files before and after each evaluation"])

prop("C06", "Arithmetic and conversion are consistent with physical units",
 "The result of any arithmetic on quantities, converted to a common unit, does not depend on the units in which the operands were expressed: adding and subtracting quantities in different but compatible units, multiplying, dividing and raising to powers all give the same physical quantity, and the resulting unit is the algebraic one. Converting to a compatible unit and back restores the values, the direction and the missing points; operations between incompatible units, and exponents that carry units or dimensions, are rejected with an error and produce nothing.",
 ["inputs", "programs"], "all operand values, all pairs of convertible and non-convertible units (including offsets, multiples, calendars), all operator sequences",
 "Tests use one or two unit pairs per operator; the law is over all expressions and unit systems.",
 ["physarray.py"],
 [("convert, addition and multiplication alignment, exponent check", "pyconform/physarray.py")],
 ["values, units and mask of results; type of error raised"])

prop("C07", "The positive direction (up or down) always matches the sign of the data",
 "For every quantity that carries a positive direction, any chain of operations (setting up or down, flipping, unit conversion, slicing, transposition, averaging, arithmetic with operands of the same, opposite or no direction) keeps the pair of direction and sign physically consistent: turning the direction over negates the values exactly once, and operands of opposite direction are brought to the direction of the first operand before they are combined. Output declared with a positive direction opposite to the data's is written with its sign changed, also when the units are converted in the same step. A blank declared direction, as the MIP tables have it, leaves the data alone, and capitals do not matter.",
 ["inputs", "programs"], "all operation sequences over operands with every combination of directions, units and masks",
 "Tests flip single arrays in isolation; interaction with conversion, shared operands and chains is not covered.",
 ["physarray.py", "flownodes.py", "functions.py"],
 [("flip, up, down and direction matching", "pyconform/physarray.py"), ("direction check on output", "pyconform/flownodes.py")],
 ["direction and values of results against a signed reference model"])

prop("C08", "Arrays combine by dimension name, never by axis position",
 "Combining arrays aligns them by the names of their dimensions: the result has the first operand's dimensions followed by the second's remaining ones, every result element is the combination of the elements with the same named coordinates, and a point is missing exactly when one of them is missing there. Equal names with different sizes are rejected, transposition only permutes axes together with their names, assignment through an index aligns by name too, and updating in place never enlarges the target.",
 ["inputs"], "all shapes, dimension-name sets and orders (shared, disjoint, permuted, scalar), masks",
 "Tests cover a few two-dimensional pairs; alignment errors appear for permuted, higher-rank or partially shared dimensions.",
 ["physarray.py"],
 [("broadcast, transpose, item assignment, in-place checks", "pyconform/physarray.py")],
 ["result elements addressed by named coordinates"])

prop("C09", "Reductions over named dimensions are exact for every subset of dimensions",
 "The mean, sum, minimum and maximum over any set of named dimensions equal the reduction over exactly those dimensions of all non-missing elements, independent of the order in which the dimensions are named and of their position in the array; the remaining dimensions keep their names and order, and units and positive direction are kept. A result element is missing exactly when all the elements it is computed from are missing.",
 ["inputs"], "all shapes, ranks, masks, dimension subsets and orders",
 "Tests reduce over single dimensions of unmasked arrays.",
 ["physarray.py", "functions.py"],
 [("mean and sum of quantities", "pyconform/physarray.py"), ("mean, sum, min, max functions", "pyconform/functions.py")],
 ["reduced values, masks, dimensions against a brute-force reduction"])

prop("C10", "Subsetting composes: reading a subset of a subset is exact",
 "Applying one index to an array and a second index to the result selects exactly the elements that the single combined index selects from the original, for every combination of integers, slices with any start, stop and step, and named-dimension indices; indices by dimension name mean the same as positional ones. Reading a subset of a variable from a file gives the same data and dimensions as reading everything and then taking the subset.",
 ["inputs"], "all shapes and all pairs of indices, positive and negative, in and out of range, empty results included",
 "Index tests enumerate a few slices; off-by-one errors need particular sign, step and length combinations.",
 ["indexing.py", "flownodes.py", "physarray.py"],
 [("index normalisation, alignment and joining", "pyconform/indexing.py"), ("file reading node", "pyconform/flownodes.py")],
 ["selected elements and resulting shape"])

prop("C11", "Definition strings are parsed by the documented grammar and precedence",
 "Every well-formed definition string is parsed to the expression that conventional precedence and left associativity give it (power binds before sign, sign before multiplication and division, those before addition, then comparison), with constants folded to their exact value, argument order, keywords, strings and index slices preserved. Malformed strings are rejected with an error, and no parse depends on what was parsed before.",
 ["inputs", "histories"], "all strings of the grammar to a bounded depth, and mutated or truncated strings, in any order",
 "Parser tests list some dozens of literal strings and never a malformed one at the end of input.",
 ["parsing.py"],
 [("lexer, grammar rules, precedence table", "pyconform/parsing.py")],
 ["parsed tree evaluated against a reference evaluation, errors raised"])

prop("C12", "A slice of a node's result is the same slice of its full result",
 "For every node of a data flow whose function is not declared to sum over a dimension, requesting an index gives exactly the same data, missing points, units, dimensions and direction as requesting everything and then taking that index, whether the index is given by dimension name (on any node) or by position (on nodes that read, hold or combine data). The dimensions, units and direction announced without reading data are those that the data then has.",
 ["inputs", "programs"], "all node types, all definitions composed of them and all slice indices",
 "Node tests request one or two slices of each node type in isolation.",
 ["flownodes.py", "functions.py", "indexing.py"],
 [("item access of data, read, evaluation, map and validation nodes", "pyconform/flownodes.py")],
 ["results of requests to nodes"])

prop("C13", "Validation masks exactly the out-of-range data and reports every breach",
 "When an output variable declares a valid range, exactly the points strictly below the minimum or strictly above the maximum become missing and a warning naming the variable is issued for each bound that is broken and only then; values within the range, bounds equal to zero included, pass unchanged (bounds are numbers, or text of a number as in the MIP tables). Warnings about the mean absolute value are issued exactly when it is outside the declared range, and data of another kind than the declared type (real data declared integer, numbers declared text and the reverse) is rejected rather than written.",
 ["inputs", "configurations"], "all data, all bounds (negative, zero, positive, equal to data values), all type pairs",
 "Tests use one non-zero bound each; a bound of zero and data equal to a bound are never tried.",
 ["flownodes.py"],
 [("validation of range, mean and type", "pyconform/flownodes.py")],
 ["validated data and warnings issued"])

prop("C14", "Coordinates are written in the declared direction together with their data",
 "When an output coordinate (the one coordinate variable of a dimension, with an axis attribute) declares an increasing or decreasing direction, the coordinate is written monotone in that direction, and every variable of the file that uses that dimension is reordered with it, so that each value stays attached to the coordinate value it had in the input; coordinates already in the right direction change nothing. A declared direction that is unknown, or a coordinate that is not monotone, is rejected.",
 ["inputs", "configurations"], "all sets of coordinates and data variables, any subset inverted, any chunking",
 "One test inverts one dimension of one file without chunking.",
 ["flownodes.py"],
 [("detection of direction and reversal of read chunks", "pyconform/flownodes.py")],
 ["coordinate and data values in the written file"])

prop("C15", "Input files are described faithfully and contradictory ones rejected",
 "The description built from any set of NetCDF files lists exactly the dimensions that variables use (with size and unlimited flag), variables (with type, dimensions in order, attributes and the files that hold them) and global attributes found in the headers. Files or descriptors that disagree about the size of a dimension or about the type or dimensions of a variable of the same name are rejected instead of one silently replacing the other.",
 ["inputs", "configurations"], "all sets of files and descriptors, consistent and contradictory",
 "Tests describe one consistent dataset.",
 ["datasets.py"],
 [("uniqueness of dimension, variable and file descriptors", "pyconform/datasets.py")],
 ["descriptor contents against headers read independently"])

prop("C16", "Each output file gets exactly the declared and required variables",
 "From an accepted output specification, every output file holds the variables that declare it plus the requested meta variables, the coordinate and bounds variables they refer to and the file-less variables (with dimensions) whose dimensions the file already has, and nothing else, where references to coordinates and bounds are followed from variable to variable; a file is owned by one specification only. A variable without a definition, or whose definition needs an input that is absent, is reported with a warning and left out together with the files that need it, without affecting any other file; malformed specifications (references to variables that are not defined, missing dimensions, unknown type or format, compression level out of range) are rejected.",
 ["configurations"], "all output specifications, valid and malformed, all subsets of missing inputs",
 "Tests use one specification dictionary; the skipping rules interact with the inclusion rules in ways no test exercises.",
 ["datasets.py", "dataflow.py"],
 [("construction of the output description", "pyconform/datasets.py"), ("skipping of undefined variables and files", "pyconform/dataflow.py")],
 ["variables per written file, warnings and errors"])

prop("C17", "Written headers carry exactly the declared metadata",
 "Every written file has the declared global attributes plus a creation date, the declared format, and for each variable the declared type, dimension names, order, sizes and unlimited flags, and exactly the declared attributes (units and calendar inherited from the data where left open) except the ones reserved for control; the fill value and compression level are those declared or overridden. The provenance attribute is present exactly when history is requested, and helper variables whose name starts with an underscore are never written.",
 ["configurations", "inputs"], "all types, formats, attribute sets, deflate levels and overrides, history on and off",
 "Tests write three files with one attribute set and compare few header fields.",
 ["flownodes.py", "datasets.py"],
 [("header writing", "pyconform/flownodes.py")],
 ["header of written files read independently"])

prop("C18", "Date ranges in file names are those of the data written",
 "Where an output file name holds a date-range template, the written file's name carries the first and the last time of the data in the file, formatted as requested, in the time units and calendar of the output time variable; with several templates all are filled. A template that cannot be filled because no time variable can be identified leaves the name as it is and gives a warning, and a file name without a template is used unchanged.",
 ["inputs", "configurations"], "all calendars, reference dates, time units, time lengths and formats",
 "Tests use one calendar and one reference date.",
 ["flownodes.py"],
 [("filename parsing", "pyconform/flownodes.py")],
 ["name of the written file against dates computed independently"])

prop("C19", "Unsafe chunk requests are rejected before anything is written",
 "A request to chunk over a dimension that the definition of some written variable sums or averages over, at any depth of the definition and under any output name of that dimension, over an unknown output dimension, or with a size that is not a positive integer is rejected with an error, and no output file, directory or temporary file has been created at that point. Requests over all other output dimensions are accepted.",
 ["configurations", "programs"], "all definitions with summing functions nested anywhere, all chunk requests, all dimension renamings",
 "One test checks one summed dimension at top level.",
 ["dataflow.py", "functions.py", "flownodes.py"],
 [("collection of sum-like dimensions through the graph and mapping to output names", "pyconform/dataflow.py")],
 ["errors raised and directory contents after a rejected request"])

prop("C20", "Input dimensions map one-to-one onto output dimensions, consistently",
 "For every accepted specification the inferred map from input to output dimension names is one-to-one, covers the dimensions of every defined output variable, respects the positions declared by single-dimension variables, and gives every output dimension whose size is not fixed by data given in the specification the size and unlimited flag of its input dimension. A specification whose variables cannot be mapped consistently (different number of dimensions, one input dimension under two output names or the reverse) is rejected when the data flow is built, data that do not fit the size given for a dimension end in an error and not in a file, and the result does not depend on the order in which variables are listed.",
 ["configurations"], "all sets of output variables over renamed and reordered dimensions, in every listing order",
 "One test checks one mapping.",
 ["dataflow.py"],
 [("inference of the dimension map", "pyconform/dataflow.py")],
 ["published dimension map, dimension sizes, errors"])

prop("C21", "Text data keeps every character",
 "Text variables, given literally in the specification or read from input files, arrive in the output with the same characters at the same positions, padded with empty characters up to the declared string length, for any length, number of dimensions and chunking. Text cannot silently take part in unit conversion, inversion or transposition of its character dimension: these are rejected.",
 ["inputs"], "all text arrays of rank zero to three, lengths from one up, shorter or longer declared lengths",
 "Tests construct a few constant strings.",
 ["physarray.py", "flownodes.py", "dataflow.py"],
 [("character arrays and stretching", "pyconform/physarray.py"), ("writing of character data", "pyconform/flownodes.py")],
 ["characters in the written file"])

prop("C22", "Time coordinates keep their instants through units and calendars",
 "A time variable whose output declares another unit or reference date of the same calendar is converted so that every value denotes the same instant; where the output leaves the unit, reference date or calendar open it is taken from the input, and the attribute written says what the values mean. Conversion between different calendars is refused rather than producing shifted times, and relabelling functions change the label and nothing else.",
 ["inputs", "configurations"], "all calendars, units, reference dates and partially declared output units",
 "Tests convert one or two time arrays.",
 ["flownodes.py", "functions.py", "datasets.py", "physarray.py"],
 [("inheritance of time units in validation", "pyconform/flownodes.py"), ("unit relabelling function", "pyconform/functions.py")],
 ["written values and attributes decoded to dates independently"])

prop("C23", "Time-series files are put in date order and gaps are found",
 "Given any set of time-series files of at least three evenly dated steps each, in any order, units, reference dates and calendar, the date mapping returns each of them exactly once in the order of their times with the number of time steps of each, and reports an error whenever, and only when, steps are missing, repeated or overlapping for their frequency, within a file or between files. The files themselves are not changed by the inspection and not kept open.",
 ["inputs", "configurations"], "all frequencies, calendars, file splits, permutations, removed or repeated files",
 "Existing tests run fixed sequences for five frequencies, always given in sorted order.",
 ["mapdates.py", "climIO.py"],
 [("ordering and continuity tests", "pyconform/mapdates.py")],
 ["returned lists and error flags against a reference computed from the generated dates"])

prop("C24", "Calculus kernels are exact on their class and independent of axis",
 "The numerical kernels for derivative, integral and spline interpolation are linear in the data, give the exact answer for polynomials up to the order they are built for on any strictly monotone, non-uniform grid, and give the same answer whatever axis of an array they are applied along. Results change only in value, never in shape or order, when the other axes are permuted.",
 ["inputs"], "all strictly monotone grids, polynomial data, array ranks and axes",
 "Tests compare one function on one grid.",
 ["modules/idl.py"],
 [("three-point derivative, spline, tabulated integration", "pyconform/modules/idl.py")],
 ["returned arrays against closed forms"])

prop("C25", "Circulation diagnostics obey their defining equations for all fields",
 "The residual-circulation and wave-flux diagnostics agree with their defining formulas of the transformed Eulerian mean evaluated independently, are zero for fields without eddies where the formula says so, scale with their inputs as the formulas do, and treat every time step independently. The functions built on them return the same numbers in the units of the formulas with the dimensions of their inputs, missing exactly where a missing value enters, whether or not the conversion is cut into pieces, and do not alter their inputs.",
 ["inputs"], "all zonal-mean fields, pressure and latitude grids, time lengths",
 "Tests compare against stored formulas for one synthetic field.",
 ["modules/dynvarmipdiags.py", "modules/dynvarmipfunctions.py"],
 [("diagnostic formulas", "pyconform/modules/dynvarmipdiags.py"), ("function wrappers", "pyconform/modules/dynvarmipfunctions.py")],
 ["returned arrays against an independent evaluation"])

prop("C26", "Computed cell bounds tile the axis without gaps or overlaps",
 "Bounds computed for a coordinate of two or more points enclose or meet each value as the location says (0: the value is the first edge of its cell, 1: edges lie half way to the neighbouring values, 2: the value is the last edge), the last edge of each cell is the first edge of the next, and the outer edges repeat the spacing next to them or, without end points, equal the outer values. Given interface values are used as the edges, with missing outer ones extrapolated as the location says, and interface data of any other length are refused. The same holds for falling, integer and non-uniform coordinates, whether the coordinate is written whole, in pieces or in the other direction.",
 ["inputs", "configurations"], "all strictly monotone coordinates, locations, end-point choices, interface data, pieces and directions",
 "No test covers the bounds functions.",
 ["modules/commonfunctions.py"],
 [("bounds and month functions", "pyconform/modules/commonfunctions.py")],
 ["returned bounds"])

prop("C27", "User-level averaging and selection functions match their formulas",
 "The supplied averaging, layer-summing, vertical, region-selecting and climatology functions return the values their definitions give (weighted sums, averages over the named region, hemisphere, month or dimension, bottom-most layer, climatological and yearly means with their times and bounds) for every shape, mask, fill value and size of input, with the dimensions and units they announce and with missing points exactly where a value they need is missing (the means over the ocean are over the points present). They do not alter their inputs, and give the same values in pieces along every dimension they do not refuse to be divided along.",
 ["inputs"], "all array sizes, masks, region and month counts accepted by the functions",
 "Only a handful of the functions have any test.",
 ["modules/commonfunctions.py", "modules/atm_funcs.py"],
 [("function classes", "pyconform/modules/commonfunctions.py")],
 ["returned arrays against brute-force loops"])

prop("C28", "Subgrid land data are averaged onto the grid with their area weights",
 "Regridding of vegetation- and landunit-level data to gridded land-use types gives, in every grid cell and type, the weight-averaged value of exactly the active subgrid units with a share of the cell that lie in that cell and belong to that type, and is missing where there are none, their weights are zero or one of their values is missing (vegetation also where the cell has no natural vegetation land unit). Constant fields are reproduced, the result does not depend on the order of the subgrid units or on writing in pieces, it has the dimensions and units announced, and the inputs are unchanged.",
 ["inputs"], "all grids, subgrid distributions, weights, masks, type assignments and permutations",
 "No test covers these functions.",
 ["modules/CLM_pft_to_CMIP6_vegtype.py", "modules/CLM_landunit_to_CMIP6_Lut.py"],
 [("weighted accumulation per cell and type", "pyconform/modules/CLM_landunit_to_CMIP6_Lut.py")],
 ["returned arrays against brute-force loops"])

prop("C29", "The command line does what the programming interface does",
 "Running the conversion command with any combination of its options produces the same files with the same contents as calling the programming interface with the corresponding arguments; chunk, compression, history, error and module options have the effect documented. With no input files it validates the specification and writes nothing; a missing or invalid specification file or a malformed option ends in an error, in parallel runs as in serial ones (no rank is left waiting).",
 ["configurations", "inputs"], "all option combinations, file globs and user modules",
 "No test runs the conversion command.",
 ["cli/xconform.py"],
 [("argument parsing and pipeline", "pyconform/cli/xconform.py")],
 ["files written by the command and by the interface"])

prop("C30", "Listed dependencies are exactly the input variables a definition reads",
 "For any specification, the dependency tool reports for each requested variable, and for all of them together, exactly the set of variable names that its definition reads at any depth, each once, without function names, keywords, strings or (unless it reads a variable of that name) the output's own name, and needs no input data to do so. Definitions without variables, definitions that cannot be parsed and unknown variables are reported as such.",
 ["inputs", "configurations"], "all definitions of the grammar and all variable selections",
 "No test covers the tool.",
 ["cli/vardeps.py", "parsing.py"],
 [("walk over the parsed definition", "pyconform/cli/vardeps.py")],
 ["printed dependency list"])

prop("C31", "Generated specifications reproduce the request tables and definitions",
 "Given CMOR request tables (JSON), a definitions file and files of global attributes, the specification generator writes, for every variable of a table (or of those the user lists) that the table's section of the definitions names, an entry with that definition, the table's non-empty attributes, type and dimensions (slowest varying first), and a file section whose CMIP path, format, compression and global attributes are the user's, blank ones being filled from the table and the variable. Entries are grouped in one specification per activity, table and realm, each with the axes its variables use, defined by the coordinates section of the realm or else by the values the table requests. Variables of a table without a definition, and axes without one, are reported. A complete specification is accepted by the converter and produces exactly the files it names.",
 ["inputs", "configurations"], "all well-formed request tables, definition files and global-attribute files",
 "Tests look at single helper functions.",
 ["cli/iconform.py", "miptableparser.py"],
 [("table parsing", "pyconform/miptableparser.py"), ("specification writing", "pyconform/cli/iconform.py")],
 ["generated specification files"])

prop("C32", "Files made through the climate I/O facade hold what was written to them",
 "For any template file and any sequence of calls of the facade (netCDF4 port), a file that it creates has the format and compression asked for, the template's dimensions (time unlimited, the others of the same length) and global attributes (its history kept below a line), the listed template variables with their types, dimensions, attributes, fill value and data, and the template variable's type, dimensions and attributes under the new name; every record holds, in the variable's own precision, the last values written to it, and no other record changes. Slices and variable descriptions read back agree with what was written, the template is neither changed nor left open, and the file of a variable is looked for in the directory, then by the name itself, then by the pattern.",
 ["inputs", "histories"], "all template files and sequences of facade calls",
 "The tests write single variables of one template and hardly read them back.",
 ["climIO.py"],
 [("facade calls", "pyconform/climIO.py")],
 ["files written through the facade", "open descriptors"])

prop("C33", "Pressure-level interpolation passes the library consistent arguments",
 "For every hybrid coordinate, field of three or four dimensions (any names), surface and reference pressure and list of output levels, in whatever units of pressure they are given, the interpolation function of pnglfunctions hands the library the field, coefficients, levels and reference pressure in mbar, surface pressure in Pa and the options asked for, and returns the field on the output levels in place of the input levels, with the field's units and direction; points that the library cannot interpolate are missing, in the written files also after a conversion of units and with any fill value. Asking for pieces of time, latitude or longitude gives the same pieces; pieces of levels are refused, and so are arguments whose dimensions do not fit together.",
 ["inputs", "configurations"], "all fields without missing points, levels, units and options",
 "No test imports the module, because the library is not a dependency of the tests.",
 ["modules/pnglfunctions.py", "functions.py"],
 [("argument checks, units and the call of the library", "pyconform/modules/pnglfunctions.py")],
 ["calls of the library", "returned arrays and written files"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
