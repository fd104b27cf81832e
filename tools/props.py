"""Writes properties.jsonl and MANIFEST.json.  python tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = ("contract-based deductive verification: contracts over the unmodified "
        "/repo functions, executed symbolically (all axis sizes and values), "
        "obligations discharged by ring normal form + z3; counterexamples "
        "replayed on the real code")


def prop(id, title, statement, over, text, why, files, mech, level="proof",
         note=None, tech=TECH):
    assert len(title) <= 80, title
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[
            dict(name=a, where=b) for a, b in mech])), level, note, tech))


AO = "hftools/dataset/arrayobj.py"
DIM = "hftools/dataset/dim.py"
DS = "hftools/dataset/dataset.py"
I = ["inputs"]

prop("C01", "A labelled array always carries one label set per axis",
     "Building a labelled array from plain data, another labelled array or a "
     "dimension keeps every value and yields exactly one dimension per axis; "
     "a different number of dimensions is rejected with the library's "
     "mismatch error, and without dimensions one- and two-axis data get the "
     "default frequency/repetition axes labelled 0,1,2,... while more axes "
     "are rejected. Unit, output format and dimensions are inherited from a "
     "labelled source unless given explicitly. Copies never share data with "
     "their source, views and copy=False always do.",
     I, "all values, all axis lengths, ranks 0-4, dtypes, sources",
     "tests construct a few small fixed arrays; the guarantee is for every "
     "shape, value and source kind",
     [AO, DIM], [("construction", "arrayobj._hfarray.__new__"),
                 ("metadata propagation",
                  "arrayobj._hfarray.__array_finalize__"),
                 ("rank check", "arrayobj._hfarray.verify_dimension")])

prop("C02", "Arithmetic aligns operands by dimension, not by position",
     "For + - * / (and & | ^ ==) between two labelled arrays the result has "
     "the union of the operands' dimensions, ordered sweeps, repetitions, "
     "matrix rows, matrix columns with ties in order of first appearance, "
     "and each result element is the operator applied to the two operand "
     "elements with the same coordinates, whatever order the operands store "
     "their axes in. With a plain number on either side, and for negation, "
     "absolute value and powers, dimensions are kept and the operator is "
     "applied elementwise. Operands are never modified.",
     I, "all values, all axis lengths, all dimension subsets and orders up to "
     "rank 4",
     "tests use a handful of fixed shapes, mostly with one operand order",
     [AO], [("alignment", "arrayobj.check_instance"),
            ("dimension union", "arrayobj.dims_union"),
            ("axis permutation and broadcast", "arrayobj.change_shape")])

prop("C03", "Indexing keeps values, dimensions and labels consistent",
     "Selecting with integers (also negative), slices (any start/stop, step, "
     "reversed), one Ellipsis, in any combination, with a list or array of "
     "positions along an axis, or with a boolean labelled "
     "array returns exactly the selected elements; axes indexed by an integer "
     "disappear and every remaining axis keeps its class, name and unit and "
     "carries exactly the labels of the selected positions. Unit and output "
     "format survive, and a basic selection is a view: writing through it "
     "writes the source. A boolean mask over several axes collects them into "
     "one anonymous axis in row-major order.",
     I, "all values, axis lengths, bounds, masks; ranks 1-4",
     "tests index a few 3-5 element arrays with literal bounds",
     [AO, DIM], [("array indexing", "arrayobj._hfarray.__getitem__"),
                 ("label slicing", "dim.DimBase.__getitem__")])

prop("C04", "Rearranging axes moves labels together with the data",
     "Transposing, reordering by dimension, matrix transposition, squeezing, "
     "adding or replacing a dimension, bringing an array to a given dimension "
     "list, gathering along an axis, and collapsing repetition or trailing "
     "axes (row-major) each keep every element at the coordinates its "
     "dimensions say: the result's axis order, names, classes, labels and "
     "lengths correspond to the moved data. Matrix transposition swaps rows "
     "and columns and their labels in place; squeezing removes exactly the "
     "length-one (or named) axes; adding a dimension repeats the data along "
     "it. The unit is kept and the source array left as it was.",
     I, "all values, axis lengths, permutations; ranks 0-5",
     "tests use few fixed shapes, often with equal lengths that hide swaps",
     [AO], [("transpose", "arrayobj._hfarray.transpose"),
            ("reorder", "arrayobj._hfarray.reorder_dimensions"),
            ("squeeze", "arrayobj._hfarray.squeeze"),
            ("add_dim", "arrayobj._hfarray.add_dim"),
            ("collapse", "arrayobj.remove_rep, remove_tail")])

prop("C05", "Reductions act on the axis that is named and keep the others",
     "sum, mean, min, max, std, var and rss over an axis given by position "
     "(also negative), name, dimension, dimension class (all its axes) or a "
     "list of these equal the mathematical reduction over exactly those axes for every "
     "remaining coordinate, with the given ddof; remaining axes keep order, "
     "class, name and labels, and keepdims keeps the reduced axes with "
     "length one. cumsum and cumprod return running sums and products along "
     "the chosen axis with unchanged dimensions and refuse to run without an "
     "axis. A name or dimension that is not present raises an index error (or returns "
     "the array unchanged when dimension errors are disabled).",
     I, "all values, axis lengths, axis designations; ranks 1-4",
     "tests reduce a few literal arrays over one designation each",
     [AO], [("axis lookup", "arrayobj.multiple_axis_handler, axis_handler"),
            ("reductions", "arrayobj._hfarray.sum/mean/std/var/min/max/rss"),
            ("cumulative", "arrayobj._hfarray.cumsum/cumprod")])

prop("C06", "Dimension objects are immutable values with consistent identity",
     "A dimension stores its labels (an integer n gives 0..n-1, nested "
     "sequences are flattened in order), name, unit and output format; "
     "copy-constructing takes everything over except what is given "
     "explicitly, slicing keeps all but the selected labels, and nothing a "
     "caller does to arrays passed in or out changes it. Two dimensions are "
     "equal exactly when class, name, labels and unit agree, equal "
     "dimensions hash alike, and lookups in a dimension list match by name "
     "and class. Derived independent/derivative axes and diagonal expansion "
     "keep name, labels and unit, put the data on the diagonal and zero "
     "elsewhere; the full complex form of z is [[re,-im],[im,re]].",
     I, "all labels, lengths, classes",
     "tests compare a few literal dimensions",
     [DIM, AO], [("construction", "dim.DimBase.__init__"),
                 ("identity", "dim.DimBase.__eq__, __hash__"),
                 ("lookup", "arrayobj.Dims"),
                 ("diagonals", "arrayobj.expand_diagonals")],
     note="equality by value and sort order are bounded (seeded inputs), the "
          "rest is proved for all labels and lengths")

prop("C07", "A DataDict is a dictionary with a faithful key order",
     "After any sequence of setting (as item or attribute), setdefault, "
     "update, deleting, popping, clearing and renaming, keys, values, items "
     "and iteration of a DataDict list exactly the stored keys, each once, "
     "in order of first insertion: replacing a value keeps the key's place "
     "and removing a key leaves the others in order. A renamed value takes "
     "the place of its old name (or of the existing key it overwrites), "
     "renaming a missing key raises a key error and changes nothing. Copies "
     "and views list the same keys in the same order, hold copies and views "
     "of the values, and later changes of their keys do not affect the "
     "source.",
     ["histories", "inputs"], "every operation from every state with up to "
     "4 keys (one-step induction over an arbitrary state), and random "
     "histories of 12-40 operations",
     "tests run a few literal sequences; the order must be right after every "
     "history",
     [DS], [("storage and order", "dataset.DataDict"),
            ("rename", "dataset.DataDict.rename"),
            ("copies", "dataset.DataDict.copy, view")],
     note="one step from an arbitrary state is decided for dictionaries of up "
          "to 4 keys with arbitrary values; longer histories are bounded "
          "(seeded)")

prop("C08", "The variables and axes of a data block always fit together",
     "As long as variables that share an axis name share the axis, every "
     "axis of every variable in a DataBlock is registered as independent "
     "variable with the same labels, class, name and unit and readable as a "
     "variable; item and attribute access read and write the same variables, "
     "kept in order of definition. Replacing or renaming a dimension, "
     "relabelling an axis by assignment, renaming a variable, setting output "
     "formats and guessing missing units change exactly that in every "
     "variable that uses it, keeping all values and orders, and names such "
     "as S21 read and write exactly that element of the matrix variable S. "
     "Copies are independent of the source and views share its data, both "
     "with the same variables, order, block name, comments and x-axis.",
     I, "all values, axis lengths, and the listed combinations of up to three "
     "variables over up to three axes",
     "tests build a few literal blocks",
     [DS], [("variables", "dataset.DataBlock.__setitem__, __getitem__"),
            ("dimension replacement", "dataset.DataBlock.replace_dim"),
            ("rename", "dataset.DataBlock.rename"),
            ("copies", "dataset.DataBlock.copy, view")])

prop("C09", "Selecting and reshaping a data block treats all variables alike",
     "Filtering a block by a mask or by values of an axis, sorting it by an "
     "axis or a variable, squeezing, merging repetition axes, selecting or "
     "linearly interpolating at new x-values, turning columns into "
     "dimensions (hyper), splitting matrices into elements and splitting a "
     "block into dimension-consistent blocks apply the same row selection, "
     "permutation or reshaping to every variable that has the axis and to "
     "the axis labels, leave all other variables and their axes as they are, and "
     "do not modify the source block. Each value of the result is the value "
     "(or the straight-line interpolation) the source has at the same "
     "coordinates, with its unit; points outside the range are refused.",
     I, "all values, axis lengths and masks (filter, sort, squeeze, "
     "remove_rep); seeded sizes and labels for hyper, interpolation and "
     "selection by value",
     "tests use few literal blocks with one variable",
     [DS], [("filter", "dataset.DataBlock.filter"),
            ("sort", "dataset.DataBlock.sort"),
            ("hyper", "dataset.DataBlock.hyper"),
            ("interpolation", "dataset.DataBlock.interpolate")],
     note="hyper, interpolation and selection by value are bounded (seeded "
          "inputs, axes up to 6), the rest proved for all values and lengths")

MAT = "hftools/math.py"
MPO = "hftools/networks/multiports.py"
SPF = "hftools/networks/spar_functions.py"
NOI = "hftools/networks/noise.py"

prop("C10", "Matrix algebra acts on the matrix axes of aligned arrays",
     "Matrix product, inverse, determinant, linear solve, least squares and "
     "assembling 2x2 matrices from elements act on the row/column axes "
     "separately for every combination of outer coordinates: the result at "
     "each coordinate is the mathematical result of the operands' matrices "
     "at that coordinate, operands with different outer dimensions being "
     "aligned by dimension. Results carry the union of the outer dimensions "
     "and rows before columns, labelled for their sizes; operands are "
     "not modified.",
     I, "all values, outer axis lengths, outer dimension sets and orders; "
     "matrix sizes 1-3 (larger ones bounded)",
     "tests multiply a few literal matrices with equal outer dimensions",
     [MAT], [("product", "math.matrix_multiply"),
             ("inverse/determinant", "math.inv, math.det"),
             ("solve", "math.solve_Ab, math.lstsq"),
             ("assembly", "math.make_matrix")],
     note="least squares is bounded (seeded inputs), the rest proved")

prop("C11", "Elementwise and sweep mathematics follows its definition",
     "For every labelled array: angle(z) points in the direction of z and "
     "lies within one turn of the branch cut, dB and dBinv are 20 log10|x| "
     "and its inverse, (magnitude, angle), (dB, angle) and (re, im) give the "
     "complex number they describe, chop zeroes exactly the elements below "
     "the threshold, unwrapped phase equals the phase modulo one turn with "
     "no step over half a turn, group delay is -dphi/domega at the interval "
     "middles, linear interpolation of a vector lies on the line through the neighbours, "
     "interpolate refuses points outside the range, and smooth is the mean "
     "over a window that shrinks at the ends, along any axis. Dimensions are kept and "
     "arguments are not modified.",
     I, "all values and axis lengths, axes of every class in every position; "
     "smoothing axis up to 6 points; angle intervals on seeded inputs",
     "tests evaluate a few literal numbers",
     [MAT], [("angles", "math.angle, unwrap_phase, delay"),
             ("dB", "math.dB, dBinv"),
             ("interpolation", "math.linear_extrapolate, interpolate"),
             ("smoothing", "math.smooth")],
     note="unwrap_phase, the interval of angle and range checks are bounded "
          "(seeded), smooth is proved for axes of up to 6 points, the rest "
          "for all values and lengths")

prop("C12", "Converting a network representation keeps the network",
     "Converting between S, Z, Y, H, G, ABCD, T and T' (and S, Z, Y for any "
     "number of ports) gives a matrix that imposes the same relation between "
     "port voltages and currents as the source, for every frequency and "
     "repetition; dimensions are kept and the source is not modified. S "
     "parameters refer to 50 Ohm unless a reference impedance is given, "
     "which is honoured by conversions and kept by copies, views and "
     "slices. Element names such as S21 read and write exactly that element, "
     "arithmetic keeps the representation type, selecting a single element "
     "gives a plain array, and H, G, ABCD, T, T' reject anything but 2x2.",
     I, "all matrix entries (generic), outer axis lengths, all ordered pairs "
     "of the 8 representations, 1-3 ports for S/Z/Y, all impedances",
     "tests convert a handful of literal matrices; the identity must hold "
     "for every matrix",
     [MPO], [("conversion", "multiports.convert"),
             ("port definitions", "multiports.*Array.P"),
             ("construction", "multiports._MultiPortArray.__init__"),
             ("element access",
              "multiports._MultiPortArray.__getattr__/__setattr__")])

prop("C13", "Cascading and de-embedding are exact inverses",
     "Cascading two or more 2-ports, real or complex, gives the S-parameters "
     "of the connected network "
     "at every coordinate, whatever outer dimensions the two carry; "
     "de-embedding a fixture from the left, right or both sides returns the "
     "network whose cascade with the fixture is the measured one, and "
     "vice versa. The cascade and deembed methods do the same for every "
     "representation and reference impedance and return the type of the left "
     "operand, the ideal "
     "through is neutral, and switch correction returns S with b = S a. "
     "Operands are not modified.",
     I, "all matrix entries (generic), outer dimension sets and lengths",
     "tests de-embed a few literal fixtures",
     [SPF, MPO], [("cascade", "spar_functions.cascadeS"),
                  ("de-embedding",
                   "spar_functions.deembedleft/deembedright/deembed"),
                  ("methods", "multiports._MultiPortArray.cascade/deembed"),
                  ("switch terms", "spar_functions.switch_correct")],
     note="operands with two outer dimensions: the second outer length is "
          "enumerated 1..6 (an accessor table is filled in a loop over it), "
          "the first and all values are unbounded")

prop("C14", "Noise correlation and noise parameters describe the same noise",
     "The thermal noise of a passive network is 2kT(Y+Y^H), 2kT(Z+Z^H) or "
     "kT(I-SS^H); converting a noisy two-port between S, Y, Z and ABCD "
     "transforms the correlation matrix so that it describes the same noise "
     "of the same network, so thermal noise stays thermal noise. Rn, Fmin and Yopt reproduce the noise factor "
     "F = Fmin + Rn/Gs |Ys-Yopt|^2 for every source admittance whichever of "
     "Y, Z, ABCD describes the network, Gopt is the 50 Ohm reflection of "
     "Yopt, and a two-port built from noise parameters has exactly that noise "
     "factor for every source and gives the same parameters back.",
     I, "all network matrices and Hermitian correlation matrices, all source "
     "admittances, all axis lengths",
     "tests compare a few literal values in one representation",
     [NOI], [("passive noise", "noise.passive_noise"),
             ("transformation", "noise.NoisyTwoport.convert"),
             ("parameters", "noise.NoisyTwoport.noise_parameters"),
             ("synthesis", "noise.from_noisepar")],
     note="agreement between representations and the noise-parameter round "
          "trip are additionally bounded checks (seeded inputs); the rest is "
          "proved for all values and lengths")


prop("C15", "Passivity and reciprocity enforcement changes only what it must",
     "Making S-parameters passive returns, at every coordinate, matrices "
     "whose singular values are at most one, with singular vectors and "
     "smaller singular values kept, so a passive matrix comes back "
     "unchanged; the eigenvalue variant scales exactly the violating "
     "matrices and check_passive flags exactly the non-passive ones. Making "
     "S reciprocal sets S12 and S21 both to the root of S12*S21 that lies "
     "between them, keeps S11 and S22, and leaves a reciprocal matrix "
     "unchanged. Dimensions, type and reference impedance are kept, for any "
     "outer dimensions, and the argument is not modified.",
     I, "all matrix entries; 1-3 ports; any number of frequency points and "
     "repetitions",
     "tests check one or two literal matrices",
     [SPF], [("passivity", "spar_functions.make_passive_svd, "
              "make_passive_eig, check_passive"),
             ("reciprocity", "spar_functions.make_reciprocal")],
     note="numpy's svd and eigvals enter as assumed contracts (opaque "
          "factors with u s v = A); the loops over frequency are bounded, "
          "choice of the root is bounded (seeded)")


prop("C16", "Numbers with SI units are read and printed without changing value",
     "Converting a value with a unit multiplies it by exactly the SI prefix "
     "and yields the base unit, for every prefix and base unit the library "
     "knows; other units are kept with the value unscaled and percent "
     "becomes a plain fraction. The text of a number, in fixed or "
     "exponent notation, with or without a (bracketed) unit, is read as that "
     "number, and text that is no number, such as a date, is refused. Printing "
     "a number with an SI prefix picks the prefix that leaves 1 to 3 digits "
     "before the decimal point, and the printed number times its prefix is "
     "the number.",
     I, "all values; all prefixes from yocto to yotta; all known units",
     "tests look at a few literal strings",
     ["hftools/constants/si_units.py"],
     [("scaling", "si_units.unit_to_multiplier, convert_with_unit"),
      ("reading", "si_units.string_number_with_unit_to_value"),
      ("printing", "si_units.format_number, mantissa")],
     note="values symbolic (text carries them as unique numerals); rounding "
          "to a number of digits is a bounded check")

TSF = "hftools/file_formats/touchstone.py"
RB = "hftools/file_formats/readbase.py"
CF = "hftools/file_formats/common.py"

prop("C17", "Touchstone files are read at the right frequency and port",
     "Reading a Touchstone file gives, for any number of ports, frequency "
     "unit, parameter type, number format (RI, MA, DB) and line layout, a "
     "matrix whose element (frequency, i, j) is the complex number the file "
     "holds for it, with frequencies in Hz, comments kept and noise "
     "parameters at their own frequencies. What save_touchstone writes is "
     "read back with the same frequencies, matrix, scalars and comments. A "
     "file without option line, with two, with unknown options or with rows "
     "of the wrong length is refused.",
     I, "all numeric values; 1-6 ports; up to 6 frequencies",
     "tests read a handful of files with one layout each",
     [TSF, CF, RB], [("tokenizer", "touchstone.ReadTouchstoneFileFormat"),
                     ("reshaping", "touchstone.process_data, _process_data, "
                      "proc_data"),
                     ("writer", "touchstone.save_touchstone")],
     level="other",
     note="bounded: every numeric value symbolic, number of frequencies enumerated "
          "1-6: text has concrete length, so the row count is a stated bound")

prop("C18", "CITI files are read at the coordinates their lists declare",
     "Reading a CITI file gives every data array the swept variables in the "
     "order they are declared, with the listed or evenly spaced segment "
     "values as labels, and at each coordinate the number (real, "
     "real/imaginary or magnitude/angle) the file holds at that position; a "
     "complete set of elements S[i,j] or Sij becomes the matrix S, and block "
     "name and comments are kept. For variables that share their swept axes, "
     "what save_citi writes is read back with "
     "the same values, axes, scalars, comments and block name, whatever "
     "order the variables store those axes in. Unknown lines or data types, "
     "lists that are not ended and data of the wrong length are refused.",
     I, "all numeric values; 1-3 swept variables of up to 6 points; 1-3 "
     "data arrays, 2-4 ports",
     "tests read two or three files with one swept variable",
     ["hftools/file_formats/citi.py", RB],
     [("parser", "citi.ReadCITIFileFormat.parse_blocks, handle_data"),
      ("writer", "citi.format_citi_block"),
      ("matrices", "readbase.ReadFileFormat._make_matrix_from_block")],
     level="other",
     note="bounded: every numeric value symbolic, list lengths enumerated "
          "1-6: text has concrete length, so the row count is a stated bound")

prop("C19", "Tab-separated sp-data files give the columns their headings name",
     "Every column of an sp-data file becomes the variable its heading "
     "names, over the first column as axis: Re/Im and Mag/Arg pairs give the "
     "complex number, a unit in brackets scales by its prefix and is kept, "
     "repeated headings become repetitions, and blocks with @parameters are "
     "stacked in file order with the parameters along the new axis (or "
     "spread over one axis per parameter with hyper). For variables over the "
     "first axis and the same further axes or none, what save_spdata "
     "writes is read back with the same values, axes, units, scalars and "
     "comments. Columns that do not fit the headings, and files without "
     "headings or data, are refused.",
     I, "all numeric values; up to 6 rows, 6 blocks, 2 parameters",
     "tests read and write a few fixed files",
     ["hftools/file_formats/spdata.py", CF, RB,
      "hftools/file_formats/merge.py"],
     [("parser", "spdata.ReadSPFileFormat"),
      ("writer", "spdata.format_sp_block, common.db_iterator, "
       "make_block_iterator"),
      ("complex pairs and units", "readbase.make_cplx, fix_unit"),
      ("stacking", "merge.merge_blocks")],
     level="other",
     note="bounded: every numeric value symbolic, row count enumerated 1-6 "
          "(text has concrete length)")

prop("C20", "MDIF files give every block, column, parameter and attribute",
     "Reading an MDIF file returns its blocks by name; in each, every column "
     "(real, integer, complex, string, on one or several header lines) is "
     "the variable of that name over the first column, complete sets of "
     "indexed columns are matrices and vectors in index order, and "
     "attributes are values. Blocks of the same name, from one or several "
     "files, are stacked in order with their parameters and attributes "
     "along the new axis. For variables that share their swept axes, what "
     "save_mdif writes is read back with the same "
     "values at the same parameter values; truncated or mismatched blocks, "
     "unknown types and unknown block names are refused.",
     I, "all numeric values; up to 6 rows, 3 blocks, 2 files",
     "most MDIF tests do not run at all on this Python version",
     ["hftools/file_formats/mdif.py", RB],
     [("parser", "mdif.ReadMDIFFileFormat, GetData"),
      ("stacking", "mdif.simple_merge_blocks"),
      ("writer", "mdif.fmt_mdif_block, loop_db")],
     level="other",
     note="bounded: every numeric value symbolic, row count enumerated 1-6 "
          "(text has concrete length)")

prop("C21", "HDF5 files return every variable, axis, unit and type saved",
     "A data block saved to an HDF5 file (version 0.1 or 0.2) and read back "
     "has the same variables with the same values, types, units and "
     "dimensions (class, name, labels, unit), including axes no variable uses "
     "and, for version 0.2, output formats and names with slashes; saving "
     "does not modify the block and replaces an older file. Blocks appended "
     "to an expandable file are read back stacked in order along the new, "
     "consecutively numbered axis. Appending data with other axes, other "
     "labels, missing variables or a type the file can not hold is refused, "
     "and a refused append leaves the file unchanged.",
     ["inputs", "histories"], "all values and axis lengths; 1-3 appends; "
     "ranks 0-4",
     "tests save a few fixed blocks; several wrong results passed them",
     ["hftools/file_formats/hdf5/v_01.py", "hftools/file_formats/hdf5/v_02.py",
      "hftools/file_formats/hdf5/hdf5.py"],
     [("writer", "v_02.save_hdf5_handle, create_dataset; v_01.save_hdf5"),
      ("reader", "v_02.getvar, read_hdf5_handle; v_01.read_hdf5"),
      ("append", "v_02.append_hdf5, expand_dataset")],
     note="h5py enters as an assumed contract (engine/symh5.py), the concrete "
          "leg runs on the real h5py; dates and text are a bounded check")

prop("C22", "Merging blocks keeps every value with its own parameters",
     "merge_blocks stacks blocks taken over the same sweep in the given order "
     "along one new index axis; every variable keeps its values and unit, and "
     "every parameter (partial dimension) becomes a variable holding at "
     "position k the parameter value of block k, whatever order the blocks "
     "list their parameters in. With hyper the index axis is replaced by one "
     "axis per parameter and each block is found at its parameter values. "
     "Blocks with different variables and parameters are kept on separate "
     "index axes, comments are collected in order, the merged blocks are not "
     "modified, and blocks over different sweeps are refused.",
     I, "all values, sweep lengths and parameter values; 1-6 blocks, 1-2 "
     "parameters", "tests merge one or two fixed sets of files",
     ["hftools/file_formats/merge.py", DS],
     [("stacking", "merge.merge_blocks, get_partials"),
      ("spreading", "DataBlock.hyper")],
     note="block count enumerated (1-6); values and sweep lengths unbounded; "
          "a variable is in all blocks of a group or in just one")

prop("C23", "Columns become complex, base-unit, standard-named, matrix data",
     "After parsing, every reader replaces Re/Im and Mag/Arg column pairs by "
     "the complex variable they describe, moves a unit in a column or axis "
     "name to its unit with the SI prefix applied to the values, translates "
     "the documented column names, and combines a complete set of indexed "
     "columns over the same axes (real, complex or mixed) into the matrix "
     "they spell, keeping values, axes and unit. No column is overwritten or "
     "dropped by any of these steps: incomplete sets, pairs or names already "
     "taken are left alone or refused. Each step can be switched off by its "
     "own option, and numeric and text properties of the comments become "
     "variables unless the name is taken.",
     I, "all values and axis lengths; ranks 0-2, matrices up to 3x3",
     "tests read a few fixed files with the default options",
     [RB, CF],
     [("complex pairs", "readbase.make_cplx"), ("units", "readbase.fix_unit"),
      ("names", "common.normalize_names"),
      ("matrices", "readbase.ReadFileFormat._make_matrix_from_block, "
                   "combine_elements_to_matrix"),
      ("pipeline", "readbase.ReadFileFormat.do_file")])

prop("C24", "read_data recognises the format and reads files in name order",
     "read_data reads every file the library writes (Touchstone, CITI, "
     "sp-data, MDIF, HDF5 0.1 and 0.2) and files of other programs with "
     "comments, blank lines or non-ASCII text before their marks, giving the "
     "values in the file whatever its name; a pattern that matches no file "
     "is an IOError. Patterns and lists read all files, lists in the given "
     "order and patterns in numeric order of the names (digits compared as "
     "numbers), each with its values, comments and file name at its own "
     "position. read_to_cache returns the cached block until reread is "
     "asked for, and stores what the caller left in the block.",
     ["inputs", "histories"], "all numeric values; 7 formats, up to 6 rows "
     "and 5 files; representative names",
     "tests look at a few stored files",
     ["hftools/file_formats/__init__.py", RB, "hftools/utils.py"],
     [("dispatch", "file_formats.read_data, isfile"),
      ("order", "utils.lex_order, glob"),
      ("cache", "file_formats.read_to_cache, read_from_cache")],
     level="other",
     note="bounded: every numeric value symbolic, row count enumerated 1-6 "
          "(text has concrete length), file names and headers from a list")

prop("C25", "Comment lines become named values in base units, text stays text",
     "A comment line 'name [unit] : value', 'name = value unit' or the like "
     "yields the property name whose value is the number times the SI prefix "
     "in the base unit, a date when it is one, and otherwise exactly the "
     "text; a later line for the same name wins and every line is kept in "
     "order. Copies are independent of their source, and extending adds all "
     "lines and properties of the other without modifying it.",
     I, "all numeric values, all prefixes and units; representative names, "
     "separators and texts", "tests look at a few literal lines",
     ["hftools/dataset/comments.py", CF],
     [("parsing", "comments.process_comment, common.process_comment"),
      ("container", "Comments.add_from_comment, copy, extend")],
     note="values symbolic; names, separators and texts from a fixed list")

prop("C26", "A config key means its innermost definition, with SI values",
     "Looking up a key in a nested configuration gives the value of the "
     "innermost enclosing dictionary that has it, through any nesting of "
     "dictionaries and lists; membership, get with a default and KeyError "
     "agree with that, assignments stay local, and in merged dictionaries "
     "the last one that has a key decides. Values read from a file follow "
     "their text: numbers with an SI prefix and unit, percent/ppm/ppb, time "
     "intervals, dates and the next time of day; a configuration that is "
     "written and read again has the same values, units and types.",
     I, "lookup: all values, 6 nesting shapes; files: drawn values (bounded)",
     "tests read one fixed file and never compare what is written",
     ["hftools/file_formats/config.py"],
     [("lookup", "config.LexicalScopeDict.__getitem__, __contains__, "
                 "find_next_dict"),
      ("values", "config.convert_si_value and the yaml constructors"),
      ("writing", "config.LexicalConfig.write and the yaml representers")],
     level="other",
     note="lookups are proved for all values; everything that passes through "
          "yaml text is a bounded check with drawn values; a bare 'm' means "
          "milli, so lengths need a prefix")

prop("C27", "A muwave MATLAB sweep keeps every matrix, condition and unit",
     "Every measurement of a muwave sweep file becomes a block whose matrix "
     "element (i, j) at frequency k is the stored element (i, j, k), under "
     "its stored parameter type, with its covariance, reference impedance, "
     "bias values and units, conditions and date; values that are zero are "
     "kept and missing conditions accepted. A file is one axis over its "
     "points, several files (by pattern or list) one more axis in numeric "
     "name order, and nothing is mixed between points. Another MATLAB file "
     "is refused.",
     I, "one measurement: all values, all numbers of frequencies, 2 and 3 "
     "ports; whole files: drawn sizes and values (bounded)",
     "no test reads these files",
     ["hftools/file_formats/muwave_mat.py"],
     [("one point", "muwave_mat.build_data, build_meas_state, "
                    "build_measmnt"),
      ("files", "muwave_mat.read_muwave_matlabdata")],
     note="one measurement proved for all values and lengths with scipy's "
          "loadmat structures replaced by stand-ins; whole files through "
          "scipy.io are a bounded check")

prop("C28", "A plot draws the named quantity of every value at its own label",
     "Plotting a labelled array in a projection of hftools draws one line for "
     "each coordinate of the axes after the first (row-major order), over the "
     "labels of the first axis or the abscissa given. db, db10, mag, "
     "mag_square, rad, deg, real, imag, unwraprad, unwrapdeg and groupdelay "
     "draw 20 log10|y|, 10 log10|y|, |y|, |y|^2, the angle, the parts, and "
     "the continuous phase and group delay of hftools.math; the other "
     "rectangular projections draw real numbers as they are and complex "
     "numbers as imaginary over real part; cplxpolar draws angle and "
     "magnitude. The arrays are not modified. The abscissa shows the unit of "
     "the axis (for complex numbers both parts that of the values), and its "
     "label what it is (Frequency, Time, Length by unit, else the name of the "
     "axis); the number at a tick with the prefix or power of ten of the "
     "label is the value of the tick, to a thousandth of that unit unless the "
     "ticks span more than four decades. Formats and line properties are "
     "passed on.",
     I, "all values and lengths of axes, up to rank 4, every projection and "
     "way to call plot; tick texts: drawn values (bounded)",
     "tests look at labels of a few axes and at two projections",
     ["hftools/plotting/helper.py"],
     [("projections", "helper._projfun, cplx_polar_projection"),
      ("drawing", "helper.HFToolsAxes.plot, _plot_helper, "
                  "ComplexPolarAxes.plot"),
      ("ticks", "helper.UnitFormatter, SimpleUnitFormatter")],
     note="what is handed to matplotlib's Axes.plot is proved for all values "
          "and lengths, with matplotlib replaced by a stand-in that keeps it "
          "(engine/symmpl.py); tick texts are a bounded check on the real "
          "matplotlib, as is the concrete leg of every contract")

prop("C29", "The circles of a Smith chart are where r, x, g or b is constant",
     "For every resistance, reactance, conductance or susceptance the circle "
     "of the chart passes through the reflection coefficients of all "
     "impedances (admittances) with that value; with two limits the arc holds "
     "exactly the points between them, for a reactance or susceptance of zero "
     "it is the piece of the real axis between them. The grids drawn by "
     "smith, inv_smith, smith_upper, smith_lower and the polar grid lie "
     "inside the unit circle, in the half asked for, and hold the circles "
     "0, 1/3, 1, 3 of resistance and reactance from end to end, or those of "
     "magnitude 0.2 to 1 and rays every 45 degrees.",
     I, "circles: all values; arcs: drawn values (bounded)",
     "no test draws a chart",
     ["hftools/plotting/smith.py"],
     [("reflection", "smith.z2gamma, y2gamma"),
      ("circles", "smith.RCircle, XCircle, GCircle, BCircle"),
      ("grids", "smith.smith_grid, polar_grid")],
     note="centre and radius proved for all values (ring normal form); the "
          "end angles of arcs and the grids drawn are bounded checks")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, level, note, tech in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, level, note, tech in P:
        if any(n["property"] == p["id"] for n in NA):
            continue
        c = dict(property=p["id"],
                 quick_cmd="/opt/venv/bin/python run.py %s" % p["id"],
                 thorough_cmd="/opt/venv/bin/python run.py %s --tier thorough"
                 % p["id"], technique=tech, level=level)
        c["level_note"] = note or (
            "values exact (floating point treated as exact arithmetic), axis "
            "lengths unbounded, ranks and patterns as listed in the contract "
            "cases; numpy modelled by engine/symnp.py (trusted, cross-checked "
            "by setup selftest and by the concrete leg)")
        checks.append(c)
    m = dict(version=1,
             setup_cmd="/opt/venv/bin/python selftest.py",
             checks=checks, not_applicable=NA)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
