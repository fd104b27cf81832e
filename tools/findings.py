"""Writes known_findings.json from the list below (run by hand)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C23", "combine_elements_to_matrix aligns elements", "elements with "
     "their axes in another order, or with fewer axes, were put at the "
     "wrong coordinates of the matrix"),
    ("C12", "converting networks given as whole numbers", "converting a "
     "network whose elements are integers (ZArray([[100, 20], [30, 60]]) to "
     "S) truncated the result to integers, usually zeros"),
    ("C11", "unwrap_phase of single precision data", "unwrap_phase raised a "
     "ValueError for complex64 data with a repetition axis before a sweep "
     "axis after the first axis"),
    ("C03", "positions given as an array with other indices", "A[:, p] and "
     "A[p, :] with an array p of positions raised a ValueError"),
    ("C02", "a number minus an array of unsigned integers", "1.5 - A wrapped "
     "around for arrays A of unsigned integers"),
    ("C28", "axis labels show the power of ten with the unit", "an axis label "
     "with [^] raised a ValueError for axes with a unit, and showed a power "
     "of ten the ticks did not use outside the range of the prefixes"),
    ("C18", "CITI files keep matrices with ten or more", "a matrix with ten or "
     "more rows or columns was written with names such as S110 and read back "
     "as a smaller matrix and left-over variables"),
    ("C19", "sp-data files keep matrices with ten or more", "the same for "
     "sp-data files"),
    ("C20", "MDIF files keep matrices with ten or more", "the same for MDIF "
     "files"),
    ("C26", "time intervals with fractions of a second", "intervals such as one "
     "microsecond were written as '1e-06 seconds', which cannot be read"),
    ("C21", "dates of day, month or year resolution", "an axis labelled with "
     "dates of day, month or year resolution became an axis of objects, which "
     "could not be saved"),
    ("C23", "units with a slash are read from the column heading", "the unit "
     "of a column headed 'v [m/s]' was not read from the heading"),
    ("C18", "complex values without axes are read from CITI files", "complex "
     "scalars saved to a CITI file were read back as two real ones"),
    ("C17", "Touchstone files are written with their reference impedance",
     "save_touchstone wrote R 50 whatever the reference impedance of the data "
     "was"),
    ("C17", "real matrices are written to Touchstone files as number pairs",
     "S-parameters that happen to be real were written as one number each, "
     "which no Touchstone reader accepts"),
    ("C18", "CITI files with nan, inf or signed numbers are read", "CITI files "
     "with nan, inf or numbers such as +1.0, as save_citi itself writes them, "
     "raised"),
    ("C06", "a dimension without labels has an output format", "the output "
     "format of DimSweep('f', []), and with it hfarray(DimSweep('f', [])), "
     "raised an IndexError"),
    ("C09", "collapsing repetitions keeps units", "remove_rep lost unit and "
     "output format of the arrays and of the repetition axes it collapsed"),
    ("C04", "take keeps the labels and unit", "hfarray.take labelled the "
     "gathered axis with the positions instead of the labels at them and "
     "dropped its unit"),
    ("C12", "two-port representations reject matrices", "H, G, ABCD, T and T' "
     "arrays accepted matrices with other than two rows, e.g. "
     "HArray(zeros((3, 2)))"),
    ("C09", "filtering and sorting a data block keep the axes", "filtering or "
     "sorting a block lost the axes no variable uses, and sorting by such an "
     "axis raised a KeyError"),
    ("C29", "limits of conductance and susceptance arcs", "GCircle and BCircle "
     "drew the complement of the arc for limits in falling order"),
    ("C19", "complex values without axes are read back", "complex scalars saved "
     "as sp-data were read back as two real ones"),
    ("C19", "save_spdata keeps the units of the outer", "the units of all axes "
     "but the first were lost when saving sp-data"),
    ("C24", "reading MDIF files that do not exist", "reading an MDIF file that "
     "does not exist gave an empty result instead of an error"),
    ("C29", "draw the grid of a Smith chart", "drawing a Smith chart or polar "
     "grid raised a TypeError"),
    ("C29", "part of the real axis between two", "the piece of the real axis "
     "between two conductances was mirrored"),
    ("C04", "remove_rep collapses repetition axes", "collapsing repetition "
     "axes that are not adjacent raised or mixed up the data"),
    ("C05", "honour ddof", "std and var ignored ddof"),
    ("C05", "negative axis numbers", "A.sum(-1) and the other reductions "
     "raised a dimension mismatch for negative axis numbers"),
    ("C06", "equal hashes", "equal dimensions with different output formats "
     "had different hashes"),
    ("C12", "conversion between S, Z and Y works for any", "S, Z, Y "
     "conversion of 1-ports and 3-ports raised"),
    ("C12", "views of and arithmetic on Z, Y", "views of and arithmetic on "
     "Z, Y, H, G, ABCD and T arrays raised"),
    ("C12", "reference impedance is honoured", "Z0 was ignored for plain "
     "data and lost by copies, views and slices"),
    ("C14", "noise resistance of a chain-matrix", "Rn of an ABCD description "
     "was twice that of the same network as Y or Z"),
    ("C10", "lstsq works for operands with different", "lstsq raised for "
     "operands with different outer dimensions"),
    ("C15", "make_passive_svd multiplies plain", "make_passive_svd raised "
     "for labelled arrays"),
    ("C15", "make_reciprocal picks the root", "make_reciprocal returned the "
     "root of opposite sign for S12 = S21 in half of the plane"),
    ("C09", "filter selects the given values", "filtering by values of an "
     "axis raised or selected by position"),
    ("C09", "selecting existing x-values keeps", "selecting existing x-values "
     "dropped the axis class or reordered the data"),
    ("C09", "hyper orders the data like the labels", "hyper sorted the new "
     "labels but not the data"),
    ("C09", "sorted by an axis of length one", "sorting by an axis of length "
     "one raised an IndexError"),
    ("C07", "renaming a key to its own name", "renaming a key to its own "
     "name moved it or lost it"),
    ("C07", "the key order of a DataDict follows", "update, pop, popitem and "
     "clear left the key order out of step with the stored keys"),
    ("C04", "adding an axis keeps unit", "add_dim dropped unit and output "
     "format"),
    ("C16", "1e24 and above have the prefix Y", "printing numbers of 1e24 and "
     "above raised a KeyError"),
    ("C16", "whole exponent of a number with unit", "1.5E12 was read as 15 "
     "and 2.0E-1 was not read as a number"),
    ("C16", "brackets around a unit", "5 [mA] was read as 5 with the unit "
     "[mA]"),
    ("C17", "Touchstone files with a single frequency", "reading a file with "
     "one frequency raised"),
    ("C17", "save_touchstone works for blocks without", "saving a block "
     "without comments raised"),
    ("C17", "Touchstone files of three and more ports", "files of three and "
     "more ports were written column by column and read row by row"),
    ("C21", "units of the axes are read from version 0.1", "axis units were "
     "read as the text b'Hz' or b'None'"),
    ("C21", "axis names with a slash", "saving a block with a slash in an "
     "axis name raised"),
    ("C21", "date and time axes keep", "date axes were read as numbers"),
    ("C21", "appending to an hdf5 file numbers", "appended entries were all "
     "numbered 0"),
    ("C21", "text appended to an hdf5 file", "appended text was cut to the "
     "length of the first"),
    ("C21", "an append that is refused", "an append refused for a missing "
     "variable left some variables extended"),
    ("C21", "axes without data are read", "axes no variable uses were lost"),
    ("C25", "comments with a unit but no number", "a comment with a unit and "
     "a text raised a ValueError"),
    ("C25", "comments do not share the list", "extending comments changed "
     "the list they were made from"),
    ("C18", "save_citi writes values without axes", "saving a block with a "
     "scalar raised"),
    ("C18", "save_citi writes all data in the order", "variables storing the "
     "axes in another order were written with the values mixed up"),
    ("C18", "save_citi writes matrix elements by position", "matrix elements "
     "were looked up by label, so labels 0,1 wrote the wrong elements"),
    ("C18", "in the encoding they are read with", "comments with characters "
     "outside ASCII came back garbled"),
    ("C19", "save_spdata works for blocks with axes", "saving a block with an "
     "axis no variable uses (any block read from a file) raised"),
    ("C19", "sp-data rows of the wrong length", "a short or long row cut off "
     "columns silently"),
    ("C19", "repeated sp-data columns keep", "a file with one row lost the "
     "sweep axis of repeated columns"),
    ("C19", "values without axes are written to sp-data", "scalars were not "
     "written, and units of scalars were lost"),
    ("C19", "complex sp-data columns keep their unit", "Re(I) [mA], Im(I) "
     "[mA] was read as unscaled I without unit"),
    ("C22", "merge_blocks keeps the order of the variables", "the order of "
     "merged variables changed from run to run"),
    ("C22", "whatever order their partial dimensions", "blocks naming their "
     "parameters in another order were merged with the wrong parameters"),
    ("C22", "blocks with different variables and no partial", "merging "
     "blocks without parameters raised"),
    ("C22", "merging blocks whose axes differ", "blocks with other axis "
     "labels were merged under the labels of the first"),
    ("C22", "variables found in one of several blocks", "a value in one "
     "block only got an index axis of the wrong length"),
    ("C20", "MDIF files can be read, and", "reading any MDIF file raised "
     "RuntimeError: generator raised StopIteration"),
    ("C20", "a block an MDIF file does not have", "reading an unknown block "
     "returned None"),
    ("C20", "matrices in MDIF files have their axes", "the matrix axes were "
     "not registered in the block"),
    ("C20", "subsets of a block and saved MDIF", "the block name was not "
     "saved"),
    ("C20", "save_mdif writes blocks with any sweep", "saving raised unless "
     "the labels were 0,1,2... and there were attributes"),
    ("C20", "MDIF blocks of which some have a comment", "blocks with "
     "different comments could not be merged"),
    ("C20", "MDIF files are written and read with comments", "comments were "
     "not written"),
    ("C20", "merged MDIF blocks keep their name", "the name of merged blocks "
     "was lost"),
    ("C20", "save_mdif writes values without axes", "scalars next to "
     "two-axis data were lost"),
    ("C24", "order file names where digits", "a pattern matching names such "
     "as 1a.txt and a1.txt raised TypeError"),
    ("C24", "guess the format of files that are not", "read_data raised "
     "UnicodeDecodeError for HDF5 files and cp1252 text"),
    ("C24", "recognise MDIF files without VAR", "read_data took a saved MDIF "
     "file without swept parameters for sp-data"),
    ("C23", "normalize_names does not overwrite", "'b1/a1' and 'b1/a1 raw' "
     "were both renamed b11, one of them was lost"),
    ("C23", "matrices read from columns keep complex", "a matrix whose first "
     "element is real lost the imaginary part of the others, its unit, and "
     "overwrote a variable of its name"),
    ("C26", "keys of an outer scope are found", "key in d was False for keys "
     "of an outer scope when d is inside a list, though d[key] works"),
    ("C26", "values with units, intervals and times survive", "written SI "
     "values, intervals and dates were quoted and read back as text"),
    ("C26", "an empty config file", "reading an empty file raised"),
    ("C27", "muwave files of other types", "a sweep of Z or Y parameters, "
     "without conditions or with a zero value raised"),
    ("C22", "merging blocks that already have an index axis", "reading "
     "several multi-block files gave two different axes named INDEX1"),
    ("C27", "lists of muwave files can be read", "a list of muwave files "
     "raised"),
    ("C13", "cascading and de-embedding real with complex", "the imaginary "
     "parts were dropped when one network was real and the other complex"),
    ("C13", "cascadeS of more than two networks", "cascadeS(a, b, c) ignored "
     "c"),
    ("C10", "make_matrix of real and complex elements", "imaginary parts "
     "were dropped when the first element is real"),
    ("C14", "from_noisepar with real S-parameters", "imaginary parts of the "
     "correlation were dropped for real S"),
    ("C11", "smoothing integers and along other axes", "means of integers "
     "were truncated; axis other than 0 smoothed the wrong axis"),
    ("C23", "files can be read without merging", "read_spdata, read_citi and "
     "read_touchstone with merge=False raised AttributeError"),
    ("C24", "lists of MDIF files", "reading a list of MDIF files raised"),
    ("C20", "merging MDIF blocks keeps the units", "the units of columns of "
     "files with several blocks were lost"),
    ("C20", "MDIF files with vectors", "a file with a vector and no matrix "
     "raised UnboundLocalError"),
    ("C21", "appending data with other dimensions", "appended data with the "
     "axes in another order or other labels were stored under the axes of "
     "the file, floats were truncated to integers, and a failing append left "
     "the file half extended"),
    ("C12", "results of network arithmetic keep their element names",
     "(S / 2).S21 raised AttributeError"),
    ("C15", "passivity enforcement handles any outer dimensions",
     "make_passive_* and check_passive of arrays with two outer axes gave "
     "wrong values, of a single matrix raised, and lost Z0"),
    ("C15", "make_reciprocal does not modify its argument",
     "make_reciprocal overwrote S12 and S21 of its argument"),
    ("C10", "inverse and determinant use the matrix axes", "inv and det of an "
     "array whose matrix axes are not its last raised or mixed the axes"),
    ("C12", "conversions keep the order of the outer", "converting an array "
     "with a repetition axis before a sweep axis stored the values at the "
     "wrong coordinates or raised"),
    ("C08", "assigning a matrix element aligns dimensions", "db.S21 = value "
     "ignored the dimensions of the value: with another order of the axes "
     "the values were stored at the wrong coordinates"),
    ("C08", "only elements of matrices are assigned by element names",
     "db.V11 = value overwrote values of a variable V with two or more "
     "axes that is no matrix"),
    ("C12", "assigning an element of a network array aligns", "S.S21 = value "
     "ignored the dimensions of the value"),
    ("C15", "make_reciprocal keeps the order", "make_reciprocal of data with "
     "a repetition axis before a sweep axis raised or mixed up values"),
    ("C03", "labels follow an index array", "A[[2, 0]] selected values "
     "but kept all labels of the axis"),
    ("C11", "unwrapping the phase keeps the order", "unwrap_phase of data "
     "with a repetition or matrix axis before a sweep axis gave phases that "
     "were not the phase of the data, or raised"),
    ("C20", "texts with spaces in MDIF columns", "a quoted text with a space "
     "in an MDIF column was split into several fields"),
    ("C20", "MDIF attributes may hold equal signs", "an MDIF file with an "
     "attribute text holding '=' could not be read"),
    ("C20", "MDIF rows with more fields", "surplus fields of an MDIF row "
     "were dropped silently"),
    ("C21", "output formats of axes are read", "the output format of an axis "
     "was written to HDF5 files but not read back"),
    ("C09", "hyper keeps the comments", "hyper (and merge_blocks with "
     "hyper=True) lost the comments of the block"),
    ("C10", "matrices that are not square label their axes",
     "the product, linear solution or least-squares solution of matrices "
     "that are not square had a row or column axis with too many or too few "
     "labels"),
]
KNOWN = [
    {"property": "C22", "contract": "merge_some",
     "label": "values fit their axes",
     "what": "merge_blocks of three or more blocks with a variable that only "
             "some (more than one) of them have, or that blocks with "
             "different parameters share: the merged variable is shorter "
             "than its index axis (hftools/file_formats/merge.py, "
             "merge_blocks: hfarray(v, dims=ri + v[0].dims))"},
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"],
                         stdout=subprocess.PIPE, text=True).stdout
    out = []
    for pid, subj, what in FIXED:
        c = [l for l in log.splitlines() if subj in l]
        assert len(c) == 1, (subj, c)
        out.append({"status": "fixed", "property": pid,
                    "commit": c[0].split()[0],
                    "entry": "fixed: property=%s %s %s" % (
                        pid, c[0].split()[0], what)})
    for k in KNOWN:
        out.append(dict(k, status="known"))
    json.dump(out, open(os.path.join(HERE, "known_findings.json"), "w"),
              indent=1)


if __name__ == "__main__":
    main()
