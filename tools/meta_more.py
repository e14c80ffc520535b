CV = ["nappy/nappy_api.py", "nappy/nc_interface/nc_to_na.py", "nappy/nc_interface/xarray_to_na.py", "nappy/nc_interface/na_content_collector.py", "nappy/nc_interface/xarray_utils.py",
      "nappy/utils/common_utils.py", "nappy/na_file/na_file.py"]
AI = "abstract interpretation over library models: symbolic cells on concrete structures, written text terms read by an independent reader"
CN = ("The conversion code is interpreted from /repo's current source with models of numpy, xarray, cf_xarray and cftime (/verif/ref/xstub); cell values are symbols, so a "
      "discharged obligation holds for all values of the cells; structures (axes, names, which cells are missing) are those of about 30 listed data sets. "
      "Joins at undecided branches, no path enumeration or solver. A construct the analyser cannot follow is reported as undecided and does not alarm.")

prop("C12", "Each conversion option has its documented effect and no other",
     "In conversions from NetCDF or xarray objects to NASA Ames or CSV files, delimiter changes only the separators, float_format only the text of the numbers, annotation only adds a leading column, "
     "no_header leaves exactly the data section, only_return_file_names names exactly the files that would be written and writes none, var_ids and exclude_vars select exactly the named variables, "
     "and a requested FFI that cannot hold the data is refused. Options combine, and nothing else in the files changes.",
     ["configurations", "inputs"], "all option values and combinations, all data shapes", "Tests run each option on one or two sample files and mostly check that a file appears.",
     CV, "options travel as keyword arguments through four layers of functions to the writer", AI, CN)
prop("C14", "Every converted variable keeps its values, order and coordinates",
     "When a NetCDF file, xarray objects or a data set with its coordinates are converted to NASA Ames or CSV files, every selected variable appears in exactly one place of the output (a primary or auxiliary variable of one file, or a comment for a single value), "
     "with every value in the row and column of its own coordinates, under its own name and units, and no value of another variable. The axis values in the file are those of the variable's axes, in order.",
     ["inputs"], "all sets of variables: shared, different and crossing axes, ranks 0 to 4, name clashes, any values", "Tests convert a few sample files and compare little of the content.",
     CV, "variables are sorted into groups with equal axes, the best variable leads, others become auxiliary or go to further files", AI, CN)
prop("C15", "Splitting by size limit loses, repeats and reorders no record",
     "When a conversion is given a size limit, the volumes written hold, joined in the order returned, exactly the rows of the file written without a limit, each once and in order, and no volume has more rows than allowed. "
     "Each volume has the header of the whole, says which volume of how many it is, and is written once to a file of its own that is listed among the returned names.",
     ["configurations", "inputs"], "all size limits and numbers of rows", "No test covers a split that is not a divisor of the number of rows, or a limit larger than it.",
     CV, "slices of the dictionary are written one after another with numbered names", AI, CN)
prop("C16", "Converted files follow the layout that their FFI states",
     "Every NASA Ames file that a conversion writes follows the layout of the FFI stated on its first line: number of header lines, numbers of variables and axes, lengths and definitions of axes, comment counts and number of values per record are those of the file, "
     "stated increments are true of the axis values, a requested FFI is the one used, and every file written is closed.",
     ["inputs", "configurations"], "all data shapes and axis values, requested FFIs", "Tests rarely read the converted files back.",
     CV, "counts and increments are computed while variables are collected, before the writer sees them", AI, CN)
prop("C27", "Missing cells are written as their own column's missing value",
     "When masked or missing cells are converted to NASA Ames or CSV, each is written as the missing value that its own column declares in the header, with the same text, for primary and auxiliary variables alike and for any float format. "
     "A fill value declared by a variable is the missing value stated for it, and a cell that is not missing is written as its own value.",
     ["inputs"], "all patterns of missing cells, fill values, formats", "Sample files with missing data are converted without looking at the cells.",
     CV, "fill values are taken from encoding or attributes, or a default; cells are filled before writing", AI, CN)
NV_ = ["nappy/nappy_api.py", "nappy/nc_interface/na_to_xarray.py", "nappy/nc_interface/na_to_nc.py", "nappy/nc_interface/xarray_utils.py", "nappy/na_file/na_core.py", "nappy/na_file/na_file.py"]
AR = "abstract interpretation over library models: files of known structure with symbolic cells, arrays compared with the symbols of the file"
RN = ("The reading and conversion code is interpreted from /repo's current source with models of numpy and xarray (/verif/ref/xstub); the files read have concrete structure (about 20 listed in "
      "nastatic/props/_na.py) and symbolic cells, so a discharged obligation holds for all cell values. Joins at undecided branches, no path enumeration or solver. "
      "A construct the analyser cannot follow is reported as undecided and does not alarm.")

prop("C17", "Converting NASA Ames to NetCDF or xarray keeps every variable and value",
     "When a NASA Ames file is read as xarray objects or converted to NetCDF, each selected primary and auxiliary variable comes out exactly once under its own (made safe) name, units and number, on axes with the names, units and values of the file (implied ones expanded). "
     "Every value is multiplied by the scale factor of its own variable, except missing ones, which stay equal to the declared fill value. Selecting and renaming affect exactly the variables named; formats without a mapping and unknown names are refused.",
     ["inputs", "configurations"], "all files of FFI 1001, 1010, 1020, 2010, 3010 and 4010, any values, scale factors, missing values and selections",
     "Tests convert sample files whose scale factors are mostly 1 and look at few cells.",
     NV_, "arrays are scaled and given axes, names and fill values one by one from parallel lists of the file object", AR, RN)
prop("C28", "Converting NASA Ames to CSV changes only the separators",
     "The CSV file made from a NASA Ames file has every header item and every data value of the original, in the same places and equal, with commas as the only separators. Annotation adds one leading column and no_header leaves exactly the data section. The file is closed when the call returns.",
     ["inputs", "configurations"], "all files of the numeric formats, both options", "Tests check that a file appears.",
     ["nappy/nappy_api.py", "nappy/na_file/na_file.py"] + RW[1:], "the file is read into a dictionary that is written again with another delimiter",
     "abstract interpretation: files of known structure with symbolic cells, written text terms read by an independent reader", RN)
prop("C18", "Metadata survives conversion in both directions",
     "In conversions between NetCDF or xarray objects and NASA Ames, every global and variable attribute and every header item or comment line that has a place in the output's form is found there, whole, once and in order: "
     "title, source, institution, history, comments and other attributes in the items and comment sections that the configured mapping gives them, and the reverse. The stated dates are those of the data, in their own calendar, and of the "
     "day of conversion. No value is cut off, mixed with another's or takes more header lines than the header says.",
     ["inputs"], "all attribute texts (several lines, long, numeric, empty), comment sections and calendars", "Tests convert sample files and do not compare the metadata.",
     CV + NV_[1:4], "the mapping is written twice, once per direction, with markers between the sections of comments",
     "abstract interpretation over library models: header lines and attributes as text terms, each compared with the item that it stands for", CN)
prop("C19", "Overriding metadata replaces exactly the items given",
     "When a conversion to NASA Ames is given overriding metadata, each permitted item given appears in every file written with the value given, comment sections in their own place, and every other item, count and data value is "
     "the same as in a conversion without it. The header still states its true length.",
     ["configurations", "inputs"], "all permitted items, their combinations and forms (text or list), all data shapes and options", "Tests override one or two items and look only for a file.",
     CV, "items of the dictionary are replaced after it was built and before the header length is worked out",
     "abstract interpretation over library models: the files with and without overriding metadata compared item by item", CN)
prop("C13", "The command-line tools do what the API does",
     "Each option of nc2na, nc2csv and na2nc has the effect of the API argument it stands for, alone, in combination and in any order: the tool writes exactly the files, with exactly the content, that the documented API call writes, and reports their names. "
     "It makes no difference whether the arguments are given as a list or come from the command line. A command that cannot be understood (unknown option, missing value, no input file) writes nothing.",
     ["configurations", "inputs"], "all options, their combinations and order", "Tests call each tool with one or two argument vectors and look only for a file.",
     ["nappy/script/nc2na.py", "nappy/script/nc2csv.py", "nappy/script/na2nc.py", "nappy/nappy_api.py"] + CV[1:], "each tool parses its arguments by hand into keyword arguments that pass through four layers",
     "abstract interpretation over library models: text terms written by the tool compared with those written by the API function", CN)
prop("C23", "Conversions write to the file names that are asked for",
     "A conversion writes to the file named, or, if none is given, to the input's name with its extension replaced by that of the output format; when several files are needed they are numbered from 1 before the extension of the name asked for. "
     "Directories, dots in directory names and further dots in file names are kept, no two files share a name, and the names returned are exactly those written, in order.",
     ["inputs", "configurations"], "all input and output names, all numbers of output files, all six conversions", "Tests always give one well-formed output name and hardly look at the names returned.",
     CV + NV_[1:3] + ["nappy/utils/common_utils.py"], "names are taken apart and rebuilt in three places",
     "abstract interpretation over library models: constant file names propagated to the calls that open files, compared with the documented rule", CN)
prop("C20", "Calls leave their arguments and each other alone",
     "No call of the API changes what it is given (lists, dictionaries, xarray objects with their attributes and values) or the state of the package (configuration, module and class attributes, default arguments). "
     "The files, data sets and values that a call gives do not depend on earlier calls in the process, nor on other files that are open, and a converter object asked a second time gives the same result.",
     ["histories", "inputs"], "all sequences of calls and their arguments", "Tests make one call each on fresh arguments and do not look at the arguments afterwards.",
     CV + NV_[1:] + ["nappy/utils/parse_config.py"], "configuration dictionaries are cached in modules, dictionaries and lists are passed on without copying",
     "effect analysis by abstract interpretation: the whole abstract heap compared before and after each call, outputs of ordered pairs of calls compared with those of each alone", CN)
prop("C21", "Everything that the package offers is there when it is used",
     "Every module can be imported, every documented function and installed command exists, and whatever a function names on any of its paths (names, attributes of modules, of self and of new objects, imports, the arguments of functions of the package, the values of a text template) "
     "exists and is accepted, so that no path ends in a NameError, AttributeError, ImportError or a TypeError for wrong arguments.",
     ["configurations", "inputs"], "all paths of all functions", "Tests reach only some functions and few of their rare branches.",
     ["nappy/nappy_api.py", "nappy/utils/common_utils.py", "nappy/utils/compare_na.py", "nappy/nc_interface/xarray_to_na.py", "nappy/na_file/na_core.py", "nappy/script/nc2na.py"], "names are resolved when a line runs; several branches run only for rare formats",
     "name, attribute and signature resolution over the syntax trees of the whole package, maybe-assigned dataflow of locals, abstract interpretation of imports",
     "All functions are covered, whether or not anything calls them. Only what cannot be right is reported: attributes of objects of unknown class and names made by exec are not followed.")
prop("C24", "Comparing two files states whether they differ",
     "The comparison of two NASA Ames files (function and command) says that they are the same exactly when each section selected (header, body or both) has the same number of lines and, line by line, the same items: numbers equal in value in whatever notation "
     "(as text when strict, within one per cent when approximate), everything else equal as text. The verdict does not depend on the order of the files, the place of a difference or the delimiters, and the options of the command select the documented rules.",
     ["inputs", "configurations"], "all pairs of files and combinations of options", "Tests compare a handful of sample files, mostly with themselves, and one section at a time.",
     ["nappy/utils/compare_na.py"], "the verdict is combined from sections, lines and items by flags that later ones can overwrite",
     "abstract interpretation of the comparison on files with symbolic numbers: the verdict is extracted as a formula and compared with the documented rule",
     "Files only: directories are compared as plain text whatever the options are, which is out of scope here. Where the header differs and the body does not, the two together are a known finding.")
prop("C29", "Round trips between NASA Ames and NetCDF give back what went in",
     "A NASA Ames file of a convertible format (1001, 1010, 1020, 2010, 3010, 4010) converted to NetCDF and back describes the same data: the same variables with the same units, axes and values, missing where they were missing, and the same comments, originator, source and dates. "
     "A data set converted to NASA Ames and back has its variables, dimensions, units, values, missing cells and attributes again. What the formats cannot hold is normalised once (name spelling, volume numbers, implied axes made explicit, "
     "auxiliary variables on the same axis made primary): a second round trip changes nothing further.",
     ["inputs", "histories"], "all files and data sets of the structures, any values, texts and missing cells", "Tests convert in one direction at a time and do not compare with what went in.",
     CV + NV_[1:], "the two directions are written independently, each with its own tables and rules, and agree only by convention",
     "abstract interpretation over library models: the output terms of one conversion are the input of the other, and the result is compared item by item with the original", RN)
prop("C22", "Axes and variables are recognised for what they are",
     "Two coordinates count as the same axis exactly when name, units, length and every value agree (and neither is a differently named time, level, latitude or longitude). One counts as a coarser version of another exactly when its values are every n-th of the other's, "
     "n being the ratio of their lengths. An axis is uniformly spaced only when all its steps are equal. A coordinate is time, level, latitude or longitude exactly when its CF attributes (or, for time, its values) say so. "
     "The missing value of a variable is that of its own encoding or attributes, whatever it is (0 too), and its header name is the best of its names followed by its units once.",
     ["inputs"], "all axes of the lengths given, with any values, and all combinations of the deciding attributes", "Tests convert sample files whose axes differ in obvious ways or not at all.",
     ["nappy/nc_interface/xarray_utils.py"], "each helper decides by a chain of conditions over attributes and values and is used by several stages of the conversion",
     "abstract interpretation of each helper on symbolic values: the verdict is extracted as a formula and compared with the documented rule", CN)
prop("C25", "What is written can be read back",
     "A file written from a dictionary and read again gives every entry of that dictionary: header items, texts, comments (also empty lines among them), axes, values and auxiliary values of every type, with any blank or tab separator and any number format that keeps the numbers, "
     "whether the dictionary was read from a file or made by hand. Writing what was read back gives the same text again.",
     ["inputs", "configurations"], "all dictionaries and files of the nine formats", "Tests write a few sample files and look at some of the entries.",
     ["nappy/na_file/na_file.py", "nappy/na_file/na_core.py"] + ["nappy/na_file/na_file_%d.py" % f for f in (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)] + ["nappy/utils/text_parser.py", "nappy/utils/list_manipulator.py"], "reader and writer of each format are written separately and agree only by convention",
     "abstract interpretation: the text terms that the writer gives are the input of the reader; dictionaries and texts compared entry by entry", CN)
prop("C30", "The label of an annotated line names what the line holds",
     "In annotated output the label of every line is the configured text for the item that this line holds, with the number of the line where an item has several lines, for every format and also in the CSV files that conversions make.",
     ["inputs", "configurations"], "all formats and numbers of lines of each item", "Tests hardly look at annotated output.",
     ["nappy/utils/common_utils.py", "nappy/utils/parse_config.py", "nappy/na_file/na_file.py", "nappy/na_file/na_file_1001.py", "nappy/na_file/na_file_2010.py", "nappy/na_file/na_file_2160.py"], "each line of each writer names its label by hand",
     "abstract interpretation of the annotated writing: the constant first column of each line compared with the layout's sequence of items", CN)
prop("C31", "The output follows from the input alone",
     "The same input with the same options gives the same files, data sets and returned values in every process: the order of variables, axes, attributes, comment lines and files never depends on the order in which Python gives the items of a set, "
     "and apart from the history text and the date of conversion nothing in an output comes from the clock, the environment, the machine, the process or chance.",
     ["inputs", "configurations", "histories"], "all processes and orders of sets, over all conversions", "A test runs in one process, where a set has one order, and does not compare with another run.",
     CV + NV_[1:3], "names are collected in sets on the way from data sets to lists of variables, and the day of conversion is put into headers and histories",
     "non-interference by abstract interpretation: each conversion with the sets in opposite orders, outputs compared as normal forms; marked terms for clock, environment and chance looked for in the outputs", CN)
