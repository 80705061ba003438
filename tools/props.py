"""Write properties.jsonl and MANIFEST.json from the table below: python tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
V, A, P = "punx/validate.py", "punx/validations/", []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=(), level="exploration"):
    P.append(dict(
        record=dict(
            id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                         state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=None)),
        check=dict(
            property=id, quick_cmd=f"VERIF_TIER=quick {PY} run_check.py {id}", thorough_cmd=f"VERIF_TIER=thorough {PY} run_check.py {id}",
            evidence_file=f"evidence/{id}.json", technique=technique, level=level, level_note=note)))


FILES = ("HDF5 files that h5py can open, of any structure: groups, datasets, named types, attributes, hard, soft and external links (also circular, dangling, many to one). "
         "Not included: items with '@' in their names, NX_class texts with '/', NX_class 'NX', types which h5py cannot read, chains of hard links with exponentially many addresses, nesting beyond 200")
EXAMPLES = "The tests validate a few dozen fixed example files and compare a few counts or single findings; they reach none of the generated structures."

prop("C01", "Validation covers every item of the file, with its address and class path",
     "Validating a file checks every group, dataset, link and attribute that can be reached from its root, exactly once per address, no matter by how many names or which links it is reached, "
     "and ends also when links lead back to a parent. Each finding is at the full HDF5 address of an item that exists (address@name for an attribute), and the class path of the item is the sequence of NX_class values "
     "from the root to it, with the field or attribute name at the end.",
     ["inputs"], FILES, EXAMPLES, [V], [("address catalog", V + ":Data_File_Validator._group_address_catalog_"), ("class path", V + ":ValidationItem.determine_NeXus_classpath")],
     ["Data_File_Validator.addresses, .classpaths, .validations"],
     "runtime monitoring: recorded catalog and findings vs independent walk of the file",
     "held on the generated files only; oracle is an independent walk of the file with h5py, which is trusted",
     [("addresses", "all catalogued items by address", V), ("classpaths", "addresses by class path", V)])

prop("C02", "Names of groups, fields and attributes are judged by the NeXus naming rules",
     "Each group, dataset and attribute has exactly one name finding, decided by the complete name and the naming patterns of the selected NXDL file set. "
     "For groups and datasets: OK when it matches [a-z_][a-z0-9_]*, NOTE when it matches only the relaxed pattern, ERROR otherwise, and always WARN inside of a NXcollection; "
     "for attributes (of objects which are not links to some other object by @target): OK when it matches either pattern, ERROR otherwise; for NX_class its text is judged by the pattern of class names.",
     ["inputs", "configurations"], "All names that HDF5 allows except with '@' (any Unicode text, valid UTF-8 or not), for groups, datasets and attributes, at any place, with all bundled NXDL file sets",
     "The tests try a list of about 50 names against the patterns and a few files.", [A + "item_name.py"],
     [("item name rules", A + "item_name.py:verify"), ("patterns of the file set", A + "item_name.py:getValidItemNamePatterns")],
     ["findings validItemName"], "runtime monitoring: name findings vs reference model over generated names",
     "held on the names tried (all ASCII characters in first, inner and last position, sampled Unicode)")

prop("C03", "NX_class of each group is judged by the classes of the selected file set",
     "Every group with a NX_class starting with 'NX' is reported as known or unknown (ERROR) by whether the selected NXDL file set defines that class, and as a base class or not (ERROR) where application definitions, "
     "also those among the contributed definitions, are not base classes. Groups without such a NX_class are reported as non-NeXus and neither they nor anything below them get other class findings.",
     ["inputs", "configurations"], "All classes of all bundled file sets and any other text as NX_class, on groups at any place of any file",
     "The tests check a handful of class names of one file set.", [V, A + "nx_class_attribute.py", A + "attribute.py"],
     [("group validation", V + ":Data_File_Validator.validate_group"), ("base class or not", V + ":Data_File_Validator.usedAsBaseClass"), ("@NX_class handler", A + "attribute.py:nxclass_handler")],
     ["findings 'known NXDL', 'NeXus base class', 'NeXus_group', 'attribute value' of @NX_class"],
     "runtime monitoring: class findings vs reference model for all classes", "all classes of the three bundled file sets at several places; other texts are sampled")

prop("C04", "Group content and base class definition are compared both ways, nothing left out",
     "For every group of a known class: each field and group in the file is reported once as defined or not defined in the class, each field and group of the class is reported once as found (OK) or not found (OPTIONAL) in the file, "
     "and each attribute is reported once as known or unknown in the class. An attribute with enumerated values in the class is OK when its value is one of them, ERROR otherwise.",
     ["inputs", "configurations"], FILES + "; all classes of all bundled file sets", EXAMPLES,
     [A + "hdf5_group_items_in_base_class.py", A + "base_class_items_in_hdf5_group.py"],
     [("file to class", A + "hdf5_group_items_in_base_class.py:verify"), ("class to file", A + "base_class_items_in_hdf5_group.py:verify")],
     ["findings 'field in base class', 'group in base class', 'NXDL field in data file', 'NXDL group in data file', 'known attribute', 'attribute value enumeration'"],
     "runtime monitoring: membership findings vs reference model from independent NXDL reader", "every class of the bundled file sets with all, none and random subsets of its content")

prop("C05", "Entries are judged by the application definition which they name",
     "When a NXentry, or NXsubentry in a NXentry, has a definition field, its text is reported as known or unknown (ERROR) class and as application definition or not (base class: ERROR), for each such entry of the file. "
     "Then each field of the application definition's entry is OK when it is a field in the file, otherwise ERROR, or OPTIONAL if the definition makes it optional (minOccurs 0, optional, recommended); "
     "a field with enumeration is OK when its first value is one of the list, ERROR otherwise.",
     ["inputs", "configurations"], "All application definitions of all bundled file sets, with any fields missing, replaced by groups or dangling links, with any values of enumerations, one or several entries per file, in NXentry and NXsubentry",
     "The tests validate a few files with a few application definitions and look at counts of findings.",
     [A + "application_definition.py", "punx/nxdl_manager.py"], [("application definition", A + "application_definition.py:verify"), ("NXDL field defaults", "punx/nxdl_manager.py:NXDL__field.assign_defaults")],
     ["findings 'NeXus application definition', 'NXDL field', 'NXDL field enumerations', 'known NXDL'"],
     "runtime monitoring: findings vs reference model from independent NXDL reader", "every definition with all fields and every field missing once (thorough); values sampled")

prop("C06", "The default plot is found by the NeXus rules, when and only when there is one",
     "A file with NXdata groups (in NXentry) whose signal attribute names existing fields has a default plot (OK), at the one selected by the default attributes when they lead to exactly one; any broken signal attribute of those groups rules this out. "
     "Otherwise a file where some group has just one field marked signal=1 has a default plot (OK), and in all other cases it is reported as missing: "
     "ERROR when there is no NXentry or the NXDL file set requires data in NXentry, NOTE if not; there is exactly one such finding.",
     ["inputs", "configurations"], "All combinations of entries, data groups, signal and default attributes (good, missing, of other kinds), and signal markers at fields, with all bundled file sets", "Some 15 files are tested.",
     [A + "default_plot.py"], [("NIAC2014 rules", A + "default_plot.py:default_plot_v3"), ("@signal=1 rules", A + "default_plot.py:default_plot_v2"), ("verdict", A + "default_plot.py:verify")],
     ["findings 'NeXus default plot'"], "runtime monitoring: default plot finding vs reference model", "combinations are enumerated in part (thorough: most), files small")

prop("C07", "Report, summary and score say exactly what the findings say",
     "The printed report has each recorded finding of the selected statuses once, with its address, status, test and comment, and none other; the summary table counts the findings of each status and their total. "
     "The score is the sum of the values of the scored statuses (OK 100, OPTIONAL 99, NOTE 75, WARN 25, ERROR -10000000) over all findings and the average is the score divided by the count of the scored findings; "
     "this holds for every selection of statuses, in any order, and reporting does not change the findings.",
     ["inputs", "histories"], "All files and all selections of statuses, reports repeated in one process; names with line breaks are judged by counts only",
     "The tests compare few summaries with fixed numbers and the default selection.", [V, "punx/finding.py"],
     [("report", V + ":Data_File_Validator.print_report"), ("summary", V + ":Data_File_Validator.finding_summary"), ("score", V + ":Data_File_Validator.finding_score"), ("status values", "punx/finding.py")],
     ["standard output of print_report", "finding_summary()", "finding_score()"], "runtime monitoring: conservation between findings and parsed report", "files generated; all 255 selections of statuses over a run")

prop("C08", "Findings depend on the file and the NXDL file set only",
     "Validating, showing the tree, or reporting gives the same result for the same file content and file set, whatever the same process did before (other files, other file sets, failures, several validators open), "
     "and in any environment (hash seed, locale, working directory, more file sets in the cache, path of the file).",
     ["histories", "inputs", "configurations"], "All sequences of validate, report, tree, XML validation and schema reading calls in one process with new or reused validators, file sets in any order",
     "Each test looks at one call; the process-wide state (default sets, schema singletons) is only seen in the order of the test suite.",
     [V, "punx/nxdl_manager.py", "punx/schema_manager.py", "punx/singletons.py", "punx/cache_manager.py"],
     [("new state per validation", V + ":Data_File_Validator.__init_local__"), ("defaults of the schema", "punx/nxdl_manager.py:NXDL_Manager.get_nxdl_defaults"), ("singletons", "punx/singletons.py")],
     ["results of all calls in a recorded history"], "runtime monitoring: recorded histories, each result compared with that of a fresh process", "random histories; baseline is the code itself in a new process",
     [("CacheManager", "process-wide singleton", "punx/cache_manager.py"), ("_GroupParsing", "process-wide schema store", "punx/schema_manager.py")])

prop("C09", "Findings do not depend on how HDF5 stores the same content",
     "Two files with the same groups, links, attributes and values have the same findings (address, test, status), whether text is stored with fixed or variable length, ASCII or UTF-8, as scalar or (except NX_class) array of one item, "
     "whether datasets are contiguous, compact, chunked or compressed, and whatever number widths, byte order, creation order, file format version, user block or attribute storage is used.",
     ["inputs"], "All pairs of files which store one logical tree in different ways", "Tests use files as one writer made them.", [V, "punx/utils.py", A + "attribute.py", A + "default_plot.py"],
     [("text of values", "punx/utils.py:decode_byte_string, text_value")], ["findings (address, test, status)"], "runtime monitoring: metamorphic comparison of findings between storage variants", "random trees, up to 10 variants each")

prop("C10", "Any HDF5 file gets a complete answer, without an exception and in bounded time",
     "For every file that HDF5 can open, NeXus or not, however unusual, validation, report, tree and the NeXus file test end with a result and no exception, in bounded time, with all findings of known statuses, "
     "and with the unusual items included; the command line ends with exit code 0 and no traceback, also when the output encoding cannot represent the text.",
     ["inputs", "configurations"], FILES + "; with unusual types (compound, enum, opaque, references, empty, bool, float16, time), names and text that are not UTF-8, any type as value of NeXus attributes, damaged or missing external files", EXAMPLES,
     [V, "punx/h5tree.py", "punx/utils.py", A], [("catalog", V + ":Data_File_Validator._group_address_catalog_"), ("tree", "punx/h5tree.py:Hdf5TreeView"), ("text", "punx/utils.py")],
     ["result or exception of each call", "exit code and stderr of command line"], "runtime monitoring: robustness oracle over about 85 hostile constructs and combinations", "constructs as listed in vlib/hostile.py and their combinations; CPU time limit per file")

prop("C11", "punx only reads the files it looks at, and closes them",
     "Validating, showing, or testing a file never changes that file, its external files, the NXDL file sets, nor creates any other file, and it works with read-only files in read-only directories. "
     "Afterwards, also after a failure, the file is closed when the validator is closed (at once for tree and tests of files).",
     ["histories", "inputs"], "All sequences of validate, close, report, tree, file test on any files, with failures between", "Tests never look at the files afterwards.",
     [V, "punx/h5tree.py", "punx/utils.py"], [("open for reading", V + ":Data_File_Validator.validate"), ("close", V + ":Data_File_Validator.close"), ("tree", "punx/h5tree.py:Hdf5TreeView.report")],
     ["content and time stamps of all files", "open file descriptors of the process"], "runtime monitoring: file system and descriptor monitor around every call", "random sequences; /proc/self/fd and stat are trusted")

prop("C12", "The tree shows every item of the file once, in its place, with class and links",
     "The tree of an HDF5 file has one line for each group, dataset, attribute (if attributes are shown) and link below the group which has it, indented by depth, items sorted by name with the groups last, groups with their NX_class, datasets with type and shape. "
     "NeXus links (@target which is not the own address) are shown as '--> target', links which cannot be followed and links back to a parent are shown and not followed, external links show file and path.",
     ["inputs"], FILES, "The tests compare the trees of a few files with fixed text.", ["punx/h5tree.py"], [("groups", "punx/h5tree.py:Hdf5TreeView._renderGroup"), ("links", "punx/h5tree.py:Hdf5TreeView._renderLinkedObject")],
     ["lines of Hdf5TreeView.report()"], "runtime monitoring: tree lines vs independent walk of the file", "generated files; names with line breaks are skipped")

prop("C13", "Values shown in the tree are the values in the file",
     "Every value in the tree of an HDF5 file (scalars, array elements in their places, attribute values, text) is the value stored in the file. An array with more items than the limit along a dimension shows the first (limit - 2) and the last, with '...' between; all other arrays are shown completely.",
     ["inputs", "configurations"], "Datasets and attributes of integer, float, bool, and text types, rank 0 to 3, any lengths, and limits; higher ranks are shown without values", "Tests look at few arrays and one limit.",
     ["punx/h5tree.py"], [("arrays", "punx/h5tree.py:Hdf5TreeView._renderNdArray"), ("datasets", "punx/h5tree.py:Hdf5TreeView._renderDataset"), ("attributes", "punx/h5tree.py:Hdf5TreeView._renderSingleAttribute")],
     ["lines of Hdf5TreeView.report()"], "runtime monitoring: shown values parsed and compared with h5py", "generated arrays, lengths around the limit")

prop("C14", "File sets are found, listed, selected by name, and the newest is the default",
     "The known file sets are the directories of the source and of the user cache which are complete file sets (with a readable info file), the user cache has priority for a name in both; a broken entry never hides the others. "
     "The table lists each of them once with its data, selection by name gives just that one (validation with an unknown name is an error, never done with another file set), and the default is the one with the newest date.",
     ["configurations", "histories"], "All contents of the user cache, file sets added or removed between the calls", "Tests see the caches as they are on one machine.", ["punx/cache_manager.py"],
     [("find", "punx/cache_manager.py:Base_Cache.all_file_sets"), ("select", "punx/cache_manager.py:CacheManager.select_NXDL_file_set"), ("table", "punx/cache_manager.py:CacheManager.table_of_caches")],
     ["CacheManager().NXDL_file_sets, .default_file_set, .table_of_caches()", "punx configuration"], "runtime monitoring: cache answers vs independent reading of generated cache directories", "random caches; dates differ")

prop("C15", "Install makes exactly the file set of the archive, and replaces only on request",
     "After install, the file set has exactly the .xsd, .xml and .xsl files of the archive's top and of its base_classes, applications and contributed_definitions directories, with the same content, and an info file with name, commit, address and date; "
     "nothing else in the cache changed. An installed file set is not changed by install unless update is requested, and then it is the new archive's content only, with nothing of the old one.",
     ["histories", "inputs"], "All sequences of installs of archives made as GitHub does, with and without update, several names at once", "No network in tests: download code is not tested, or just one archive.",
     ["punx/cache_manager.py", "punx/main.py"], [("install", "punx/cache_manager.py:download_file_set"), ("extract", "punx/cache_manager.py:extract_file_set"), ("what to extract", "punx/cache_manager.py:is_extractable")],
     ["content of the user cache"], "runtime monitoring: cache snapshots vs archive content over install histories", "requests.get is replaced by a local archive; archives generated")

prop("C16", "A failed or interrupted install never damages the cache",
     "Whatever fails or interrupts an install or update (download errors, damaged archive, full disk, Ctrl-C, killed process, another install at the same time), every file set that punx lists afterwards is one complete archive, the other file sets are unchanged, "
     "and install works again. After an error or Ctrl-C during an update, the previous file set is still there, or the new one is complete.",
     ["crash_points", "fault_sequences", "schedules"], "One fault at any file system operation or executed line of the installer; failing downloads; concurrent installs and readers", "No test injects faults.",
     ["punx/cache_manager.py"], [("install in a temporary directory, then rename", "punx/cache_manager.py:download_file_set")], ["file sets listed by CacheManager in a new process", "content of the user cache"],
     "runtime monitoring with fault injection: every file system operation and line of the installer", "one fault at a time; killed = os._exit, no power loss", level="fault_enumeration")

prop("C17", "Install changes nothing outside of its own file set in the user cache",
     "Whatever the file set name (with '..', absolute, empty, odd characters) and whatever the names of the archive's members (parents, absolute, links), install creates, changes and removes only files in the directory of the named file set within the user cache (and temporary ones), or is refused with an error.",
     ["inputs"], "All names of file sets, all archives", "No test uses such names.", ["punx/cache_manager.py"], [("containment", "punx/cache_manager.py:download_file_set"), ("members", "punx/cache_manager.py:is_extractable")],
     ["all file system calls of the process (audit hook)", "files around the cache"], "runtime monitoring: audit hook on destructive calls and snapshot of the surroundings", "names and archives as listed in the check, all combinations in thorough")

prop("C18", "NXDL classes in memory say what the NXDL files say",
     "NXDL_Manager of a file set has exactly the classes of its NXDL files with their category, and each class has exactly the attributes, fields, groups, links, symbols, enumerations, dimensions and optional flags of its file, nested as in the file "
     "(items of the same name numbered). It is the same for every order and repetition of reading; a file set with an invalid, damaged or missing part is refused; validation of data files follows those classes.",
     ["inputs", "configurations", "histories"], "All file sets whose NXDL files are valid by their nxdl.xsd; names without surrounding white space; xs:choice content is not read", "Tests look at few classes of the bundled file sets.",
     ["punx/nxdl_manager.py"], [("definitions", "punx/nxdl_manager.py:NXDL__definition.parse_nxdl_xml"), ("numbered names", "punx/nxdl_manager.py:NXDL__base.ensure_unique_name"), ("classes", "punx/nxdl_manager.py:NXDL_Manager")],
     ["NXDL_Manager(ref).classes", "findings of data files"], "runtime monitoring: classes in memory vs independent XML reader, over generated file sets", "generated definitions; ElementTree is trusted")

prop("C19", "Defaults come from the XML Schema, except that applications require items",
     "Fields, groups, attributes and dimensions of every NXDL class have the attribute defaults and required flags which the nxdl.xsd of their own file set states; in application definitions the default is minOccurs=1 for fields and groups, and not optional for attributes. "
     "No other file set or class, read before or after in the same process, changes that.",
     ["configurations", "histories"], "All orders and repetitions of reading file sets with different nxdl.xsd in one process", "Tests check a few defaults with one manager per process.",
     ["punx/nxdl_manager.py", "punx/nxdl_schema.py"], [("defaults", "punx/nxdl_manager.py:NXDL__base.parse_xml_attributes"), ("schema", "punx/nxdl_schema.py:NXDL_Summary")],
     ["xml_attributes of all items of NXDL_Manager(ref).classes"], "runtime monitoring: state of all managers at the end of histories vs independent reader of nxdl.xsd", "generated variants of the bundled nxdl.xsd",
     [("xml_attributes", "default and required of each NXDL attribute", "punx/nxdl_manager.py")])

prop("C20", "A NXDL file is valid exactly when the XML Schema of the file set says so",
     "validate_xml() of any file returns normally if and only if it is well-formed XML and valid by the nxdl.xsd of the selected file set (or of the default one), raises InvalidNxdlFile if not, FileNotFound if it is missing, and KeyError for an unknown file set. "
     "The command punx validate of a .nxdl.xml file says the same by its exit code and text.",
     ["inputs", "configurations", "histories"], "Any file content, any installed file set, many calls in one process, file sets replaced between; the default is that at the start of the process", "Tests have one valid file.",
     ["punx/validate.py", "punx/nxdl_manager.py", "punx/main.py"], [("validate", V + ":validate_xml"), ("schema", "punx/nxdl_manager.py:validate_xml_tree"), ("command", "punx/main.py:func_validate")],
     ["validate_xml()", "punx validate x.nxdl.xml"], "runtime monitoring: verdicts vs lxml with the nxdl.xsd of that file set, over mutated files", "libxml2 is trusted")

prop("C21", "The command line does what was asked, and its exit code tells if it could",
     "Each subcommand may be given by any unique prefix of two or more characters; every spelling and order of its options gives the output of the library with those settings. "
     "The exit code is 0 when the work was done, 1 when it could not be (file missing or not HDF5 or not valid NXDL, unknown file set or status, failed install, no subcommand) with a message and no report, and 2 for a wrong command line.",
     ["inputs", "configurations"], "All command lines of the five subcommands, files of any kind, any working directory", "No test runs the command line except by a few in-process calls.",
     ["punx/main.py"], [("prefix", "punx/main.py:MyArgumentParser.parse_args"), ("tree", "punx/main.py:func_tree"), ("validate", "punx/main.py:func_validate"), ("install", "punx/main.py:func_install")],
     ["exit code, stdout, stderr of punx"], "runtime monitoring: processes of generated command lines vs their intent and the library", "archives come from a directory; library output is judged by the other checks")

prop("C22", "The schema in memory says what nxdl.xsd and nxdlTypes.xsd say",
     "SchemaManager of a file set gives, for each NXDL element, exactly the attributes with their type, required flag, default, enumeration and patterns, and the naming patterns (with those of their base types, and their maximum length), data types and units, which its nxdl.xsd and nxdlTypes.xsd define; "
     "NXDL_Summary gives the attributes with their type, required flag, default and patterns, and the simple types with their patterns and maximum length. Both whatever other file sets were read, or the same was updated, before or after in the same process.",
     ["configurations", "histories"], "All nxdl.xsd with the NeXus structure (element and attribute declarations as in NeXus), in any order, repeatedly", "Tests count a few elements of one schema.",
     ["punx/schema_manager.py", "punx/nxdl_schema.py"], [("manager", "punx/schema_manager.py:SchemaManager"), ("elements", "punx/schema_manager.py:Schema_Element"), ("summary", "punx/nxdl_schema.py:NXDL_Summary")],
     ["SchemaManager(path).nxdl", "NXDL_Summary(file)"], "runtime monitoring: schema objects at the end of histories vs independent reader", "generated variants of the bundled schemas",
     [("_GroupParsing.started", "inside of a group element", "punx/schema_manager.py")])

prop("C23", "The tree of a NXDL file is its transformation by the XSLT of its category",
     "For any NXDL file, the tree (of NxdlTreeView and of punx tree) is the result of the nxdlformat.xsl for the category of the file in the default file set, complete and in order, after the names of both files, also when repeated. "
     "Files which are missing, not XML, or without a known category, and file sets without that XSLT, give an error (exit code 1), never a tree.",
     ["inputs", "configurations"], "Any .nxdl.xml file, any default file set", "No test reads the tree of a NXDL file.", ["punx/nxdltree.py", "punx/main.py"],
     [("category", "punx/nxdltree.py:NxdlTreeView._determine_category_"), ("report", "punx/nxdltree.py:NxdlTreeView.report"), ("transformation", "punx/nxdltree.py:xslt_transformation")],
     ["lines of NxdlTreeView.report()", "punx tree x.nxdl.xml"], "runtime monitoring: trees vs lxml's transformation of the same file", "libxslt is trusted")

prop("C24", "NeXus files, groups and links are recognised by their content",
     "isNeXusFile() is True exactly when the root has an item (also reached by a link) that is a group with NX_class NXentry, False for any other HDF5 file, None for a missing one, and leaves nothing open; "
     "the predicates for groups, datasets, links and NeXus classes and the decoding of text agree with what is stored, for every object and attribute, in any storage form of text.",
     ["inputs"], FILES + "; values of any type and shape", "Tests have one or two objects for each predicate.", ["punx/utils.py", "punx/h5tree.py"],
     [("file", "punx/utils.py:isNeXusFile"), ("group", "punx/utils.py:isNeXusGroup"), ("link", "punx/utils.py:isNeXusLink"), ("text", "punx/utils.py:decode_byte_string")],
     ["return values", "open files"], "runtime monitoring: answers vs definitions evaluated on the same objects", "h5py is trusted; first item decides for NX_class arrays")

prop("C25", "Attributes which name other items are OK exactly when the item exists",
     "The findings about @signal, @axes, @default and @target say OK when the named item exists in the file (relative to the group, for target from the root), and ERROR when it does not, whether stored as scalar, or as array of text, of fixed or variable length, and whether the item is reached directly or by links.",
     ["inputs"], "@signal, @axes, @default, @target with text values of any content on root, entries, data groups and fields of any file", "Tests have a few of each.", [A + "attribute.py", A + "hdf5_group_items_in_base_class.py", "punx/utils.py"],
     [("signal", A + "attribute.py:signal_handler"), ("axes", A + "attribute.py:axes_handler"), ("target", A + "attribute.py:target_handler"), ("default", A + "hdf5_group_items_in_base_class.py:verify_group_attributes"), ("exists", "punx/utils.py:child_in_group")],
     ["findings 'attribute value' of @signal and @target, 'axes[..] exists', 'value of @default', 'value of @signal', 'value of @target', 'valid name ...'"],
     "runtime monitoring: pointer findings vs reference model", "generated attributes; link resolution of h5py is trusted")


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, "checks", p["record"]["id"].lower() + ".py"))]
    have.sort(key=lambda p: p["record"]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in have:
            assert len(p["record"]["title"]) <= 80, p["record"]["title"]
            f.write(json.dumps(p["record"]) + "\n")
    man = dict(
        version=1, setup_cmd=f"{PY} -c 'import h5py, lxml, numpy'",
        hooks=dict(guard="VERIF_HOOKS", enable="no hooks in /repo: monitors run outside of the code under test (wrappers, audit hooks, and files)", source_commits=[]),
        checks=[p["check"] for p in have], not_applicable=[],
        notes="Pure Python code base without threads: no sanitizers or race detectors; see DESIGN.md")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
