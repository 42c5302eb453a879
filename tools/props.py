"""Single source of properties.jsonl and MANIFEST.json:  python tools/props.py"""
import json
import os

import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
V = "vistautils/"
P = []
NA = []


def prop(id, title, statement, quant, why, files, mech, over=("inputs",), state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": [V + f for f in files],
            "mechanism": [{"name": n, "where": V + w} for n, w in mech],
            **({"state": [{"name": n, "meaning": m} for n, m in state]} if state else {}),
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


def na(id, reason):
    NA.append({"property": id, "reason": reason})


prop("C01", "A range holds exactly the values its bounds describe",
     "Each way of building a range (open, closed, half-open, bounded on one side, everything) either "
     "rejects its endpoints with a value error, exactly when the lower endpoint exceeds the upper or "
     "both ends are open at one value, or yields a range whose bounds and bound kinds read back as "
     "given. A value is a member exactly when it satisfies both bounds, so membership is convex, and "
     "the range reports itself empty exactly when it is half-open with equal endpoints. Asking for "
     "None is refused.",
     "every factory, every pair of endpoints of a totally ordered type, every probe value",
     "the tests try a few integers around fixed endpoints; membership must follow the bounds for all",
     ["range.py"],
     [("factories and validity check", "range.py: Range, Range.__attrs_post_init__"),
      ("membership", "range.py: Range.__contains__, _Cut.is_less_than")])
prop("C02", "Range relations and combinations agree with membership",
     "One range encloses another exactly when its bounds do, two ranges are connected (and intersect) "
     "exactly when some possibly empty range is enclosed by both, and both relations behave "
     "symmetrically. The intersection of connected ranges holds exactly the common values and is "
     "refused for disconnected ones; the span of ranges is the smallest range enclosing all of them, "
     "in whatever order they are given, and no ranges have no span.",
     "every pair of ranges of the nine kinds, sequences of ranges, every probe value",
     "tests compare a few dozen hand-picked pairs; the nine kinds with coinciding, adjacent and "
     "disjoint ends give far more cases",
     ["range.py"],
     [("relations", "range.py: Range.encloses, is_connected, intersects"),
      ("combinations", "range.py: Range.intersection, span, create_spanning"),
      ("cut order", "range.py: _Cut.compare_to")])
prop("C03", "Range equality, hashing and copies are consistent",
     "Two ranges are equal exactly when they have the same bounds of the same kinds; equality is "
     "reflexive, symmetric, opposite to inequality, and equal ranges hash equally. A range copied, "
     "deep-copied or pickled and restored is interchangeable with the original: equal to it, hashing "
     "alike, enclosing it and keeping its unbounded ends.",
     "every pair of ranges, every copying protocol",
     "tests pickle one or two bounded ranges; unbounded ends and hash agreement need all kinds",
     ["range.py"],
     [("equality and hash", "range.py: Range.__eq__, __hash__, _Cut.__hash__"),
      ("copy protocol", "range.py: _BelowAll.__reduce__, _AboveAll.__reduce__")])
prop("C04", "A mutable range set stays canonical and equals the union",
     "After any additions, one by one or in bulk, and clearings, the members of a mutable range set "
     "are non-empty, pairwise disconnected and in ascending order. Together they hold exactly the "
     "values of the ranges added since the last clearing, members not connected to an added range "
     "stay as they were, and adding returns the set itself.",
     "every sequence of additions, seen as one addition to every canonical set plus bulk additions",
     "tests replay a fixed set of additions; merging has cases for each way the new range touches, "
     "bridges or is enclosed by its neighbours",
     ["range.py"],
     [("adding", "range.py: _MutableSortedDictRangeSet.add, add_all, clear"),
      ("representation", "range.py: _replace_range_with_same_lower_bound")],
     over=("inputs", "histories"),
     state=[("ranges by lower bound", "sorted, non-empty, pairwise disconnected members")])
prop("C05", "Range set queries agree with the members",
     "A range set contains a value exactly when a member does; looking up the member containing a "
     "value or enclosing a range, the members enclosed by or overlapping a range, and the members "
     "nearest to a value on either side (containing it or wholly beyond it) finds exactly the members "
     "with that property. Enclosing one or several ranges, intersecting a range and the span of the "
     "set follow from the members in the same way.",
     "every set of disconnected ranges, every query value and range of any kind",
     "tests query a handful of sets; off-by-one errors at open, closed and unbounded ends need all "
     "bound patterns",
     ["range.py"],
     [("point queries", "range.py: _SortedDictRangeSet.range_containing, __contains__, "
       "rightmost_containing_or_below, leftmost_containing_or_above"),
      ("range queries", "range.py: range_enclosing_range, ranges_enclosed_by, ranges_overlapping, "
       "intersects, encloses, encloses_all, span")])
prop("C06", "Range sets are values: order-independent, equal, stable, copyable",
     "Range sets built from the same ranges in any order or way are equal, and two range sets are "
     "equal exactly when their members are; equal immutable range sets hash equally. An immutable set "
     "is never changed by later changes of the mutable set or builder it came from. Copying or "
     "pickling a range set gives an equal set that answers queries alike.",
     "every pair of sets, every insertion order, every later change, every copying protocol",
     "tests check one or two orders and copies",
     ["range.py"],
     [("equality and hash", "range.py: RangeSet.__eq__, __hash__"),
      ("snapshots", "range.py: immutable_copy, ImmutableRangeSet.Builder.build"),
      ("pickling", "range.py: RangeSet.__getstate__, __setstate__")],
     over=("inputs", "histories"))
prop("C07", "Range map lookups return the value of the right key range",
     "Looking up a key in a range map gives the value of the one key range containing it, or nothing "
     "when none does, and membership agrees. The rightmost lookup gives the value of the last key "
     "range that contains the key or lies wholly below it, the leftmost lookup that of the first that "
     "contains it or lies wholly above it, and the values enclosed by a range are those of exactly "
     "the key ranges it encloses.",
     "every map with disconnected key ranges of every kind, every key and query range",
     "tests look a few keys up in fixed maps",
     ["range.py"],
     [("lookups", "range.py: ImmutableRangeMap.__getitem__, get_enclosed_by, "
       "get_from_rightmost_containing_or_below, get_from_leftmost_containing_or_above")])
prop("C08", "Range maps reject ambiguous keys and are values",
     "A range map is built exactly when its key ranges are non-empty and pairwise disconnected "
     "(repeating one key range may be refused or keep one of its values); otherwise building raises a "
     "value error. Maps are equal exactly when they have the same key ranges with the same values, "
     "equal maps hash equally, and a copied or pickled map is equal and looks up alike. A builder "
     "may build again, and what it has built never changes.",
     "every list of key ranges and values, in any order",
     "tests try a few overlapping keys",
     ["range.py"],
     [("construction", "range.py: immutablerangemap, ImmutableRangeMap builder"),
      ("equality, hash, pickling", "range.py: ImmutableRangeMap")])
prop("C09", "Span arithmetic agrees with the offsets a span holds",
     "A span is built exactly when its start is before its end and then holds the offsets from start "
     "inclusive to end exclusive; containment, precedence, overlap, clipping, shifting, equality, "
     "length and conversion to a range agree with that, as does the intersection, which exists exactly "
     "when the spans share an offset. The minimal enclosing span of any iterable of spans, one-shot or "
     "not, is the smallest span containing all; none have none. Sorting earliest-then-longest orders "
     "by start and then by descending length, and things that have a span delegate to it.",
     "all integer offsets, all pairs of spans, all collections of spans",
     "tests use a few small spans",
     ["span.py"],
     [("span", "span.py: Span"), ("items with spans", "span.py: HasSpan")])
prop("C10", "Span indexes return exactly the matching items",
     "Asking an index for the items at, overlapping, contained in or containing a span returns exactly "
     "the items whose spans are so related, each once; an index of disjoint spans returns the matching "
     "item or nothing where at most one can match. Building an index of disjoint spans from "
     "overlapping or repeated spans is refused.",
     "every collection of items with spans, every query span",
     "tests use one small fixed index",
     ["span.py"],
     [("overlapping index", "span.py: _OverLappingHasSpanIndex"),
      ("disjoint index", "span.py: _DisjointHasSpanIndex")])
prop("C11", "Annotated text keeps its text and nests its tags",
     "Formatting a text with annotations yields the text, complete and in order, plus one start and "
     "one end tag, at the right offsets, for each annotation lying within the text or the window shown; "
     "annotations outside are dropped whole. Tags of annotations that do not cross each other are "
     "properly nested, also when spans coincide or touch. A window whose length differs from the text "
     "is refused.",
     "texts of any length, any set of annotations, any window",
     "tests format one fixed sentence with a few annotations",
     ["annotated_text_utils.py"],
     [("formatting", "annotated_text_utils.py: HTMLStyleAnnotationFormatter.annotated_text, "
       "_clip_to_offsets_and_shift, _tag_sequence")])
prop("C12", "Windows, drops and pairs of an iterable are exact and lazy",
     "Sliding windows of a size cover consecutive elements in order, with the shorter trailing windows "
     "present only when partial windows are asked for, and sizes below one are refused. Dropping the "
     "first elements keeps exactly the rest, possibly nothing, and refuses negative counts. Lists, "
     "re-iterable collections, iterators and generators give the same answers, re-iterable inputs give "
     "re-iterable results, and no element is consumed before it is needed.",
     "inputs of every kind, elements of any value, all sizes and counts",
     "tests use a few lists",
     ["iter_utils.py", "iterutils.py", "misc_utils.py"],
     [("windows and drops", "iter_utils.py: windowed, drop"),
      ("pairs", "iterutils.py: tile_with_pairs"),
      ("flattening", "misc_utils.py: flatten_once_to_list")])
prop("C13", "only() and non-None helpers treat every element alike",
     "Asking for the only element returns that very element exactly when there is exactly one, "
     "whatever its equality, truth value or identity, and otherwise raises an error without reading "
     "far ahead. The non-None filter keeps exactly the elements that are not None, in order.",
     "inputs of every kind; elements with arbitrary equality and truth",
     "tests use small integers, whose equality hides identity mistakes",
     ["iter_utils.py", "collection_utils.py"],
     [("only", "iter_utils.py: only; collection_utils.py: get_only"), ("non_none", "iter_utils.py: non_none")])
prop("C14", "Topological sorting is exact and reports cycles",
     "Sorting a directed graph yields every node exactly once with the origin of every edge before its "
     "target, or raises the dedicated cycle error exactly when the graph has a cycle, self-loops "
     "included; an edge naming an unknown node is refused. Repeated nodes and parallel edges change "
     "nothing, sorting does not disturb the graph, and in-degrees count the edges arriving.",
     "all graphs, given in any order",
     "tests sort two or three fixed graphs",
     ["_graph.py"],
     [("sort", "_graph.py: Digraph.topological_sort"), ("degrees", "_graph.py: Digraph.in_degree")])
prop("C15", "Dotted parameter lookup finds exactly the nested value",
     "Looking up a dotted name walks the namespaces component by component: it returns the very value "
     "stored there, and otherwise fails with a parameter error, or yields the given default or nothing "
     "for the optional forms. Membership, optional lookup, namespace lookup and the exactly-one-present "
     "assertion all agree with that lookup, looking a name up relative to a namespace equals looking "
     "up the joined name, and each namespace knows its path.",
     "every parameter tree and every query string over key characters and separators",
     "tests look a few names up in fixed files",
     ["parameters.py"],
     [("lookup", "parameters.py: Parameters._private_get, __contains__, namespace, has_namespace, "
       "namespace_or_empty, optional_namespace, assert_exactly_one_present")])
prop("C16", "Typed parameter accessors return only valid values",
     "Each typed accessor (integers, positive integers, floats, booleans, strings, enumerations, lists, "
     "and the generic ones) returns the stored value exactly when it has the requested type and meets "
     "the requested range or options, and otherwise raises a parameter error. When the parameter is "
     "absent the given default is used, however falsy it is and checked likewise; with no default the "
     "optional forms give None and the others raise a parameter error.",
     "every accessor, stored value, default and range",
     "tests pick one or two values per accessor, never zero, empty or out-of-range defaults",
     ["parameters.py"],
     [("accessors", "parameters.py: Parameters.get, get_optional, integer, floating_point, boolean, "
       "string, enum, arbitrary_list and their optional and positive forms")])
prop("C17", "Unifying parameters is a right-biased deep merge",
     "Unifying two parameter sets with no null values yields exactly the parameters of both, nested "
     "namespaces merged, the second winning where both have a value, and every namespace knowing its "
     "path; a name that is a namespace on one side and a value on the other is reported as an error. "
     "Neither argument changes; unifying with nothing or with itself changes nothing, and the merge is "
     "associative wherever both ways succeed.",
     "all pairs and triples of parameter trees",
     "tests unify a few fixed files",
     ["parameters.py"],
     [("unify", "parameters.py: Parameters.unify, from_mapping")])
prop("C18", "Parameters convert losslessly between their forms",
     "A parameter set built from nested dictionaries, from dotted key-value pairs, or from a mix with "
     "ready-made parameter sets, gives back the same nested dictionaries and the same dotted pairs, "
     "without changing its input; of repeated names the last wins, and keys with separators or empty "
     "names are refused. Its immediate sub-namespaces are exactly its nested sets, whatever values "
     "they hold. Writing it out and reading it back gives the same parameters, with paths as strings "
     "and tuples as lists.",
     "all parameter trees and lists of pairs",
     "tests convert a few fixed trees",
     ["parameters.py"],
     [("conversions", "parameters.py: Parameters.from_mapping, from_key_value_pairs, as_nested_dicts, "
       "namespaced_items, sub_namespaces"),
      ("writing", "parameters.py: YAMLParametersWriter")])
prop("C19", "Loading interpolates each value exactly once from the right place",
     "A loaded parameter file is its own contents with every %name% of its string values replaced by "
     "the value of that name: from the file itself, otherwise from the including or supplied context, "
     "otherwise from the environment. Names refer to nested values by dotted path; a lone reference "
     "takes the value with its type, one within text needs a string. References are resolved "
     "transitively in any order of keys. Cycles, unknown names and non-strings within text are "
     "reported as errors; keys, lists and non-string values are left alone.",
     "every reference graph, value kind, order of keys and text of the values",
     "tests load a handful of fixed files; shadowing, chains, cycles and odd percent signs combine",
     ["parameters.py"],
     [("interpolation", "parameters.py: YAMLParametersLoader._interpolate, "
       "_check_all_keys_strings"),
      ("context lookup", "parameters.py: YAMLParametersLoader._interpolate.get_backing_off_to_context"),
      ("environment", "parameters.py: YAMLParametersLoader._inner_load_from_string")])
prop("C25", "Memory amounts parse exactly the documented texts",
     "A memory amount is parsed exactly when the text starts with digits, optionally spaces, and one "
     "of the unit letters in either case; amount and unit are what the text says. Amounts of zero are "
     "refused, however built, and anything else is an error.",
     "every text over digits, unit letters, spaces and other characters; every amount",
     "tests parse four strings",
     ["memory_amount.py"],
     [("parsing", "memory_amount.py: MemoryAmount.parse, MemoryUnit.parse")])
prop("C26", "Name and message helpers keep what they must",
     "Stripping an extension removes from the last dot on, exactly when there is one. The name of the "
     "zip file for an archive is the archive name without its tar, tgz or tar.gz extension, if any, "
     "plus the zip extension. A list shown with a limit is shown whole when it fits, otherwise its "
     "first elements and the number left out; negative limits are refused. Flattening once gives, in "
     "order, exactly the elements of the parts.",
     "every name, every list and limit",
     "tests try a few names",
     ["misc_utils.py", "scripts/tar_gz_to_zip.py"],
     [("helpers", "misc_utils.py: strip_extension, str_list_limited, flatten_once_to_list"),
      ("zip name", "scripts/tar_gz_to_zip.py: _output_name")])
prop("C28", "Precondition guards pass exactly the legal values",
     "Every argument, state, null, membership and type guard passes exactly the values it documents, "
     "returning them unchanged where it returns something, and otherwise raises its documented error "
     "with the given message; falsy values get no exception. Values paired with an id or a score "
     "refuse empty or non-string ids, missing items and non-float scores. Evaluating an expression in "
     "a context leaves the caller's context unchanged.",
     "every value of the supported kinds",
     "tests pass one good and one bad value to each guard",
     ["preconditions.py", "misc_utils.py"],
     [("guards", "preconditions.py"), ("pairs", "misc_utils.py: WithId, Scored")])
prop("C29", "Checkpoints survive exactly until reset",
     "After any history of setting, resetting and testing checkpoints, through one handle or several "
     "on the same directory, a name is reported as reached exactly when it was set since the last "
     "reset that covers it. Reopening the directory gives the same answers, resetting never touches "
     "anything outside the checkpoint directory, and names must be strings.",
     "every history of operations over legal names",
     "tests run two short histories",
     ["checkpoints.py"],
     [("checkpoints", "checkpoints.py: Checkpoints")],
     over=("histories", "inputs"),
     state=[("checkpoint directory", "one file per checkpoint reached")])
prop("C20", "Zip key-value stores read back what their sinks were given",
     "After any history of sessions of zip key-value sinks on one path (overwriting or appending, "
     "with new or re-entered sink objects, ending normally or by an exception), a zip source on that "
     "path lists exactly the keys put since the last overwrite, each once, and looks every one up to "
     "the value it was given, characters and bytes alike; other keys are absent: get gives the "
     "default, indexing raises a key error. Putting a key again is refused and changes nothing, as "
     "are nulls, values of the wrong kind, and any use outside the context manager. File name "
     "functions and key functions are applied consistently, and with unknown keys there are no items.",
     "every history of sessions and puts, every key and value (keys are non-empty, without newline, "
     "not the reserved '__keys')",
     "tests write one or two sessions of fixed keys; re-entering sinks, failing puts and appending "
     "to stores interact through state kept between sessions",
     ["key_value.py"],
     [("zip sinks and sources", "key_value.py: _ZipKeyValueSink, _ZipFileKeyValueSource"),
      ("key file", "key_value.py: _read_keys_from_keys_file, _write_keys_to_keys_file")],
     over=("histories", "inputs"),
     state=[("_keys", "keys put or found by the open sink"), ("zip file", "entries and __keys")])
prop("C21", "Key-value sources agree with themselves and what they wrap",
     "For sources over mapped files and document maps (characters or bytes), lookup, get with "
     "defaults, key set and iteration describe one mapping, the content of the named files; absent "
     "keys give the default or a key error; a key filter keeps exactly the items it accepts. An "
     "interpreted source has the wrapped source's keys with each value the function of key and "
     "value, and passes entering, leaving and failing on to the wrapped source. Errors of "
     "interpretation functions and of missing files reach the caller, and a zip source entered again "
     "describes what its file holds then. A linear source over "
     "a tar file yields exactly its regular files that pass the name filter, the key function and "
     "the key filter, in order and with their content.",
     "every key, content, filter, key function and tar layout",
     "tests use one fixed mapping or archive per kind of source",
     ["key_value.py", "io_utils.py"],
     [("mapped files", "key_value.py: _PathMappingCharKeyValueSource, _PathMappingBytesKeyValueSource"),
      ("interpretation", "key_value.py: _InterpretedKeyValueSource, InterpretedLinearKeyValueSource"),
      ("tar", "key_value.py: TarGzipBytesLinearKeyValueSource")])
prop("C22", "Even splits partition a key-value store",
     "Splitting a store into a number of slices writes that many zip stores, lists their paths in "
     "order in the slice list, puts every key with its value into exactly one slice, makes sizes "
     "differ by at most one, and does the same whenever the store and seed are the same, however "
     "the input is ordered. Non-positive numbers of slices are refused.",
     "every input store, number of slices, seed and shuffle, for zip and file-map inputs",
     "tests split one store of fixed keys once",
     ["scripts/split_key_value_store.py", "key_value.py"],
     [("even split", "scripts/split_key_value_store.py: _split_into_even_slices")],
     over=("inputs", "configurations"))
prop("C23", "Explicit splits copy exactly the listed keys",
     "Each split's output store holds exactly the keys listed in its key file with the input's "
     "values, blank lines and repetitions aside. A listed key that the input lacks is an error; keys "
     "of the input in no list are an error exactly unless exhaustiveness is switched off; asking for "
     "both kinds of split is refused.",
     "every input store, key list and placement of the exhaustiveness flag, for zip and file-map "
     "inputs",
     "tests use one exhaustive split",
     ["scripts/split_key_value_store.py", "io_utils.py"],
     [("explicit split", "scripts/split_key_value_store.py: _explicit_split"),
      ("key lists", "io_utils.py: file_lines_to_set")],
     over=("inputs", "configurations"))
prop("C24", "Joining key-value stores gives their union",
     "Joining the stores named in a list file writes a store with exactly the keys of all inputs, "
     "each with its value; a key that occurs in two inputs is an error.",
     "every list of input stores",
     "tests join two fixed stores",
     ["scripts/join_key_value_stores.py"],
     [("join", "scripts/join_key_value_stores.py: main")],
     over=("inputs", "configurations"))
prop("C27", "Document maps and line files are read back as written",
     "Writing a map from document identifiers to files gives one tab-separated line per document in "
     "the order of the identifiers, and reading it back gives the same identifiers with the absolute "
     "paths. Any other text reads as exactly its two-part lines, with white space around the parts "
     "removed, or is refused when some line does not have two parts; of repeated identifiers the last line counts. Reading a file as a set of "
     "lines gives its distinct non-empty lines in order.",
     "every identifier, path and text",
     "tests write one fixed map",
     ["io_utils.py"],
     [("document maps", "io_utils.py: write_doc_id_to_file_map, read_doc_id_to_file_map"),
      ("lines", "io_utils.py: file_lines_to_set")])
prop("C30", "Downsampling keeps the asked number of entries, reproducibly",
     "Downsampling a store writes the asked number of its entries, or all if there are fewer, each "
     "key once and with its value; the same store and seed give the same sample, the seed being 0 if "
     "none is given. Non-positive sizes are refused before anything is written.",
     "every input store, size, seed and shuffle, for zip and file-map inputs",
     "tests sample one fixed store",
     ["scripts/downsample_key_value_store.py"],
     [("sampling", "scripts/downsample_key_value_store.py: main")],
     over=("inputs", "configurations"))
prop("C31", "Parameters create exactly the objects they specify",
     "Asking for an object by parameter gives the special value named by a string, or the result of "
     "the special factory it names, or the value of the expression it is; a namespace gives its value "
     "or what its factory makes of the namespace, but not both; defaults apply when nothing is "
     "specified, the value before the factory. Classes are used through from_parameters, or "
     "constructed without arguments; qualified names and import lists make modules available. Results "
     "of another type, non-callable factories and unknown names are refused. Expressions honour "
     "context, shortcuts, expected types and defaults. The shortcuts of key-value sources and sinks "
     "('zip', 'file-map', 'directory', none) give stores of the right kind on the given path.",
     "every combination of presence, selectors, special names, factories, defaults and nesting",
     "tests pick about twenty of many thousand combinations; which default or namespace a factory "
     "gets depends on how several of them interact",
     ["parameters.py", "misc_utils.py", "key_value.py"],
     [("objects", "parameters.py: Parameters.object_from_parameters, evaluate"),
      ("evaluation", "misc_utils.py: eval_in_context_of_modules"),
      ("store shortcuts", "key_value.py: *_key_value_source_from_params, *_sink_from_params")],
     over=("inputs", "configurations"))
prop("C32", "Entry points run main with the right parameters and log level",
     "The parameters-only entry point calls the main method exactly once with the parameters of the "
     "named file, or those given by the caller, overridden by the -p options in order, dots "
     "separating namespaces; a missing or superfluous file argument, or an override that clashes "
     "with a namespace, is refused before main runs; what main raises is passed on. Configuring "
     "logging sets the root logger to the asked level, INFO by default, with one handler at that "
     "level on standard output, or leaves it to the given configuration file; unknown levels are "
     "parameter errors.",
     "every base parameters, list of overrides and their position, explicit or loaded; every level",
     "tests run three fixed command lines",
     ["parameters_only_entrypoint.py", "logging_utils.py", "parameters.py"],
     [("entry point", "parameters_only_entrypoint.py: parameters_only_entry_point"),
      ("logging", "logging_utils.py: configure_logging_from")],
     over=("inputs", "configurations"))
prop("C33", "Path lists and maps are read exactly as written",
     "A list of paths given in the parameters, or by a file with one path per line, is read in order, "
     "white space around paths, blank lines and comment lines aside, each path relative to the given "
     "base if there is one; a value that is neither a list nor an existing file is a parameter error. "
     "A map file gives each key its path the same way; a line without exactly two fields is an error.",
     "every file text and list of path strings, with and without a base path",
     "tests read one fixed list and map",
     ["parameters.py"],
     [("path lists", "parameters.py: Parameters.path_list_from_file, path_map_from_file")])
prop("C34", "Included parameter files layer in order",
     "Loading a parameter file loads its included files first, in order, each seeing what was loaded "
     "before it, and overlays them: later includes override earlier ones, the file itself overrides "
     "its includes, all override the context, and namespaces merge. References in each file see that "
     "file, then what was loaded before it, then the environment unless switched off. Relative "
     "includes are relative to the including file and refused in strings; the include list is not "
     "part of the result. A missing include, a clash of a namespace with a parameter, keys that are "
     "not strings and files that are not maps fail with an IO error, wherever in the chain they are. "
     "The context is unchanged.",
     "every content of the files, context and environment",
     "tests load two fixed sets of files; the order of layers only shows for particular overlaps",
     ["parameters.py"],
     [("loading", "parameters.py: YAMLParametersLoader.load, load_string, _inner_load_from_string"),
      ("validation", "parameters.py: YAMLParametersLoader._validate, _check_all_keys_strings")],
     over=("inputs", "configurations"))

prop("C35", "Sources provide and sinks keep exactly the given content",
     "Every character source (string, nothing, file, byte source, gzipped file, file in a tar or zip "
     "archive) provides exactly the text it stands for, decoded as asked, each time it is read: whole, "
     "in parts or as lines broken at newlines only; it is empty exactly if the text is. Byte sources "
     "do the same for bytes, reading at most as many as asked. Missing files and entries and undecodable bytes are refused. "
     "Each write to a sink (file, string, buffer) replaces what was there, what is written to one open "
     "stream is joined, parent directories are made, the sink to nowhere keeps nothing, and a sink for "
     "a zip entry leaves the other entries alone. Directories count as empty exactly if they exist "
     "without content; the lines of a file are its distinct non-blank lines in order.",
     "every text, byte string, kind of source and sink, and sequence of writes",
     "tests read a few fixed ASCII texts; codecs, line separators and repeated reads depend on content",
     ["io_utils.py"],
     [("sources", "io_utils.py: CharSource, ByteSource"), ("sinks", "io_utils.py: CharSink, ByteSink"),
      ("directories and lines", "io_utils.py: is_empty_directory, file_lines_to_set")])
prop("C36", "Tar archives convert to zip files with the same files",
     "Converting a compressed or uncompressed tar archive makes a zip file that holds exactly its "
     "regular files, in order, under their names and with their content, whether streamed or "
     "unpacked; files larger than the cutoff are left out exactly if asked for. The zip file is named "
     "after the archive with one tar extension replaced by .zip, replaces an older file of that name, "
     "and nothing else is left behind.",
     "every archive, option and file name",
     "the repository has no test of this script",
     ["scripts/tar_gz_to_zip.py"],
     [("conversion", "scripts/tar_gz_to_zip.py: main")],
     over=("inputs", "configurations"))
prop("C37", "Text at offsets is exactly the text between them",
     "For a start offset within the text and an end offset behind it but not behind the end of the "
     "text, text_at_offsets prints exactly the characters of the file from the first to before the "
     "second, counted as code points, carriage returns included; other offsets are reported.",
     "every text and pair of offsets",
     "the repository has no test of this script",
     ["scripts/text_at_offsets.py"],
     [("text at offsets", "scripts/text_at_offsets.py: main")])
prop("C38", "Directories convert to stores with one entry per file",
     "Converting a directory writes one entry per file with exactly its bytes, under the file name or "
     "the file name without its last extension as asked; two files of the same key are not merged "
     "silently in a zip store, but refused. A symbolic link to a file counts as a file. The directory is unchanged.",
     "every set of file names and contents, for zip and directory outputs",
     "the repository has no test of this script",
     ["scripts/directory_to_key_value_store.py"],
     [("conversion", "scripts/directory_to_key_value_store.py: main, key_function_from_params")],
     over=("inputs", "configurations"))
prop("C39", "Path parameters give the right path and touch nothing else",
     "Asking for a creatable file or directory by parameter gives the absolute path that the text "
     "names, with the needed directories made; an existing file or directory is given exactly if it "
     "exists as such; an empty directory is given exactly if there is none or an empty one, or if "
     "deleting was asked for, and only then its content, and nothing else, is removed. Otherwise the "
     "request is refused and nothing changes. Absent parameters and values that are not strings are "
     "refused; optional variants give None exactly for absent parameters.",
     "every path text, absolute or relative, and state of the file system around it",
     "tests try a few fixed paths; what is deleted or made depends on text and state together",
     ["parameters.py"],
     [("paths", "parameters.py: Parameters.creatable_*, existing_*, optional_*")],
     over=("inputs", "configurations"))
prop("C40", "Attribute helpers give attributes that hold what they promise",
     "An attribute restricted to a type accepts exactly its instances, and null if optional, and "
     "keeps them unchanged; absent optional attributes take the default, null unless given. A factory "
     "default is made anew for each object that is not given a value, and only then. A collection "
     "attribute holds an immutable collection with the given elements in order, independent of what "
     "was given; an optional one is empty when absent or null. A private builder belongs to one object "
     "and cannot be given by the caller. Mutable collection types are refused, and the non-empty "
     "validator refuses exactly empty values.",
     "every type, value, default and collection",
     "the repository has no test of these helpers",
     ["attrutils.py"],
     [("attributes", "attrutils.py: attrib_instance_of, attrib_opt_instance_of, attrib_factory, "
       "attrib_immutable, attrib_opt_immutable, attrib_private_immutable_builder, non_empty")])
prop("C41", "Qualified names are module and nested name, bare for built-ins",
     "The fully qualified name of a class is its module, a dot and its qualified name with the names "
     "of enclosing classes; for built-in and module-less classes it is the qualified name alone; for a "
     "module it is the name of the module. The name of an object's type is that of its class.",
     "every module and class name",
     "tests name three classes",
     ["class_utils.py"],
     [("names", "class_utils.py: fully_qualified_name, fully_qualified_name_of_type")])
prop("C42", "Directory stores keep one file per key and an index to read them",
     "After a session of a directory sink, ended normally or by an exception, the directory holds one "
     "file per key put, under the key, with exactly the last value put, and an index through which a "
     "key-value source gives exactly these keys and values. Keys that would be a file and a directory "
     "at once are refused and change nothing. A directory that is not empty, or a used sink, is "
     "refused when entered, and nothing outside the directory, or in a refused one, is touched.",
     "every sequence of puts, for characters and bytes",
     "tests write one fixed store",
     ["key_value.py", "io_utils.py"],
     [("directory sinks", "key_value.py: _DirectoryCharKeyValueSink, _DirectoryBytesKeyValueSink"),
      ("index", "io_utils.py: write_doc_id_to_file_map")],
     over=("inputs", "histories"))
TECH = "symbolic execution of the current source with Z3 deciding every branch and check; " \
    "counterexamples replayed on the plain code"
PYX = "/opt/venv/bin/python -B check.py"


def main():
    sys.path.insert(0, ROOT)
    from harness import INDEX
    import importlib

    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in sorted(P, key=lambda p: p["id"]):
        pid = p["id"]
        if pid in [n["property"] for n in NA]:
            continue
        pr = importlib.import_module("harness." + INDEX[pid]).PROPS[pid]
        note = "Holds for every value within the bounds: %s. Outside: %s." % (pr.bounds, pr.outside)
        if pr.assumptions:
            note += " Assumes: %s." % "; ".join(pr.assumptions)
        checks.append({
            "property": pid,
            "quick_cmd": "%s %s --tier quick" % (PYX, pid),
            "thorough_cmd": "%s %s --tier thorough" % (PYX, pid),
            "technique": TECH,
            "level": "model_checking",
            "level_note": note,
            "evidence_file": "evidence/%s.json" % pid,
        })
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B tools/selfcheck.py",
        "checks": checks,
        "not_applicable": NA,
        "notes": "See DESIGN.md. No hooks in /repo are needed; repairs of genuine defects are listed "
        "in known_findings.json.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
