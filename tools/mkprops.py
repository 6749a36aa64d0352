"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["lazy_type_hint/" + f for f in files], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where="lazy_type_hint/" + b) for a, b in mech], observe_at=observe, hook_needed=None)))
D = "data_type_tree/"; G = D + "generic_type/"; S = D + "simple_data_type_tree/"

p("C01", "Soundness: the data conforms to the hint generated from it",
  "For every data structure made of supported values (scalars, None, lists, tuples, sets, frozensets, dicts with any hashable keys, mapping proxies, numpy arrays, classes, instances of user classes, arbitrarily nested and mixed) and every choice of strategies whose inspection limit covers the containers, the generated hint accepts the very data it was generated from. That is, executing the generated module and checking the data against the type bound to `class_name`, every value at every depth has a type allowed at its position, every key is declared, and every key a dictionary lacks is marked as not required.",
  ["inputs", "configurations"], "all nested data structures of supported types, each under all combinations of strategies",
  "Tests compare the text for a few dozen hand-picked structures; unsound hints come from combinations (dedupe by coarse hash, merging of dictionaries whose values have different inner types, name clashes) that only arise in mixed, nested data.",
  [G+"dict_data_type_tree.py", G+"mapping_data_type_tree.py", G+"set_and_sequence_operations.py", G+"tuple_data_type_tree.py", D+"data_type_tree.py", S+"instance_data_type_tree.py"],
  [("child instantiation and dedupe", G+"set_and_sequence_operations.py"), ("equality of trees by hash", D+"data_type_tree.py"), ("TypedDict building", G+"dict_data_type_tree.py")],
  ["LazyTypeHint(strategies).from_data(data, class_name=...).to_string()"])

p("C02", "Every generated module is self-contained, importable and well-scoped",
  "For every supported data structure and every choice of strategies, generation terminates without an error and the text returned with imports included executes as a Python module on its own: it is valid Python, every name it uses is imported, a builtin or defined earlier in it, and every definition other than the last is used by a later one. Classes that are not builtins are referred to by quoted name. The module binds `class_name` as its last definition and binds no alias or class name twice (`class_name` itself not being a builtin or a name the generated file imports).",
  ["inputs", "configurations"], "all nested data structures (any hashable keys, strings that are not identifiers, unusual names, long import lines) under all strategies",
  "Tests check exact text of samples; a missing import, a clash of two derived alias names or an unescaped key appears only for particular combinations of keys, types and strategies.",
  ["utils/import_manager.py", D+"data_type_tree.py", G+"mapping_data_type_tree.py", G+"dict_data_type_tree.py", S+"function_data_type_tree.py"],
  [("import bookkeeping and formatting", "utils/import_manager.py"), ("alias naming", G+"mapping_data_type_tree.py"), ("ordering of definitions", D+"data_type_tree.py")],
  ["to_string(include_imports=True)"])

p("C03", "Precision: nothing in the hint that the data does not witness",
  "For every supported data structure, the hint claims no more than the data shows: every member of a union is the exact type of some value seen at that position (an int next to floats counts as float), `Any` stands only for positions where nothing was seen, a fixed-size tuple has exactly the data's length and element types in order. Every declared key occurs in the data and a key is marked not required exactly when some dictionary described by that hint lacks it.",
  ["inputs", "configurations"], "all nested data structures of supported types under all strategies",
  "Tests check text of a few samples; over-wide hints (lost element types, spurious NotRequired, Any for a non-empty container) need mixed nested data to appear.",
  [G+"generic_data_type_tree.py", G+"dict_data_type_tree.py", G+"set_and_sequence_operations.py", G+"tuple_data_type_tree.py"],
  [("collection of child types", G+"generic_data_type_tree.py"), ("required-key bookkeeping", G+"dict_data_type_tree.py")],
  ["to_string()"])

p("C04", "Generating and rendering a hint never changes the caller's data",
  "Generating a hint from data and rendering it any number of times leaves the data as it was: same objects, same contents and order at every depth, no attribute set on user objects, and no user object's own methods with side effects invoked beyond inspecting its type and iterating containers. Generation by `LazyTypeHint` also writes no file and leaves the global state of the interpreter (working directory, warnings filters, random state, environment, sys.path) alone.",
  ["inputs", "configurations"], "all data structures of supported types (including aliased and shared substructures) under all strategies, with repeated generation and rendering",
  "Tests look only at the returned text; none compares the data before and after.",
  ["generators/lazy_type_hint_abc.py", G+"dict_data_type_tree.py", G+"mapping_proxy_data_type_tree.py", D+"data_type_tree.py"],
  [("tree keeps a reference to the data and merges copies", G+"dict_data_type_tree.py")],
  ["the data object graph before and after", "audit events (open for writing, remove, rename, mkdir)"])

p("C05", "Determinism: same data and strategies, same text, in every process",
  "The text generated from equal data (built by the same construction, containing ordered containers) under equal strategies and class name is the same on every call: in the same process, whatever was generated before; in a different process; and under any hash seed. Two data structures differing only in the values of leaves (not in their types) give the same text.",
  ["inputs", "configurations", "histories"], "all data made of ordered containers x strategies x hash seeds x earlier calls",
  "Tests run in one process with one hash seed.",
  [G+"set_and_sequence_operations.py", G+"mapping_data_type_tree.py", D+"data_type_tree.py", "utils/import_manager.py"],
  [("ordering of children and of union members", G+"set_and_sequence_operations.py"), ("sorting of imports", "utils/import_manager.py")],
  ["to_string() in processes with different PYTHONHASHSEED"])

p("C06", "Rendering has no memory: each call returns what a fresh tree would",
  "For a returned tree, what `to_string(include_imports=...)` returns (and `to_file` writes) depends only on the arguments of that call: any sequence of earlier renderings, with any arguments, gives the same results as rendering a freshly generated tree once. Without imports, the text is the same definitions and no import statement; with imports, only import statements are added in front.",
  ["histories", "inputs"], "all sequences of to_string/to_file calls on trees of all supported data",
  "Tests call to_string once per tree.",
  [D+"data_type_tree.py", "generators/lazy_type_hint.py", "utils/utils.py"],
  [("caching of rendered strings", D+"data_type_tree.py")], ["to_string(include_imports=True/False)", "to_file"])

p("C07", "to_file writes exactly the rendered text, and only where told",
  "`to_file(path)` leaves at `path` a UTF-8 file whose content is what `to_string()` returns with imports, replacing any earlier content, under every locale, and touches no other file. If the parent directory does not exist it raises ValueError and creates nothing unless `create_non_existing_dir=True`, which creates all missing parents; an existing directory is never required to be created.",
  ["inputs", "configurations", "histories"], "all trees x path forms (str/Path, relative/absolute, nested, existing/missing parents, longer old content) x locales",
  "Tests write one ASCII file in one locale.",
  ["generators/lazy_type_hint.py"], [("to_file", "generators/lazy_type_hint.py")], ["file system before and after", "audit events"])

p("C08", "class_name is accepted exactly when it is a usable Python identifier",
  "Both tools accept a `class_name` exactly when it is a valid Python identifier that is neither a reserved keyword nor `__debug__`, and then define it under exactly that spelling. Every other string (empty, spaced, dotted, keyword, digits first, exotic numerals, path separators) is rejected with the tool's own error, and leaves no file created or changed.",
  ["inputs"], "all strings, both tools, from_data and from_yaml_file",
  "Tests try eight names.",
  ["utils/utils.py", "generators/lazy_type_hint_abc.py", "generators/lazy_type_hint_live.py"],
  [("name validation", "utils/utils.py"), ("validation before work", "generators/lazy_type_hint_abc.py")], ["from_data / from_yaml_file result or exception"])

p("C09", "Container strategies are honoured everywhere and change nothing else",
  "Each container strategy (`list_strategy`, `tuple_size_strategy`, `dict_strategy`, `typed_dict_read_only_values`) applies to every occurrence of its container at every depth of the data and to nothing else. Between two renderings of the same data that differ in one strategy the types differ only in that container's form: list or Sequence with the same element type, fixed or any-size tuple of the same elements, Dict or Mapping with the same keys and values, the same TypedDict keys with every value read-only.",
  ["inputs", "configurations"], "all data x all combinations of strategies",
  "Tests flip a strategy on single containers or small samples.",
  [G+"list_data_type_tree.py", G+"tuple_data_type_tree.py", G+"mapping_data_type_tree.py", G+"dict_data_type_tree.py", "strategies.py"],
  [("per-container rendering", G)], ["to_string() under pairs of strategies"])

p("C10", "min_height_to_define_type_alias changes layout, never meaning",
  "For all data and strategies, the type denoted by the generated `class_name` (with all aliases expanded) does not depend on `min_height_to_define_type_alias`. Raising it never adds a definition; a nested container other than a TypedDict or DataFrame gets its own alias exactly when its height exceeds the setting, while TypedDicts and `class_name` itself always have a definition.",
  ["inputs", "configurations"], "all data x strategies x heights 0..8",
  "Tests try heights 0-3 on few samples.",
  [D+"data_type_tree.py", G+"dict_data_type_tree.py", G+"generic_data_type_tree.py"],
  [("permission to create an alias", D+"data_type_tree.py"), ("inlining of right-hand sides", D+"data_type_tree.py")], ["to_string() under pairs of heights"])

p("C11", "Dictionaries in a container merge exactly when similar enough",
  "The dictionaries hinted as TypedDict among the elements of one container become a single TypedDict exactly when the share of keys common to all of them (rounded down, percent of all keys) reaches `merge_different_typed_dicts_if_similarity_above` and no key has values of different hints in two of them (int and float directly under a key count as one type, float). The merged hint has all the keys, with those missing from some of the dictionaries, and only those, not required; otherwise each distinct dictionary shape keeps a hint of its own with its own keys, all required.",
  ["inputs", "configurations"], "all collections of 1..n dictionaries with arbitrary key overlaps and value types, any element order, all thresholds 1..100, in lists, tuples and iterators",
  "Tests use pairs of small dictionaries at a few thresholds.",
  [G+"set_and_sequence_operations.py", G+"dict_data_type_tree.py"],
  [("similarity metric", G+"dict_data_type_tree.py"), ("merge", G+"set_and_sequence_operations.py")], ["to_string()"])

p("C12", "Inspection is bounded by check_max_n_elements_within_container",
  "With `check_max_n_elements_within_container=n`, at most the first n elements of any list, tuple, set, iterator, series or mapping proxy at any depth, and of any dictionary unless `dict_strategy` is TypedDict, determine the hint: the text is identical to the one generated from the data with every such container cut to its first n elements, and with fewer than n elements the setting has no effect. No more than n elements are pulled out of an iterator, so generation over an infinite iterator ends; with None every element of a finite container counts, and with the TypedDict strategy the keys of dictionaries are never cut.",
  ["inputs", "configurations"], "all data x n in 1..limits around the container sizes and None",
  "Tests check a performance bound and two sizes.",
  [G+"set_and_sequence_operations.py", G+"dict_data_type_tree.py", G+"mapping_proxy_data_type_tree.py"],
  [("element cut-off", G+"set_and_sequence_operations.py")], ["to_string()", "counts of elements pulled from proxies"])

p("C13", "Documentation text becomes the docstring intact and never affects types",
  "When a dictionary hinted as TypedDict holds a string under `key_used_as_doc`, the generated module carries that text as that type's docstring: the same words in the same order, paragraph breaks kept, whatever characters it contains (quotes, backslashes, unicode) and whether the data is given or comes from a YAML file with comments, at most capitalised and closed by a full stop (lone surrogates, which no docstring can hold, appear as their escapes); a hint that describes several dictionaries carries the text of one of them. Apart from docstrings the module is the same as without the option, the documentation key itself stays declared as a key, and non-string documentation is ignored.",
  ["inputs", "configurations"], "all documentation strings x data (also of YAML files: block, folded and quoted texts, with lines that look like comments) x strategies",
  "Tests use a few plain sentences.",
  ["utils/docstring_formatter.py", G+"dict_data_type_tree.py"], [("docstring formatting", "utils/docstring_formatter.py")], ["docstrings in to_string()"])

p("C14", "YAML comments never change the types",
  "For every YAML document and every choice of comment positions, `from_yaml_file` produces the same definitions, apart from docstrings, as `from_data(loader(path))` with the same strategies. Comments, wherever they are written, can add documentation but can never add, drop, rename or retype a key or an element, nor make generation fail.",
  ["inputs", "configurations"], "all YAML documents (block and flow style, nested lists, multi-line scalars, quoted keys, any indentation, comments in any position) x comment positions x strategies",
  "Tests use about ten fixed documents.",
  ["file_modifiers/yaml_file_modifier.py", "generators/lazy_type_hint_abc.py", G+"mapping_data_type_tree.py"],
  [("comments turned into hidden keys", "file_modifiers/yaml_file_modifier.py"), ("hidden keys skipped", G+"mapping_data_type_tree.py")], ["from_yaml_file(...).to_string() against from_data(loader(path)).to_string()"])

p("C15", "Each YAML comment documents its own key, with its words intact",
  "For block-style YAML mappings (nested to any depth, also inside lists) with plain comments in the requested positions (at the side of a key, or aligned directly above or below it), each commented key's docstring carries the words of its own comments, in the order the positions were requested, and no key carries words of another key's comment or of a comment in a position that was not requested. Keys without comments carry no docstring. A hint shared by several dictionaries carries for each key the comment of one of them that has one. (Dictionaries whose keys are not all identifiers are written in functional syntax, which has no place for key docstrings, and are exempt.)",
  ["inputs", "configurations"], "all block-style documents with ground-truth comment placement x position selections",
  "Tests use a few fixed documents.",
  ["file_modifiers/yaml_file_modifier.py", G+"dict_data_type_tree.py"],
  [("comment extraction and merging", "file_modifiers/yaml_file_modifier.py")], ["key docstrings in from_yaml_file(...).to_string()"])

p("C16", "Reading YAML leaves no trace and calls never interfere",
  "`from_yaml_file` never modifies the source file or anything near it, leaves no temporary file behind (also when the loader raises), and hands the loader only a path of the type given. Calls running at the same time, also over files with the same base name in different directories, each return what they return alone.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings of concurrent calls x loader failures",
  "Tests run one call at a time and do not look at the temporary directory.",
  ["file_modifiers/yaml_file_modifier.py", "generators/lazy_type_hint_abc.py"],
  [("temporary copy", "file_modifiers/yaml_file_modifier.py")], ["directory listings", "loader call log", "results of concurrent calls"])

p("C17", "The live tool hands back the caller's data untouched",
  "`LazyTypeHintLive.from_data` returns the very object it was given, unmodified, whatever the strategies, the registry's history or the mode. `LazyTypeHintLive.from_yaml_file` returns data equal to `loader(path)`: no key, element or value added, removed or reordered on account of comments or type hint generation.",
  ["inputs", "configurations", "histories"], "all data and YAML documents x strategies x histories of calls",
  "Tests check one or two samples.",
  ["generators/lazy_type_hint_live.py", "generators/lazy_type_hint_abc.py"], [("return value", "generators/lazy_type_hint_live.py")], ["returned object"])

p("C18", "The live registry always describes exactly the classes generated",
  "After any sequence of live calls over any class names (those the stub itself imports or defines apart), from any number of instances living at the same time and across process restarts, the stub next to the tool is valid Python and contains, for each class generated since the last reset and no other, exactly one import, one entry in the set of known classes and one overload per entry point that maps that literal class name to that class. Each class's generated module holds the definitions of the last successful call for that name.",
  ["histories", "inputs"], "all histories of (instance, class name, data, strategy, mode) calls, resets and restarts",
  "Tests use one or two classes and one instance at a time.",
  ["generators/lazy_type_hint_live.py", "file_modifiers/py_file_modifier.py"],
  [("stub editing", "generators/lazy_type_hint_live.py"), ("line-based source editing", "file_modifiers/py_file_modifier.py")],
  ["parsed stub and generated modules after each call"], [("stub file", "registry of classes as type checker overloads", "lazy_type_hint/generators/lazy_type_hint_live.pyi"), ("build directory", "one module per class", "lazy_type_hint/generators/build/")])

p("C19", "Live validation accepts exactly unchanged structures",
  "With `if_type_hint_exists=\"validate\"`, a call for an already known class succeeds exactly when the hint generated from the new data equals the stored one apart from docstrings; otherwise it raises the tool's error. A rejected call changes neither the stored module nor the stub, and a class not known yet is accepted.",
  ["histories", "inputs"], "all pairs (stored data, new data) and documentation variants, in all histories",
  "Tests check one accepted and one rejected pair.",
  ["generators/lazy_type_hint_live.py"], [("comparison without docstrings", "generators/lazy_type_hint_live.py")], ["outcome of the call", "bytes of the stored files"])

p("C20", "Reset removes all generated hints, only those, and the tool works on",
  "`LazyTypeHintLive.reset()` removes every artefact earlier calls created (stub and generated modules) and nothing else, in any state including an empty or partially deleted one, and can be repeated. After it, instances created before or after the reset behave as on a fresh installation.",
  ["histories"], "all histories of calls, resets, deletions of generated files, and instance lifetimes",
  "Tests reset between cases only.",
  ["generators/lazy_type_hint_live.py"], [("reset", "generators/lazy_type_hint_live.py")], ["package directory listing before and after"])

p("C21", "A live call interrupted at any write leaves the tool recoverable",
  "If a live call is killed or fails at any file-system operation, then afterwards the stub is absent or valid Python that describes only classes whose modules exist, all earlier classes keep their overloads, and repeating the interrupted call succeeds and gives the same files as an uninterrupted run. No later call for any class fails because of the interruption.",
  ["crash_points", "fault_sequences", "histories"], "every file-system operation of a call as crash point (process death before, in the middle of, or after it; or an I/O error), in histories of calls",
  "Tests inject no fault.",
  ["generators/lazy_type_hint_live.py"], [("order and atomicity of writes", "generators/lazy_type_hint_live.py")], ["files after the fault", "outcome of later calls"])

p("C22", "DataFrame hints give every column its own accurate type",
  "For a DataFrame whose column labels are unique and are str, int or bool (or a multi-level index of them), at any place in the data, the hint has for every column label one overload whose key literal is that label and whose result is the hint of what indexing with that label returns: a Series of the union of the element types, or a DataFrame for a multi-level column. If some label is of another type (tuples next to other labels apart: they get no overload), or with the strategy not to type columns, the hint is a plain DataFrame; frames with different columns or column types never share a hint.",
  ["inputs", "configurations"], "all frames (labels, dtypes, levels, sizes, order) x pandas strategies x placement in containers",
  "Tests use fixed frames.",
  [G+"pandas_data_frame_data_type_tree.py", G+"pandas_series_data_type_tree.py"], [("overload generation", G+"pandas_data_frame_data_type_tree.py")], ["to_string()"])

p("C23", "Callables are hinted with their own signature",
  "For a Python function or method in the data whose signature can be inspected, the hint is a protocol whose `__call__` has the same parameters (names, kinds, order, presence of defaults, annotations) and return annotation; without a return annotation it returns None if there is no return or yield in its source and Any otherwise. A lambda is a Callable with as many Any arguments as it has parameters, a builtin function or otherwise uninspectable function or method is a plain Callable, and callables with different signatures never share a hint.",
  ["inputs"], "all Python functions, lambdas, methods, static and class methods, builtins, at any place in the data",
  "Tests use about a dozen functions.",
  [S+"function_data_type_tree.py", "utils/import_manager.py"], [("signature rendering", S+"function_data_type_tree.py")], ["to_string()"])

p("C24", "Equal structures share one alias",
  "Within a container, values of the same structure are hinted by one shared definition: adding to a list, set or iterator another element whose structure is already present changes nothing in the text, and values of the same structure under different keys of a mapping refer to the same alias. Conversely values of different structure never share an alias, and no union lists the same alternative twice.",
  ["inputs", "configurations"], "all containers with repeated structures x strategies",
  "Tests have a few duplicates of small structures.",
  [G+"set_and_sequence_operations.py", G+"mapping_data_type_tree.py", D+"data_type_tree.py"], [("dedupe by tree hash", D+"data_type_tree.py"), ("shared child naming", G+"mapping_data_type_tree.py")], ["to_string()"])

p("C25", "Independent generations do not influence each other",
  "Trees generated from different data are independent: generating or rendering any of them, in any order, interleaved in one thread or running in several threads at the same time, with shared or separate tool objects and strategies, gives for each the text it gives alone. The data of one never appears in the hint of another. (Rendering one and the same tree from several threads at once is not claimed.)",
  ["schedules", "histories"], "all interleavings of generation and rendering of several trees, across threads",
  "Tests build one tree at a time.",
  [D+"data_type_tree.py", "utils/import_manager.py", "strategies.py"], [("per-tree import manager", "utils/import_manager.py"), ("iteration state kept on nodes", D+"data_type_tree.py")], ["texts from interleaved and threaded runs against serial runs"])

p("C26", "Strategies are validated on construction and immutable",
  "`ParsingStrategies` accepts exactly the documented values for each option (the listed choices, heights >= 0, similarity 1..100, element limits >= 1 or None) and raises ValueError naming the option otherwise. An accepted object reports the values given, cannot be modified, and works for every supported input.",
  ["inputs", "configurations"], "all combinations of valid and invalid option values",
  "Tests try a handful of invalid values.",
  ["strategies.py"], [("validation", "strategies.py")], ["constructor result or exception"])

p("C27", "TypedDict keys are exactly the data's keys, whatever their spelling",
  "For a dictionary hinted as TypedDict, the keys of the TypedDict that results from executing the generated module are exactly the dictionary's keys, character for character, for all strings (the tool's own prefix `___docstring_hidden_key_` apart): empty, keywords, quotes, backslashes, newlines, leading digits or underscores, unicode. Keys whose spellings are similar never lose or exchange their value types.",
  ["inputs"], "all sets of string keys x values",
  "Tests use a handful of key spellings.",
  [G+"dict_data_type_tree.py", G+"mapping_data_type_tree.py"], [("class or functional syntax", G+"dict_data_type_tree.py"), ("child naming from keys", G+"mapping_data_type_tree.py")], ["TypedDict annotations of the executed module"])

p("C28", "Type checkers read the generated hints as meant",
  "For data made of builtin containers, scalars, None, classes and instances of user classes (no empty key, and no key of a TypedDict in class syntax that is a name used in the annotation of a later key), under all strategies, pyright and mypy find no error in the generated module other than quoted names that the user has to import. Pyright accepts the data, written as a literal, as a value of the generated type. A copy of the data that differs in its structure (an object of a foreign class in the place of a value, a key less or more, an element more in a fixed-size tuple) is accepted only if it conforms to the hint.",
  ["inputs", "configurations"], "all such data x strategies x single structural changes",
  "Tests compare texts and never run a type checker.",
  [D+"data_type_tree.py", G+"dict_data_type_tree.py", G+"mapping_data_type_tree.py", "utils/import_manager.py"],
  [("rendering of types", D+"data_type_tree.py"), ("TypedDict syntax", G+"dict_data_type_tree.py")], ["diagnostics of pyright and mypy over to_string()"])

p("C29", "A type checker gives live calls the type generated for their class",
  "After any history of live calls, resets and restarts, a type checker (pyright) that reads user code gives a call of `LazyTypeHintLive.from_data` or `from_yaml_file` with a literal class name, in every way the arguments can be passed, the type that was generated by the last successful call for that class: the same type that the module `LazyTypeHint` writes for that data defines, down to its keys and elements. A call with a class name that was never generated, or only before the last reset, has the type of its data (or of what the loader returns). All other correct uses of the tool's interface pass the type checker too, and wrong ones (no class_name, an unknown mode or comment position, a method that does not exist) are reported, whatever was generated before. Class names that the stub itself imports or defines (Path, Any...) are excluded.",
  ["histories", "inputs"], "all histories of live calls x ways of calling x paths into the data",
  "Tests never run a type checker over the stub.",
  ["generators/lazy_type_hint_live.py", "file_modifiers/py_file_modifier.py"],
  [("overloads in the stub", "generators/lazy_type_hint_live.py"), ("line-based source editing", "file_modifiers/py_file_modifier.py")],
  ["types revealed by pyright"], [("stub file", "registry of classes as type checker overloads", "lazy_type_hint/generators/lazy_type_hint_live.pyi")])

p("C30", "Type checkers know the columns of hinted DataFrames, and no others",
  "For a DataFrame hinted column by column (unique labels that are str, int or bool, or a multi-level index whose first level is), at the root of the data or in dictionaries and tuples, a type checker (pyright, mypy) that reads user code gives the result of indexing with each own label, along every level, the type of the hint of that Series alone. Indexing with a literal label the frame does not have is reported under 'Full type hint'; under 'Type hint only for autocomplete' every other string is accepted; where columns are not hinted, everything is. An instance of the generated class answers its labels and lists of labels exactly as the frame does.",
  ["inputs", "configurations"], "all such frames x strategies x labels",
  "Tests compare the text of a dozen frames; three files are run through a type checker.",
  [G+"pandas_data_frame_data_type_tree.py", G+"pandas_series_data_type_tree.py"], [("overloads per column", G+"pandas_data_frame_data_type_tree.py")], ["diagnostics and types revealed by pyright and mypy", "results of indexing instances"])

p("C31", "The effort grows in proportion to the data",
  "The work done to inspect and render data grows in proportion to the number of its elements (keys, list items, columns, rows, lines and comments of a YAML document), whatever the elements look like and however similar or different they are, and at most with the square of its depth of nesting; similar dictionaries nested within each other are no exception. Elements beyond the inspection limit cost nothing. A live call takes at most work in proportion to the classes registered so far, and calling again for the same class does not become more costly.",
  ["inputs", "configurations", "histories"], "all families of growing data x strategies; all histories of live calls",
  "Tests time two containers against the inspection limit.",
  ["data_type_tree/data_type_tree.py", G+"set_and_sequence_operations.py", G+"mapping_data_type_tree.py", G+"dict_data_type_tree.py", "file_modifiers/yaml_file_modifier.py"],
  [("numbering of names", "data_type_tree/data_type_tree.py"), ("merging of dictionaries", G+"dict_data_type_tree.py"), ("limited inspection", G+"set_and_sequence_operations.py")],
  ["interpreter events counted by sys.monitoring"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
