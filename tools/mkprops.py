"""Writes /verif/properties.jsonl. Editing the list below and re-running this is
the only way that file changes."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": quant},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [
                    {"name": n, "meaning": m, "where": w} for n, m, w in (state or [])
                ],
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe or ["ttp.ttp.result"],
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "A template line matches exactly the text lines it describes",
    "A template line matches a line of input if and only if the whole input line is the template line with every variable replaced by a string of that variable's pattern: leading whitespace must be identical, a run of blanks between words matches any non-empty run of spaces or tabs (exactly those blanks under _exact_space_), a run of digits matches any run of digits (exactly those digits under _exact_), all other characters match only themselves, and trailing blanks or a carriage return are ignored. "
    "When it matches, each variable holds the text standing at its place; {{ ignore }} consumes its pattern and reports nothing.",
    ["inputs", "programs"],
    "every template line over a small alphabet of literals, digits, blanks, regex metacharacters and variables, against every text line of bounded length over a matching alphabet, at every position of the input",
    "existing tests parse some fixed device outputs; they never enumerate near misses (one more blank, another indent, a longer suffix), so an over- or under-matching regular expression goes unnoticed",
    ["ttp/ttp.py", "ttp/patterns/get_pattern.py"],
    [("form_regex", "ttp/ttp.py _variable_class.form_regex"), ("check_matches", "ttp/ttp.py _parser_class.parse")],
)
prop(
    "C02",
    "Matched lines are assembled into the records they belong to",
    "Scanning the input top to bottom, a line matching a group's start pattern opens a new record of that group (inside the currently open record of its parent, for a nested group) and closes the records it supersedes; every other matched line contributes its values to the currently open record of its own group, also after nested groups were collected in between (a value a variable has already being kept). "
    "No record is lost, duplicated, reordered or given a value from a line outside its extent; lines matching nothing have no effect; lines of a group that is not open (before its start, or after its _end_ line until it starts again) contribute nothing.",
    ["inputs", "histories"],
    "every sequence, up to the stated length, of lines drawn from the lines a template describes plus noise, for a set of templates covering one to three nesting levels, sibling groups, several start lines, _start_, _end_, and method=table",
    "tests fix a few dozen inputs; the assembly is a state machine over the match stream and breaks on orders of lines the tests do not contain",
    ["ttp/ttp.py"],
    [("run_re / check_matches", "ttp/ttp.py _parser_class.parse"), ("make_results, start, add, end, save_curelements", "ttp/ttp.py _results_class")],
    state=[("record / started_groups / ended_groups", "the open record and the open and ended groups", "ttp/ttp.py _results_class")],
)
prop(
    "C03",
    "Group name attributes place records at their path in the results",
    "Each record is stored under the path its group name spells - items separated by dots or the template's pathchar -, a nested group's name being relative to its parent's path unless it starts with '/'; the first record at a path is stored as a dictionary and turns into a list, in input order, when a second arrives, a '*' suffix makes the item hold a list from the first record on and '**' makes it hold a dictionary that later records update, '_' merges the record into its parent (with '**' values already there win), and groups without name come back as one list per input, a template without any group tag as the record itself when there is just one. "
    "Children are attached to the most recent record of their parent, and records of different groups never overwrite each other.",
    ["inputs", "programs"],
    "every name/suffix combination from the stated alphabet for one- and two-level templates, against every sequence of start/child lines up to the stated length",
    "the tests use specific names with specific data; placement depends on the history of records already stored along the path",
    ["ttp/ttp.py"],
    [("dict_by_path, list_to_dict_fwd, value_to_list, save_curelements", "ttp/ttp.py _results_class"), ("extract_name, set_anonymous_path", "ttp/ttp.py _group_class"), ("form_results", "ttp/ttp.py _template_class")],
)
prop(
    "C04",
    "Dynamic path items are replaced by the record's own values",
    "A {{ name }} item in a group name is replaced by that record's value of name, which is then absent from the record; if the record has none, by the value last used for that name in this input, then by the template variable of that name, and if none exists the record is not saved. "
    "Any matched text is usable as a key verbatim (dots, stars, backslashes included; '_' has its own meaning), equal keys accumulate under one key, and keys become integers only when the parser was created with dynamic_path_key_to_int.",
    ["inputs", "programs"],
    "every sequence of records over a small alphabet of key values including special characters, for each path shape listed (leading, middle and last item, two dynamic items, nested groups inheriting a key, path formatters, missing keys, template variables as keys)",
    "tests use benign interface names and one order of lines; the cache of keys makes the result depend on history",
    ["ttp/ttp.py"],
    [("form_path, processgrp", "ttp/ttp.py _results_class")],
    state=[("dyn_path_cache", "last dynamic path values", "ttp/ttp.py _results_class")],
)
prop(
    "C05",
    "Defaults and unconditional set fill exactly what was not matched",
    "Every saved record of a group contains each variable that has a default - or that an unconditional {{ name | set(...) }} defines - with the matched value if the line matched in that record and the default otherwise, and default values of one record, group or input are never visible in another; a top level group whose start line has defaults yields one record of defaults when it is not found in an input at all. "
    "A {{ name | set(value) }} attached to a line without other variables sets the value in the records that contain that line and in no other, and a name of a template variable or of a recorded variable given as value is replaced by that variable's value.",
    ["inputs", "programs"],
    "every subset and order of matching lines up to the stated length, for templates with defaults on start and normal lines, group default attributes, dictionary/list defaults, conditional and unconditional set, over one and two inputs",
    "tests show single examples; the property quantifies over which lines are missing in which record and what earlier records left behind",
    ["ttp/ttp.py", "ttp/match/set_.py"],
    [("set_runs, update_runs", "ttp/ttp.py _group_class"), ("processgrp", "ttp/ttp.py _results_class"), ("extract_default, extract_set", "ttp/ttp.py _variable_class")],
)
prop(
    "C06",
    "Repeated and free-form lines are joined completely and in order",
    "A variable with joinmatches holds all its matches within the record, in input order: strings joined with that variable's own separator or the default newline, lists concatenated, other values collected into a list; a repeated variable without joinmatches keeps its first match. "
    "A _line_ variable sees every line between its group's start and the group's end that no other line of that top level group's template claims, and no line that one claims.",
    ["inputs"],
    "every sequence up to the stated length of claimed, repeated, unclaimed, start, end and nested lines, for string, list and integer valued variables and several separators",
    "tests check single cases; loss, duplication and reordering of joined values depend on interleaving with other lines",
    ["ttp/ttp.py", "ttp/match/joinmatches.py"],
    [("join", "ttp/ttp.py _results_class"), ("make_results priorities", "ttp/ttp.py _results_class")],
)
prop(
    "C07",
    "Match variable functions run left to right and any failed check drops the match",
    "The functions of a match variable - listed inline, by chain() of a template variable, or as methods of the value - apply one after another in the order written, each to the value the previous one returned; if any check among them is false the line's match is discarded: the variable is not saved, the functions after it do not run, and when the line starts a group the whole record with all its lines and nested groups is dropped until the group starts again. "
    "New fields produced by functions (let, copy, macro, lookup) under names of their own are saved beside the variable. A method or attribute of the value used as a function replaces the value with what it gives, a falsy result too, and only True or False counts as a check; raise ends parsing with its message when, and only when, the pipeline reaches it.",
    ["inputs", "programs"],
    "every pipeline up to the stated length over a set of non-commuting transforms, checks and field-adding functions, applied to every value of a small domain at a start line, a normal line and in a nested group",
    "tests cover individual functions; the order, the short circuit and their effect on records are combinations",
    ["ttp/ttp.py", "ttp/match/string.py", "ttp/match/macro.py", "ttp/match/let.py", "ttp/match/copy_.py"],
    [("check_matches", "ttp/ttp.py _parser_class.parse"), ("extract_chain, extract_functions", "ttp/ttp.py _variable_class"), ("get_attributes", "ttp/utils/get_attributes.py")],
)
prop(
    "C08",
    "Group functions run in order and decide whether and how a record is saved",
    "Group functions run on each completed record - defaults included, before it is placed - in the order they are written, whichever way they are given (attributes, functions, chain), each on what the previous one returned, until one rejects it. "
    "A record is saved if and only if none of its checks (contains, containsall, exclude, excludeall, contains_val, exclude_val, equal, void, macro, cerberus, ...) rejects it, and it is saved exactly as the transforms (del, set, to_int, to_ip, validate, sformat, items2dict, expand, itemize, lookup, macro, ...) left it; a rejected record leaves no trace of itself and does not disturb its neighbours (records of its nested groups are decided by their own functions).",
    ["inputs", "programs"],
    "every ordered pair and triple of group functions from the alphabet, over every combination of present, absent and defaulted variables, with accepted and rejected records interleaved",
    "tests exercise one function with one input; interplay with defaults, order, neighbours and the last record of the input is combinatorial",
    ["ttp/ttp.py", "ttp/group/contains.py", "ttp/group/containsall.py", "ttp/group/exclude.py", "ttp/group/excludeall.py", "ttp/group/macro.py", "ttp/group/itemize.py"],
    [("processgrp", "ttp/ttp.py _results_class"), ("extract_chain, extract_functions", "ttp/ttp.py _group_class")],
)
prop(
    "C09",
    "Built-in match functions compute what they document for every value",
    "For every value and argument of their domain the string, comparison, regex, list, numeric, range, IP, MAC, uptime and conversion functions return the value or verdict their documentation gives (for example unrange lists every number of every range once and in order, to_cidr counts the mask bits, cidr_match is true exactly for addresses within the prefix, mac_eui renders the same twelve digits, uptimeparse is the sum of its units). "
    "A value outside the domain of to_int, to_float, to_cidr, ip_info, cidr_match, unrange, mac_eui or uptimeparse is returned unchanged, without an error reaching the caller.",
    ["inputs"],
    "all values of small enumerated domains for each function (all 33 masks, all range lists of bounded length, all short strings over a small alphabet, ...), compared with independently written reference functions",
    "tests check one or two values for each function",
    ["ttp/match/string.py", "ttp/match/re_.py", "ttp/match/unrange.py", "ttp/match/ip.py", "ttp/match/mac_eui.py", "ttp/match/uptimeparse.py", "ttp/match/to.py", "ttp/match/item.py"],
    [("match functions", "ttp/match/*.py")],
)
prop(
    "C10",
    "Macro return values decide the outcome in every place a macro may be used",
    "In match variables, groups and inputs a macro returning True or None keeps the data as it was, False rejects the match or the record (for an input: stops the chain, the data so far being parsed), any other value replaces the data; for outputs None keeps the results and other data replaces them; for match variables a (value, dictionary) pair also adds the dictionary's fields; macros of a chain run in order on the result of the previous one. "
    "A macro is visible only in the template that defines it (and its own name resolves to the last definition in that template), functions within one macro tag can call each other, and functions added with add_function behave the same way in their scope.",
    ["inputs", "programs"],
    "every sequence of macros up to the stated length from the set of all return kinds, in every macro-capable place, with one and two templates",
    "tests use single macros returning one kind",
    ["ttp/match/macro.py", "ttp/group/macro.py", "ttp/input/macro.py", "ttp/output/macro.py", "ttp/ttp.py"],
    [("macro functions", "ttp/*/macro.py"), ("parse_macro", "ttp/ttp.py _template_class"), ("add_function", "ttp/ttp.py ttp")],
)
prop(
    "C11",
    "Lookups return the table's value for exactly the matching keys",
    "lookup replaces a value (or adds the field named by add_field) with the entry whose key equals it, rlookup with the entry of the first key contained in it, gpvlookup with the list of keys having a glob pattern matching it (the first such key, or all under multimatch), the table being addressed by its dotted path in a lookup tag, in add_lookup data or in another template's or group's results; a value without an entry is left unchanged and gets no field. "
    "geoip_lookup reports what the named database holds for the address, and leaves everything else alone. Lookup tables themselves are never modified by parsing.",
    ["inputs", "programs"],
    "all small tables over a two-letter key alphabet in every loader format, all values of bounded length, each directive, for match and group lookups",
    "tests contain one table for each function; near misses (prefix keys, order, nested path, missing path) are not covered",
    ["ttp/match/lookup.py", "ttp/group/lookup.py", "ttp/ttp.py", "ttp/utils/loaders.py"],
    [("lookup, rlookup, gpvlookup", "ttp/match/lookup.py"), ("group lookup", "ttp/group/lookup.py"), ("add_lookup, parse_lookup", "ttp/ttp.py")],
)
prop(
    "C12",
    "Inputs are parsed independently of each other",
    "With per_input results, what a template produces for one input item depends only on that item's text and the template: it equals the result of parsing that item alone, whatever other items are parsed before or after it and in whatever order. "
    "The only data carried from one item to later ones is what record, count and the like explicitly write as global variables, and that is visible in later items in parsing order and never overrides the item's own value; template variables and getters are evaluated afresh for each item, and a new parse of the same parser sees no leftovers except those globals.",
    ["inputs", "histories"],
    "every sequence of up to four items drawn from a set of texts chosen to leave state behind (open groups, defaults, recorded variables, dynamic path keys, lists, failed starts), for a set of templates using every state-carrying feature",
    "tests parse one or two inputs in one order",
    ["ttp/ttp.py", "ttp/match/record.py", "ttp/match/count.py", "ttp/group/record.py", "ttp/match/set_.py", "ttp/group/set_.py"],
    [("set_data, set_runs", "ttp/ttp.py"), ("global_vars", "ttp/ttp.py lazy_import_functions")],
)
prop(
    "C13",
    "Each input is parsed by exactly the groups associated with it",
    "An input is parsed by the groups that name it in their input attribute; if none does, by the groups its own groups attribute lists by name, or by every group when it lists none or all - in both cases only by groups that have no input attribute, so a group naming inputs never runs on any other input. Inputs of the same name are combined: their items together, each once, are parsed by the union of their groups. "
    "Groups produce their results in template order, each group once per input item, and association does not depend on the order of tags in the template.",
    ["configurations", "programs"],
    "all assignments of input attributes to up to three groups and of groups attributes to up to three inputs, over all orders of the tags",
    "tests show four or five hand written association examples",
    ["ttp/ttp.py"],
    [("extract_groups, load_data", "ttp/ttp.py _input_class"), ("update_inputs_with_groups, update_input", "ttp/ttp.py _template_class")],
)
prop(
    "C14",
    "Result structures hold the same results, complete and in order",
    "result() returns, for the templates asked for, the same per-item results in template and input order, whichever structure is chosen: a list with one entry per template, a dictionary keyed by the names of the named templates, or one flat list with every record once; per_template mode returns one structure that holds all items' results joined as if their texts had been concatenated record by record. "
    "Asking for results is free of side effects: repeated calls return equal values, and formatting or post-processing requested through result() arguments applies to that call only.",
    ["configurations", "histories"],
    "all combinations of up to three templates (named, unnamed, equal names, nested in template tags, anonymous groups, empty results, per_template) with up to three inputs, every structure, every template filter, every sequence of result() calls up to the stated length",
    "tests look at one structure for one template at a time",
    ["ttp/ttp.py"],
    [("result", "ttp/ttp.py ttp.result"), ("form_results", "ttp/ttp.py _template_class")],
)
prop(
    "C15",
    "Outputs run in template order, each on the result of the previous one",
    "The outputs of a template run once per parse in the order they are defined, each receiving what the previous one returned; within one output functions run first in the order written, then the formatter, then every returner listed, and an output with a false condition changes nothing. "
    "An output named by a group's output attribute processes that group's results only, without affecting the results of other groups, and is not run on the template's results.",
    ["programs", "configurations"],
    "all sequences of up to three outputs over an alphabet of macros, functions, formatters, conditions and returners, with every assignment of outputs to up to three groups",
    "tests define one output or two in a fixed order",
    ["ttp/ttp.py", "ttp/output/macro.py", "ttp/output/transform.py", "ttp/returners/self_returner.py", "ttp/returners/file_returner.py"],
    [("run", "ttp/ttp.py _outputter_class.run"), ("run_outputs, update_groups_with_outputs", "ttp/ttp.py _template_class")],
)
prop(
    "C16",
    "Formatters render results faithfully",
    "json, yaml and pprint output loads back to exactly the results; csv and table output contain exactly one row for every record at the given path, in order, with each value under the header of its own key, missing values rendered as the configured placeholder, header selection, renaming, sorting and key columns changing only what they say. "
    "Values containing separators, quotes, newlines or non-ASCII characters survive; n2g gives the diagram the N2G library draws from the records at the path of every result, with the options named; jinja2 renders the text of the output tag with the results as _data_, lines of block tags or comments alone leaving nothing behind; and formatting never changes the parsed results.",
    ["inputs", "configurations"],
    "all result structures up to the stated depth and width over a value alphabet with separators, quotes, blanks and unicode, for each formatter and each combination of its options",
    "tests render one result for each formatter",
    ["ttp/formatters/csv_formatter.py", "ttp/formatters/table_formatter.py", "ttp/formatters/json_formatter.py", "ttp/formatters/yaml_formatter.py", "ttp/formatters/tabulate_formatter.py", "ttp/formatters/excel_formatter.py"],
    [("formatters", "ttp/formatters/*.py")],
)
prop(
    "C17",
    "Multi-process parsing gives the single-process results under every schedule",
    "parse(multi=True) produces, for every assignment of items to worker processes and every order in which their results arrive, the same results in the same input order as parse(one=True), including macros, functions added with add_function, lookups, variables and key conversion, as long as no item uses what another item recorded (record, lookups in results of its own template) and results are collected per input; parse() without arguments gives these results as well for any amount of data and for per_template results too.",
    ["schedules"],
    "all assignments of up to four items to up to three workers and all arrival orders of results, for templates exercising each feature",
    "tests run with the operating system's schedule only, one item at a time in effect, and cannot choose the order of completion",
    ["ttp/ttp.py"],
    [("__parse_in_multiprocess", "ttp/ttp.py ttp"), ("_worker.run", "ttp/ttp.py _worker")],
    state=[("tasks / results_queue", "work handed out and results handed back", "ttp/ttp.py")],
)
prop(
    "C18",
    "Multi-process parsing always terminates and reports a failing item",
    "parse(multi=True) returns or raises after finitely many steps under every schedule and for any number of items and workers, zero included; if parsing an item raises an error or a worker process dies, the caller receives an error - for the former the one single-process mode gives - instead of waiting forever or silently missing results, and no worker is left running.",
    ["schedules", "fault_sequences"],
    "every subset of failing items among up to four, at each place a failure can occur (match function, macro, input function, unreadable file), under all assignments of items to up to three workers and all arrival orders",
    "tests never make a worker fail and cannot steer the schedule",
    ["ttp/ttp.py"],
    [("__parse_in_multiprocess", "ttp/ttp.py ttp"), ("_worker.run", "ttp/ttp.py _worker")],
)
prop(
    "C19",
    "Parser objects in one process do not influence each other",
    "For any interleaving of calls on several ttp objects living in one process, each object behaves as if it were the only one: its variables, lookups, macros, added functions, inputs, recorded globals and results are its own.",
    ["histories", "schedules"],
    "all interleavings of the construct/add/parse/parse-again/result call sequences of two parsers whose templates use the same functions with different variables, lookups, macros and defaults, also when one parser runs inside a macro of the other",
    "tests create parsers one after the other and never return to an earlier one after using a later one",
    ["ttp/ttp.py", "ttp/match/record.py", "ttp/match/lookup.py"],
    [("CachedModule.load", "ttp/ttp.py CachedModule")],
    state=[("module level _ttp_", "what plugin functions use to reach their parser", "ttp/ttp.py CachedModule.load")],
)
prop(
    "C20",
    "Any sequence of parser calls leaves the parser in the documented state",
    "For every sequence of add_template, add_input, set_input, clear_input, add_vars, add_lookup, parse, result and clear_result calls the results are those of the documented model: inputs accumulate per template and input name and are replaced or removed only by set_input and clear_input, parse appends the results of all current inputs to the results already present (per_template mode: replaces them), clear_result empties them (for the named templates only), variables and lookups added take effect for later parses, equal data given twice to one input counts once, and results obtained earlier do not change. "
    "Nothing the caller passed in - text, vars, lookups, groups lists, filter lists - is modified.",
    ["histories"],
    "all call sequences up to the stated depth over two templates, two input names and two texts, explored with state merging on the model",
    "tests contain a handful of linear scripts",
    ["ttp/ttp.py"],
    [("add_input, set_input, clear_input, clear_result, add_vars, add_lookup, parse", "ttp/ttp.py ttp"), ("update_input", "ttp/ttp.py _template_class")],
)
prop(
    "C21",
    "Extending a template equals writing its content in place",
    "A template with extend tags produces the same results as the template in which each tag is replaced by the content of the file it refers to, at that position, at top level or inside a group, nested extends included; with filters (inputs, groups - by name or by index -, vars, lookups, outputs) exactly the named elements of each filtered kind and all elements of the other kinds are included, inside a group only groups are, extend tags of the extended file are never filtered away, and with a macro attribute exactly the text the macro returns. "
    "Loading a template by path, file object, TTP_TEMPLATES_DIR or ttp:// reference is equivalent to passing its text, loading a directory to loading its files one by one in order of names.",
    ["programs", "configurations"],
    "all placements of up to three extend tags over templates assembled from a set of elements, all filter combinations, nesting to depth three, all loading routes, all directories of up to three files",
    "tests extend a few fixed templates",
    ["ttp/ttp.py"],
    [("handle_extend, filter_extend", "ttp/ttp.py _template_class")],
)
prop(
    "C22",
    "The function cache never changes behaviour, whatever state its file is in",
    "Creating and using a parser gives the same results whether the cache file is absent, complete, of another version, truncated at any point, with blocks lost, overwritten with content that is no cache of this version, being written by another starting process, unreadable, unwritable or in a missing folder; a damaged cache is rebuilt, and no state of a parser ever reaches another process or a later parser through it.",
    ["crash_points", "fault_sequences", "schedules"],
    "every prefix of a cache write (crash point), all single and pairs of blocks lost, every kind of foreign content from the list, every I/O error and a crash at each file operation and pair of operations, all interleavings (bounded preemptions) of the file operations of two and three starting processes",
    "tests run with one intact cache",
    ["ttp/ttp.py"],
    [("lazy_import_functions", "ttp/ttp.py")],
    state=[("ttp_dict_cache.pickle", "pickled index of plugin functions", "TTPCACHEFOLDER or the package folder")],
)
prop(
    "C23",
    "Tag content loads to the same structure in every supported format",
    "Variables, lookups, input and output parameters given as python, yaml, json, ini or csv text - in place, in an included file, or through add_lookup - load to the structure that text denotes, with the csv key column selecting the key, and a template behaves the same whichever equivalent notation is used. "
    "The text of a tag is followed by the files its include attribute names, in the order of their names, a key given again replacing its value (ini files come before the text). Text that cannot be loaded never corrupts other tags of the template.",
    ["inputs", "programs"],
    "all structures up to the stated size representable in each format, serialised by an independent writer, in every tag that loads text",
    "tests load one or two fixed texts for each loader",
    ["ttp/utils/loaders.py", "ttp/ttp.py"],
    [("load_struct and loaders", "ttp/utils/loaders.py"), ("parse_vars, parse_lookup, load_data", "ttp/ttp.py")],
)
prop(
    "C24",
    "_headers_ tables cut every row at the header's column positions",
    "For a {{ _headers_ }} line each text row long enough to reach the mandatory columns yields one record whose values are the row's text between the header's column positions with surrounding blanks removed, empty columns being empty strings; rows too short to reach the last mandatory column (all but two, at least one, or as many as columns says) yield no record and neither do header rows, those in which a column holds just its header.",
    ["inputs", "programs"],
    "all header layouts of one to four columns of bounded width and indentation, all values of columns, all rows over small alphabets up to the header's width plus overhang",
    "tests contain a few real tables",
    ["ttp/ttp.py"],
    [("regex_headers", "ttp/ttp.py _variable_class.form_regex")],
)
prop(
    "C25",
    "Every way of supplying data or running TTP gives the same result",
    "The same text gives the same results whether passed as a string, a file path, a file object, a directory (all its files, in order), an input tag with text, or an input tag with url (filtered by extensions and filters, joined with base_path), to ttp(), add_input, set_input, quick_parse or the command line tool; get_input_load returns for each template and input the parameters loaded from its tag. "
    "LF or CRLF line endings (also mixed) and a missing final newline make no difference. (Texts are not empty, and an identical text given twice to one input counts once.)",
    ["inputs", "configurations"],
    "all combinations of supply routes, line ending conventions and directory contents up to three files, extension and regex filters included",
    "tests use one route for each template",
    ["ttp/utils/loaders.py", "ttp/utils/quick_parse.py", "ttp/ttp.py"],
    [("load_files", "ttp/utils/loaders.py"), ("add_input", "ttp/ttp.py"), ("cli_tool", "ttp/ttp.py"), ("quick_parse", "ttp/utils/quick_parse.py")],
)
prop(
    "C26",
    "Built-in patterns accept exactly the strings they document",
    "A variable with a built-in pattern matches a text if and only if the text is of the documented form: WORD and the default any run of non-blanks, PHRASE at least two words separated by single blanks, ORPHRASE one or more, _line_ and ROW as documented, DIGIT decimal digits, IP and PREFIX four groups of one to three digits (and a slash and one or two digits), MAC six pairs or three quads of hexadecimal digits with separators from . : -, IPV6 and PREFIXV6 every valid IPv6 address (and a slash and one to three digits) and nothing that is not made of up to eight hexadecimal groups and colons. "
    "A re() argument, a template variable naming a pattern and several patterns on one variable match the union of what each matches.",
    ["inputs"],
    "all strings up to the stated length over alphabets fitted to each pattern, each compared with an independent recogniser",
    "tests match well formed values only",
    ["ttp/patterns/get_pattern.py", "ttp/ttp.py"],
    [("get", "ttp/patterns/get_pattern.py"), ("extract_re", "ttp/ttp.py _variable_class")],
)
prop(
    "C27",
    "Output functions transform and validate without losing or altering results",
    "traverse, dict_to_list, is_equal, validate (cerberus), validate_yangson, deepdiff and macro outputs return exactly what their documentation defines for the results they are given: traverse the value at the path, item by item for lists; dict_to_list one record per key, no key or record lost; is_equal, validate and validate_yangson report true exactly when the data agrees with the reference, the schema or the modules given to that call, within the scope and content type asked for; deepdiff no difference exactly when both sides are equal. Functions of one output run in the order written, each on what the previous one returned, and results the functions do not address stay as they were.",
    ["inputs", "configurations"],
    "all result structures up to the stated depth over a small alphabet, for every argument combination of each function",
    "tests run each function on one result",
    ["ttp/output/transform.py", "ttp/output/is_equal.py", "ttp/output/validate_cerberus.py", "ttp/output/deepdiffer.py"],
    [("output functions", "ttp/output/*.py")],
)
prop(
    "C28",
    "Template variables and getters are resolved and reported as declared",
    "A template variable holds, while an item is parsed, the last value it was given: by ttp(vars=) or add_vars before the template is loaded, then by the template's vars tags in order, then by add_vars after that; a value that names a getter (gethostname, getfilename, time functions) is replaced with what the getter computes from the current item (the host name in the item's prompts, the item's file name, an instant while it is parsed), the variable being absent when nothing is found. "
    "set, dynamic paths, group functions and string functions see that value; patterns, arguments of match functions and default attributes the one known when the template is loaded. A vars tag with a name saves exactly its variables, at that path, in the results of every item that produced matches.",
    ["inputs", "configurations"],
    "all histories of declaring, overriding and parsing up to the stated length, all reference places, all small sets of named vars tags, prompts of every documented vendor format at every line of a short text, all schedules of the system clock's advance between readings",
    "tests use one prompt or one source at a time",
    ["ttp/ttp.py", "ttp/variable/gethostname.py", "ttp/variable/getfilename.py", "ttp/variable/time_funcs.py"],
    [("get_var_functions, parse_vars", "ttp/ttp.py _template_class"), ("run_var_functions, save_vars", "ttp/ttp.py")],
)

prop(
    "C29",
    "Functions receive exactly the arguments written in the template",
    "A function written in a template, in any place that takes functions (match variables, group, input and output tags, one attribute per function, the functions attribute or a chain variable), is called in the order written with exactly the positional and keyword arguments given in the parentheses: quoted strings mean what they mean in Python, numbers, lists, tuples and dictionaries arrive as such values, true, false and none in any letter case as the constants, an unquoted word as that word, and no argument is lost, merged, split or altered whatever commas, brackets, quotes or escapes the strings contain.",
    ["inputs", "programs"],
    "every argument list of a small grammar over the stated alphabet of literals (strings up to the stated length over all punctuation, quotes and escapes), in every place that takes functions and every spelling of that place",
    "tests use a few harmless arguments; an argument parser fails on particular characters in particular places",
    ["ttp/utils/get_attributes.py", "ttp/ttp.py"],
    [("get_attributes", "ttp/utils/get_attributes.py get_attributes"), ("get_attributes of variables, groups, inputs and outputs", "ttp/ttp.py _variable_class, _group_class, _input_class, _outputter_class"), ("add_function", "ttp/ttp.py ttp.add_function")],
)
prop(
    "C30",
    "All equivalent ways of writing a template give the same results",
    "Results depend on what a template says, not on its notation: another documented name or letter case of a tag (group, g, grp; vars, v; input, i, in; output, o, out), wrapping in a template tag, the order of different kinds of tags and of attributes, doc and empty tags, XML comments, '##' comments, blank lines, white space between tags, at line ends and inside curly brackets or around '|', line end convention, CDATA or entities, quote characters, an explicit _start_ on the first line, functions given as attributes, as one functions attribute or as a chain, and the way the template is supplied (text, path, file object, constructor or add_template), or the log level, never change what is parsed.",
    ["inputs", "programs"],
    "every set, up to the stated size, of meaning-preserving rewritings with all their variants, applied to every base template",
    "each test is written in one notation; combinations of notations are never compared",
    ["ttp/ttp.py", "ttp/utils/get_attributes.py", "ttp/utils/loaders.py"],
    [("load_template_xml", "ttp/ttp.py _template_class.load_template_xml"), ("get_regexes", "ttp/ttp.py _group_class.get_regexes"), ("get_attributes", "ttp/ttp.py"), ("load_files", "ttp/utils/loaders.py load_files")],
)

prop(
    "C31",
    "Returners deliver complete results to exactly the places named",
    "Whatever the results, options and history: the syslog returner sends every non-empty item found at path, one message each when the item is iterated list, exactly once, in order, with the given facility, to each of its servers and to no other, also when a server cannot be reached, an item has nothing at path, or other parsers send at the same time in other threads; the file returner leaves the formatted results, all of them and nothing else, in the file whose folder, name, variables and time it was given, creating folders as needed, and touches no other file; the terminal returner prints the results, and colouring changes no visible character and colours just the listed words; results given back to the caller do not change.",
    ["inputs", "schedules", "histories", "configurations"],
    "all small sequences of inputs x groups x options of each returner, all interleavings of two sending threads at every wait, send, creation and end of a handler, all small texts over words to colour",
    "the repository's tests send to no server, write one or two files and never colour; interleavings are not tested at all",
    ["ttp/returners/syslog_returner.py", "ttp/returners/file_returner.py", "ttp/returners/terminal_returner.py", "ttp/returners/self_returner.py", "ttp/ttp.py"],
    [("syslog", "ttp/returners/syslog_returner.py"), ("file_returner", "ttp/returners/file_returner.py"), ("terminal_returner", "ttp/returners/terminal_returner.py"), ("run", "ttp/ttp.py _outputter_class.run")],
    observe=["datagrams at loopback UDP servers", "files in a scratch folder", "standard output"],
)
prop(
    "C32",
    "DNS lookups replace or enrich a match, or leave it alone",
    "dns and rdns ask for exactly the record of the matched value, within the stated timeout, from the servers given to that very function or, without servers, from those the machine is configured with, whatever was looked up before, in this parser or another, and however it ended. An answer replaces the match (dns: sorted list of records, rdns: the name without its trailing dot) or is stored under add_field; whatever way a lookup fails, the match is reported unmodified and parsing goes on.",
    ["inputs", "histories"],
    "all histories of lookups up to the stated length, of eight kinds, with every outcome of each (answers in all orders, eight kinds of failure), in one text, a text each or two parsers by turns; unusual values of all kinds",
    "tests need a network, so they are not even run; failures and their after-effects are untested",
    ["ttp/match/dns_lookups.py"],
    [("dns_forward, dns_reverse", "ttp/match/dns_lookups.py")],
)
prop(
    "C33",
    "extract_commands keeps the output of the commands named and nothing else",
    "Of a text made of device prompts, commands and their outputs, the input function extract_commands leaves, in the order the commands are listed, all lines of the output of each listed command that is in the text and no line of any other, whatever the form of the prompt, the characters of host name and command, the place of the command in the text, an output that is empty or mentions host names and commands, and the way the function is written.",
    ["inputs", "configurations"],
    "all sequences of up to the stated number of command blocks over prompt forms, host names, commands and outputs resembling each other, with all ordered lists of commands, line ends and notations",
    "no test uses the function",
    ["ttp/input/commands.py", "ttp/variable/gethostname.py", "ttp/ttp.py"],
    [("extract_commands", "ttp/input/commands.py"), ("set_data", "ttp/ttp.py _parser_class"), ("get_attributes", "ttp/ttp.py _input_class")],
)

prop(
    "C34",
    "Functions added with add_function behave as documented in every scope",
    "A function added with add_function is used wherever its name is written in its scope, and only there: under a new name or in place of a built-in function of that name, in attributes, functions lists and chains alike, in this parser's templates loaded after, the last addition counting, and never in another parser. It is called once for every use, in order, with the data as the functions before it left it and exactly the arguments written (formatters and returners: the attributes of the output tag; variable getters: the text and its name). What it returns is honoured: the first item of match, group and input functions replaces the data, whatever its value, False as second item rejects the match or the record, a dictionary from a match function is merged with the record; what output, formatter and variable functions return is the new data, and returners leave the results alone.",
    ["inputs", "histories"],
    "all sequences of added functions up to the stated length over return forms, names (built-in ones included), argument lists, notations and places in every scope; all histories of additions up to the stated length beside two other parsers",
    "tests add one function of each scope under a new name, returning one form; no test returns a dictionary, chains added functions or replaces a built-in one",
    ["ttp/ttp.py", "ttp/match", "ttp/group", "ttp/input", "ttp/output"],
    [("add_function", "ttp/ttp.py ttp"), ("check_matches", "ttp/ttp.py _parser_class"), ("get_attributes, run", "ttp/ttp.py _outputter_class"), ("set_data", "ttp/ttp.py _parser_class")],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
