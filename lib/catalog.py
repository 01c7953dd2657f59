"""Which checker decides which property."""
FS = ["A directory tree on tmpfs stands for every filesystem; entries are changed by detox through the intercepted libc calls only.",
      "detox is linked into the checker: each run is main() in a process of its own, with the hooked calls going through the checker."]


def fs(technique, note, level="model_checking", **k):
    return {**dict(modules=["props_fs.cpp"], technique=technique, level=level, note=note, assumptions=FS), **k}


def fs2(technique, note, level="model_checking", **k):
    return dict(fs(technique, note, level, **k), modules=["props_fs2.cpp"])


FILT = ["The models of the filters in ref.hpp are written from the manual pages and are themselves simple enough to be read.",
        "detox is linked into the checker; inline runs are main() in a process of their own."]


def api(technique, note, level="model_checking", **k):
    return dict(modules=["props_filters.cpp", "api_filters.cpp"], flavour="asan", technique=technique, level=level, note=note, assumptions=FILT, **k)


def flt(technique, note, level="model_checking", **k):
    return dict(modules=["props_filters.cpp"], technique=technique, level=level, note=note, assumptions=FILT, **k)


def tbl(technique, note, level="model_checking", **k):
    return {**dict(modules=["props_table.cpp", "api_table.cpp"], flavour="asan", technique=technique, level=level, note=note,
                   assumptions=["The reader of table files in tables.hpp is written from the manual page.", "Released tables are a copy in golden/."]), **k}


def conf(technique, note, level="model_checking", **k):
    return {**dict(modules=["props_conf.cpp"], technique=technique, level=level, note=note,
                   assumptions=["The reader of configurations in conf.hpp is written from the manual pages and the grammar.", "System directories are redirected to a scratch directory by the checker."]), **k}


def inl(technique, note, level="model_checking", **k):
    return {**dict(modules=["props_inline.cpp"], technique=technique, level=level, note=note,
                   assumptions=["The models of the filters in ref.hpp are written from the manual pages.", "detox is linked into the checker: each run is main() in a process of its own, with the hooked calls going through the checker."]), **k}


def tool(technique, note, tools, level="model_checking"):
    return dict(modules=["props_tools.cpp"], tools=tools, technique=technique, level=level, note=note,
                assumptions=["The helper programs are built from their sources with sanitizers and run as processes.", "Table files are read by the reader in tables.hpp, written from the manual page."])


CATALOG = {
    "F01": fs("stateless exploration of the real program: all small trees x all listing orders, invariant on inodes",
              "Every tree, option set and listing order within the bounds; trusts the kernel's tmpfs and the reference filters."),
    "F02": fs("stateless exploration of the real program: all small trees x listing orders, with entries listed again, against reference filters",
              "Every tree, option set, listing order and repeated listing within the bounds."),
    "F03": fs("stateless exploration of dry runs over all small trees, options and positions against a model of a real run",
              "Every tree, option form and listing order within the bounds."),
    "F04": fs("stateless exploration of the real program: all entry types, argument forms and listing orders against the set of candidates",
              "Every tree, option set, argument form and listing order within the bounds."),
    "F05": fs("stateless exploration of the real program: all ignore lists and entries in all orders against a model",
              "Every list, tree and listing order within the bounds."),
    "F06": fs("stateless exploration of the real program, the final tree must be one the model reaches in some order",
              "Every tree, argument list and listing order within the bounds; the model is free in the order of entries only."),
    "F07": fs("stateless exploration of the real program with single faults, output and reports against the observed changes",
              "Every tree, listing order and single failing call within the bounds."),
    "F08": fs("stateless exploration of pairs of runs over all small trees and listing orders",
              "Every tree and listing order within the bounds."),
    "F09": fs2("stateless exploration of the real program under a fault injector: every call x every error x listing orders",
               "Every tree, listing order and single fault (thorough: every pair) within the bounds; the kernel's own behaviour after an error is trusted."),
    "F10": fs2("stateless exploration of interleavings of two real detox processes (preemption-bounded) and of detox with actions of another process",
               "Every schedule within the preemption bound and every placement of the actions; needs RENAME_NOREPLACE, as the fallback for filesystems without it is inherently racy and not explored."),
    "F11": fs2("stateless exploration of all crash points of the real program, each followed by complete runs",
               "Every crash point between two intercepted calls of every run within the bounds; renames are atomic (tmpfs)."),
    "F12": fs2("stateless exploration of the real program with every allocation failing",
               "Every single allocation that detox itself makes; allocations inside libc (stdio, opendir) are not failed."),
    "F13": fs2("stateless exploration of the real program on a simulated case-insensitive filesystem, all small trees and orders",
               "Files only; the intercepted calls resolve names without regard to case as such a filesystem does (ASCII and Latin-1 letters).", locales=True),
    "N01": api("all words over all bytes and all small alphabets, through the function and through inline-detox, against a model of the filter",
               "Every word within the bounds with every table; a monitored real execution for each."),
    "N02": api("all words up to a length over the separators, through the function and through inline-detox, against a model of the filter",
               "Every word within the bounds."),
    "N03": api("all words over the escape alphabet, through the function and through inline-detox, against a model of the filter",
               "Every word within the bounds, every two-digit escape."),
    "N04": api("all words of two bytes in every locale, through the function and through inline-detox, against a model of the filter",
               "Every word within the bounds in every locale that can be made in the sandbox.", locales=True),
    "N05": api("all words over stems and dots up to a length for every maximum, through the function and through inline-detox, against a model of the filter",
               "Every word within the bounds for every maximum length in them."),
    "N06": api("all code points in all encoding lengths, all words over the byte classes, through the function and through inline-detox, against a model of the decoder",
               "Every code point up to the bound, every word within the bounds."),
    "N07": api("all words over all bytes and all small alphabets with every table, through the function and through inline-detox, against a model of the filter",
               "Every word within the bounds with every table."),
    "N08": flt("all names up to a length over the byte classes through every stock sequence, invariants of the result and a model",
               "Every name within the bounds."),
    "N10": flt("all histories of names, lines, files and arguments up to a length, each result against the one for the name alone",
               "Every history within the bounds."),
    "N11": flt("all chains of filters up to a length over configured filters, against the composition of the models",
               "Every chain within the bounds, over names that tell orders apart."),
    "N12": flt("all words up to a length in every locale through every filter and stock sequence, tables read in every locale, a set of environments, against models that know neither",
               "Every word within the bounds in every locale that can be made in the sandbox; every variable of the set with every value of the set.", locales=True),
    "T01": tbl("all sequences of table operations over colliding keys, and regular fillings of every size, the real code against a map after every operation; and all small table files through the program",
               "Every operation sequence within the bounds, which is every reachable state of small tables."),
    "T02": tbl("all files of a few lines over every kind of line, all numbers of rows, through the function and through inline-detox, against a reader written from the manual",
               "Every file within the bounds."),
    "T03": tbl("all arrangements of blocks x languages x locales x variables, through the function and through inline-detox, against a reader written from the manual",
               "Every arrangement within the bounds in every locale that can be made in the sandbox.", locales=True),
    "T04": tbl("every code in every builtin and shipped table, through the function and through inline-detox, against the released tables",
               "Every code up to beyond the Unicode maximum (thorough: 0x400000)."),
    "T05": tbl("all combinations of existing tables, filters and ways to name a table, through the real program with redirected system directories",
               "Every combination within the bounds.", modules=["props_table.cpp"], flavour="plain"),
    "C01": conf("every sequence of up to three filters, every layout and every small arrangement of definitions through the real program, against a reader written from the manual",
                "Every configuration within the bounds; judged by the listing and by the work of the sequences."),
    "C02": conf("every assignment of definitions to the places of configuration files, through the real program with redirected system directories, against the layers of a model",
                "Every assignment within the bounds."),
    "C03": conf("every combination of defined sequences, options and environment through the real program, against the rule of the manual",
                "Every combination within the bounds (quick tier: every combination in one of listing, filtering and renaming)."),
    "C04": conf("the built-in and the shipped configuration side by side: listings, every sequence over all words of an alphabet, ignore lists",
                "Every sequence, every word within the bounds."),
    "C05": conf("every word of tokens up to a length and every small change of configurations through the real program, against a reader written from the manual",
                "Every word and change within the bounds."),
    "O01": inl("every subset, spelling, order and position of options and files, and every number of arguments, through the real program, against a model of the run and of what it prints",
               "Every command line within the bounds."),
    "O02": {**inl("every command line of a set with every amount of room on standard output, through the real program under a size limit",
               "Every amount of room within the bounds; a limit on the size of a file stands for a full disk."), "modules": ["props_io.cpp"]},
    "O03": {**inl("stateless exploration of the real program with every single reading call failing, against what whole files give",
               "Every single failing read (thorough: the same); reads are failed at the stream functions detox calls."), "modules": ["props_io.cpp"]},
    "I01": inl("every stream of a few lines over every kind of line, from every source, through the real program, against the models of the filters",
               "Every stream within the bounds."),
    "I02": inl("every piece of a few characters at every position around every end of the internal buffer, against the filter on the whole line",
               "Every piece at every position within the bounds; sequences that work on single characters."),
    "I03": inl("all names over an alphabet renamed and filtered as lines side by side, in every stock sequence",
               "Every name within the bounds."),
    "I04": inl("every list of arguments and options in inline mode under a monitor of all changing calls",
               "Every list within the bounds; every call that changes the filesystem is intercepted."),
    "M01": inl("stateless exploration of the real program with an account of its memory: streams, arguments and trees of every one or two kinds, repeated, and single failing calls; what is in use must not grow",
               "Every stream, argument list, tree and single failing call within the bounds; memory that libc allocates by itself is not counted.", modules=["props_heap.cpp"]),
    "W01": fs("stateless exploration of the real program with an account of its calls: small trees, argument lists, sizes, repeated listings and failing calls",
              "Every tree, listing order and failing call within the bounds; what is counted is calls to the file system, not time.", modules=["props_work.cpp"]),
    "D01": tool("every code point in every encoding and all words up to a length through the real program, against a model and read back as escapes",
                "Every code point and word within the bounds.", ["escape_utf_8"]),
    "D02": tool("all small table files through the real generator, the code compiled and looked up with the project's table, against a reader written from the manual",
                "Every file within the bounds; codes to U+10FFFF.", ["generate_builtin_table"]),
    "D03": tool("all small table files through the real program with every set of options, against a reader written from the manual",
                "Every file within the bounds; lines of less than 1000 bytes.", ["check_table"]),
    "N09": dict(inl("systematic enumeration of inputs around every buffer through the real program under the address and undefined-behaviour sanitizers",
               "Every input within the bounds; a monitored real execution for each, errors that the sanitizers cannot see are not found."), modules=["props_mem.cpp"], flavour="asan"),
}
