# The parameter file, the parameters, small utilities
INIW = "Unit tests parse a few sample files. "
_ini = ["any3", "any4", "any5", "bom2", "in_section", "after_section", "in_name", "in_value", "comment_in_value", "continued", "continued_after_comment",
        "continued_after_section", "continued_twice", "two_lines", "handler_fails", "errors", "in_value6", "continued6", "no_file"]
_long = ["long_section", "long_name", "long_line", "long_blank"]
_var = ["any4", "bom2", "in_name", "in_value", "comment_in_value", "continued_twice", "continued_after_section", "handler_fails", "errors"]
def _variants(entries):
    return [U("ini.cpp", entries, ndim=1, c_src=INI, defs=[d]) for d in
            ("INI_ALLOW_MULTILINE=0", "INI_ALLOW_INLINE_COMMENTS=0", "INI_STOP_ON_FIRST_ERROR=1", "INI_HANDLER_LINENO=1", "INI_USE_STACK=0", "INI_ALLOW_BOM=0", "INI_MAX_LINE=20")]
prop("C01", "The parser never touches memory outside its buffers, and ends",
     "Whatever the bytes of the parameter file (NUL bytes, unterminated last line, lines longer than the line buffer, names and sections longer than their buffers included), the parser reads and writes only inside its buffers, never uses uninitialised data, returns, and gives the file back.",
     ["inputs"], "all byte strings up to 6 bytes (8 in the thorough run), all completions of texts with 2 to 5 free bytes in the middle of sections, names, values, comments and continuation lines; section, name and line lengths on both sides of the limits of the parser",
     INIW + "A buffer overrun needs a field or a line of one particular length.",
     ["vendor/inih/src/ini.c"], [("ini_parse_stream", "vendor/inih/src/ini.c")],
     [U("ini.cpp", _long + ["any4", "any6", "bom2", "continued_twice", "no_file"], ndim=1, c_src=INI),
      U("ini.cpp", _long + ["any4", "in_value", "continued_twice"], ndim=1, c_src=INI, defs=["INI_MAX_LINE=20"]),
      U("ini.cpp", ["long_line", "any4", "continued_twice", "in_value"], ndim=1, c_src=INI, defs=["INI_USE_STACK=0"]),
      U("ini.cpp", ["any7", "any8"], ndim=1, c_src=INI, tier="thorough"),
      U("inireader.cpp", ["refused", "lines"], ndim=1, c_src=INI)],
     opts=dict(witness=1, time=400), thorough_opts=dict(time=1500, paths=20000000), bounds="files up to 6 free bytes (thorough: 8), or a fixed frame with 2 to 5 free bytes; lengths of fields and lines within 4 of the limits",
     assumptions=["fopen, fgets and fclose work on an in-memory file", "memory allocation succeeds"])
prop("C02", "The parser reads a parameter file as documented",
     "Sections, name=value and name:value pairs, comments on their own line (; and #) or after a blank (;), blank lines, a byte order mark, continuation lines (leading blanks, after a name of the same section) are recognised as documented; every pair is passed on once, in order, with blanks trimmed, whatever the input channel (file, string, reader function); the result is the number of the first line with an error or refused by the handler, else 0, or -1 if the file cannot be opened. Compile-time options do what they say.",
     ["inputs", "configurations"], "all byte strings up to 5 bytes, all completions of 15 frames with 2 to 5 free bytes; every handler answer; three input channels; eight configurations of the parser; files of 300 and 66300 lines",
     INIW + "The grammar has corner cases: comments against delimiters, continuation after comments and sections, errors in the middle.",
     ["vendor/inih/src/ini.c", "vendor/inih/include/inih/ini.h"], [("ini_parse_stream", "vendor/inih/src/ini.c"), ("ini_parse_string", "vendor/inih/src/ini.c")],
     [U("ini.cpp", _ini, ndim=1, c_src=INI), U("ini.cpp", ["many_lines"], ndim=1, c_src=INI, opts=dict(steps=100000000))] + _variants(_var) + [U("ini.cpp", ["any6", "any7"], ndim=1, c_src=INI, tier="thorough")],
     opts=dict(witness=1, time=400), thorough_opts=dict(time=1500, paths=20000000), bounds="files up to 5 free bytes (thorough: 7), or a fixed frame with 2 to 5 free bytes",
     assumptions=["names and sections are cut at 49 characters and lines at the line buffer, as documented"])
prop("C03", "Entries are found by section and name, in any case",
     "A value is found under its section and name whatever their case, and under no other; a missing entry gives the default; repeated names and continuation lines in a section add lines to the value in the order of the file; entries before any heading belong to the empty section. A file that is missing or has an error is refused. Copies of the reader answer the same.",
     ["inputs"], "all names and values of one or two characters for two entries and a query; all sequences of up to three lines",
     INIW + "Names that differ only in case, or sections that share names, do not occur in the tests.",
     ["vendor/inih/src/INIReader.cpp"], [("INIReader::Get, MakeKey, ValueHandler", "vendor/inih/src/INIReader.cpp")],
     [U("inireader.cpp", ["lookup", "sections", "lines", "refused", "copies", "defaults"], ndim=1, c_src=INI)],
     opts=dict(witness=1, time=400), bounds="two entries with names up to two characters; values of up to three lines of up to two characters")
prop("C04", "Typed values are exact or refused",
     "Integer entries (decimal, or hexadecimal with 0x) give exactly the number written, in every integer type, and a number the type cannot hold is refused; text that is not a number never becomes one (it is refused or the default is kept); real entries give the number written; booleans are true/yes/on/1 and false/no/off/0 in any case and anything else is refused; empty or missing entries give the default.",
     ["inputs"], "all numbers of up to 11 digits for int and unsigned, all numbers within 1000 of the limits of the 64-bit types, all short texts of printable characters, all booleans up to 6 characters, all defaults",
     INIW + "Range limits and malformed numbers are not tested.",
     ["vendor/inih/src/INIReader.cpp"], [("INIReader::GetInteger, GetReal, GetBoolean", "vendor/inih/src/INIReader.cpp")],
     [U("inireader.cpp", ["int_small", "int_limit", "int_long", "unsigned_small", "unsigned_limit", "unsigned_long", "long_limit", "longlong_limit", "ulong_limit", "ulonglong_limit", "long_small", "ulong_small",
                          "int_anything", "unsigned_anything", "long_anything", "longlong_anything", "ulong_anything", "ulonglong_anything",
                          "int_hex", "unsigned_hex", "long_hex", "ulong_hex", "defaults", "real_plain", "real_exponent", "real_anything",
                          "boolean_1", "boolean_2", "boolean_3", "boolean_4", "boolean_5", "boolean_6"], ndim=1, c_src=INI)],
     opts=dict(witness=1, time=400), bounds="decimal numbers up to 11 digits (64-bit types: the last three or four digits around the limit), hexadecimal up to 2 digits, reals up to 2+2 digits and 6 exponents, other text up to 3 characters",
     assumptions=["strtol and strtod of the C library follow the standard; reals are compared without rounding"])
prop("C05", "Every parameter comes from its own entry",
     "Each run parameter has the value of its documented section and name and nothing else changes it; a parameter that is not given has its documented default (the first output time: one output period after the start time). The reader stays available for the entries of boundary conditions and setups. Copies have the same values.",
     ["inputs", "configurations"], "all 44 parameters: none, each alone, all, all but each one (thorough: each pair), with arbitrary two-digit or two-letter values",
     "No test constructs the parameters. A swapped name or default only shows in a run that uses that parameter.",
     ["src/utils/param.cpp", "src/utils/param.hpp", "inputs/example_init.ini"], [("Param::Param", "src/utils/param.cpp")],
     [U("params.cpp", ["none", "one", "all", "all_but_one", "reader_kept"], ndim=1, c_src=INI), U("params.cpp", ["two"], ndim=1, c_src=INI, tier="thorough")],
     opts=dict(witness=1, time=400), thorough_opts=dict(time=1500), bounds="values of two characters")
prop("C06", "Checked conversions keep the value or refuse",
     "int_cast gives the same mathematical value in the target type when the type can hold it and throws otherwise, for every pair of integer types.",
     ["inputs"], "all values of all 8 x 10 pairs of integer types",
     "Unit tests sample a few values of a few pairs.",
     ["src/utils/int_cast.hpp"], [("int_cast", "src/utils/int_cast.hpp")],
     [U("misc.cpp", ["int_cast_all"], ndim=1)], opts=dict(witness=1, time=400), bounds="none: all values")
prop("C39", "Reports are aligned lines of name and value",
     "A line of the report is the name on the left and the value on the right of two columns of 40 characters, filled with dots, whatever the state of the stream before; longer names and values are not cut.",
     ["inputs"], "all names and values of up to 3 characters, names of 37 to 43, integers of all signs and lengths; text, string_view, C strings and numbers; three states of the stream",
     "The unit test prints one line on a fresh stream.",
     ["src/utils/print_info.hpp"], [("print_info", "src/utils/print_info.hpp")],
     [U("misc.cpp", ["report_text", "report_number"], ndim=1)], opts=dict(witness=1), bounds="up to 3 free characters", assumptions=["the stream is a stand-in that follows the standard for width, fill and adjustment"])
