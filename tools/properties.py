import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["command line: exit status, stdout, stderr","directory tree before and after"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Cleaning never loses, overwrites, merges or alters an entry",
"Whatever tree, arguments, options and sequence detox is run with, every file, directory, symbolic link, FIFO and hard link that existed before the run exists after it, once, with the same identity, type, permissions, link count, contents and link target, and files with the same modification time; only names change. In particular, when several names clean to the same result, or the result is already taken by any kind of entry (a dangling or looping link, a hard link to the same file, a directory, an entry that is itself about to be renamed), nothing is replaced.",
["inputs","histories","configurations"],"every tree, every set of arguments, flags and sequence, repeated runs",
"The legacy tests run a handful of fixed trees, one with a single collision; they never compare identity or contents over generated collisions, link kinds and orders.",
["src/file.c","src/detox.c"],[("target is checked with lstat before rename; only a sole link to the same inode may be replaced","src/file.c parse_file"),("rename(2) keeps the inode","src/file.c parse_file")])

p("C02","A renamed entry stays in its directory and only gets a usable name",
"Every entry keeps its parent directory: cleaning never moves an entry elsewhere, whatever slashes or '..' the filters decode or a table inserts. When the cleaned name is not usable as a name (empty, '.', '..', or holding a slash) the entry keeps its old name, a 'Cannot rename' message naming it goes to standard error, no rename is announced, and the rest of the run continues.",
["inputs","configurations"],"every name, every table and sequence, as argument, in a directory, recursively and in dry runs",
"No test decodes %2f or an overlong slash into a directory that exists, or a name that becomes empty or dots.",
["src/file.c","src/clean_string.c","src/clean_utf_8.c"],[("results that are empty or hold a slash are refused","src/file.c parse_file"),("'.' and '..' always exist, so they count as taken","src/file.c parse_file")])

p("C03","The new name is exactly what the sequence makes of the old one",
"An entry that is processed and not blocked ends up with the name obtained by passing its old name, without its directory, through the filters of the chosen sequence in order, each with its own table and settings. That name is the same whether the entry is given as a relative or absolute argument, found in a directory, is a file, directory or link, and the same as what inline mode prints for the name; a name that the sequence does not change is left alone without any output.",
["inputs","configurations"],"every name of up to 255 bytes, every sequence of filters and tables",
"Unit tests call single filters on fixed strings; nothing composes generated sequences and compares files, arguments and inline mode.",
["src/sequence.c","src/filter.c","src/file.c","src/clean_string.c","src/clean_utf_8.c"],[("filters are run in order on the last path component","src/sequence.c sequence_run_filters, src/file.c parse_file"),("each filter carries its table and settings","src/filter.c filter_run")])

p("C04","Only entries in scope are touched, and all of those are",
"For a directory given as an argument, detox cleans the directory's own name and the files and directories directly in it, and with -r those of all directories below; entries whose name starts with a period or is on the ignore list are left alone together with all they contain, unless named on the command line. Symbolic links and special files are left alone without --special, are renamed but never followed with it, and nothing outside the named entries ever changes; every dirty entry that is in scope and whose cleaned name is free is renamed.",
["inputs","configurations"],"every tree, ignore list, set of arguments and combination of -r, --special, -v and -n",
"The tests use one ignored name and one level of nesting; scope is a rule over all trees and ignore lists.",
["src/file.c","src/detox.c"],[("ignore_file decides per directory entry","src/file.c ignore_file"),("lstat decides the kind, so links are not followed","src/file.c parse_dir, src/detox.c main")])

p("C05","A dry run changes nothing and announces exactly the real run",
"With -n (or --dry-run) no name, content, time stamp or mode of any entry changes and no file is created, whatever the other options and inputs. When no two entries compete for a name and the system refuses no rename, the dry run announces on standard output exactly the renames that the same command without -n then performs, one line 'old -> new' each, and exits with the same status.",
["inputs","configurations"],"every tree, set of arguments, options and sequence",
"One test greps the output of a single dry run; equality with the real run over generated trees is not looked at.",
["src/file.c","src/parse_options.c"],[("the rename is skipped after it was announced","src/file.c parse_file")])

p("C06","Cleaning is idempotent",
"Cleaning a name again with the shipped default, lower or utf_8 sequence changes nothing: f(f(x)) = f(x) for every name x. A second run over a tree that was just cleaned renames nothing (except entries that were blocked the first time), announces nothing and leaves every entry in place.",
["inputs","histories"],"every name; every tree and pair of runs",
"A relation between two runs over all names; unit tests only list input/output pairs.",
["src/clean_string.c","src/clean_utf_8.c","src/file.c"],[("the safe table maps into characters it leaves alone","table/safe.tbl, src/builtin_table.c"),("wipeup's reduction reaches a fixed point","src/clean_string.c clean_wipeup")])

p("C07","Each entry is cleaned once, in whatever order the directory is listed",
"Each entry of a directory is put through the sequence at most once per argument, even when the filesystem lists an entry again under its new name or in any other order or with stale entries, and even for sequences that would change the result again. Without competition for names the final names do not depend on the order in which the directory is listed, and a directory with any number of entries is dealt with completely.",
["inputs","schedules"],"every order and repetition with which a filesystem may return entries, every directory size, non-idempotent sequences included",
"The tests see only the order of the filesystem they happen to run on, with a few entries.",
["src/file.c","src/filelist.c"],[("names are collected before anything is renamed","src/file.c parse_dir")])

p("C08","Default cleaning yields only easy characters, and only where needed",
"With the default sequence each control character, space and shell-special character !\"$'*/:;<>?@\\`| becomes an underscore, each of ()[]{} a dash and & becomes _and_, while all other bytes, UTF-8 sequences included, are kept in order. The result then has no run of two or more of . - _ (a run collapses to its strongest member: period, then dash, then underscore) and does not start with a dash, underscore or hash.",
["inputs"],"every byte string that can be a name",
"Unit tests cover some of the 255 byte values and few runs; the guarantee is for every string.",
["src/clean_string.c","src/builtin_table.c","table/safe.tbl"],[("safe filter and its table","src/clean_string.c clean_safe"),("wipeup filter","src/clean_string.c clean_wipeup")])

p("C09","Custom tables: map what is listed, default the rest, or fall through",
"A filter with a translation table replaces each character listed in the table by its translation, whatever the translation's length, and each other character by the table's default if it has one; without a default an unlisted character passes through unchanged, so tables can be chained. The iso8859_1 filter never touches bytes below 0x80, the safe filter looks up single bytes, and the utf_8 filter looks characters up by code point over the whole Unicode range.",
["inputs","configurations"],"every table, default, chain of tables and name",
"Tests use one custom table with one-character replacements; sizes, defaults and chains are unbounded.",
["src/clean_string.c","src/clean_utf_8.c","src/table.c","src/filter.c"],[("table lookup with default","src/clean_string.c clean_safe, clean_iso8859_1; src/clean_utf_8.c"),("output buffer is sized for the longest translation","src/table.c table_max_expansion")])

p("C10","UTF-8 filter: controls replaced, malformed input made safe, rest kept",
"With the builtin unicode table every well-formed character other than the listed control, space, hyphen and zero-width characters passes through byte for byte, and listed ones become their documented replacement. Each stray continuation byte, truncated sequence and character beyond U+10FFFF becomes an underscore, an encoded NUL becomes _hidden_null_, and what follows a malformed sequence is decoded afresh; in particular the output of well-formed input is well-formed.",
["inputs"],"every byte string, valid UTF-8 or not",
"Unit tests hold a short list of valid and invalid strings; the decoder's states are combinatorial.",
["src/clean_utf_8.c","src/builtin_table.c","table/unicode.tbl"],[("decoder","src/clean_utf_8.c clean_utf_8, get_utf_8_width, is_utf_8_cont")])

p("C11","Transcoding maps each legacy byte to its own character",
"The iso8859_1 sequences turn each byte 0xA0-0xFF into the UTF-8 form of the same ISO-8859-1 character (no-break space becomes a space, soft hyphen a dash), and cp1252 does so for 0x80-0x9F by CP-1252 (its five unassigned bytes become dashes), while ASCII stays as it is. The output is well-formed UTF-8, bytes that the table in use does not cover become its default if it has one, and the legacy sequence handles both ranges in one pass.",
["inputs"],"every byte string",
"A unit test covers the table once in order; combinations and chains are not compared with an independent codec.",
["src/clean_string.c","src/builtin_table.c","table/iso8859_1.tbl","table/cp1252.tbl"],[("byte-wise table lookup","src/clean_string.c clean_iso8859_1"),("builtin tables","src/builtin_table.c")])

p("C12","CGI decoding decodes each escape once, and nothing else",
"The uncgi filter replaces each % followed by two hexadecimal digits of either case by that byte and each + by a space, scanning left to right without decoding its own output again. An incomplete or invalid escape and an escaped NUL stay as they are, every other byte is kept, and encoding any name and decoding it gives the name back.",
["inputs"],"every byte string; every way of escaping a string",
"Unit tests list a few strings; the round trip over all names and partial escapes is not covered.",
["src/clean_string.c"],[("uncgi filter","src/clean_string.c clean_uncgi")])

p("C13","Wipeup collapses runs by precedence and strips the start",
"The wipeup filter removes every leading dash, underscore and hash, then reduces every run of dashes and underscores, and with remove_trailing periods too, to one character: a period if the run has one (with remove_trailing), else a dash if it has one, else an underscore. All other characters keep their order, none is added, and without remove_trailing periods are never touched.",
["inputs","configurations"],"every byte string, with and without remove_trailing",
"Unit tests list short strings; runs of any length and mixture at every position are unbounded.",
["src/clean_string.c"],[("wipeup filter","src/clean_string.c clean_wipeup")])

p("C14","max_length bounds the name and keeps the extension",
"With max_length n (256 when not given) a name of up to n bytes is left alone, and a longer one is cut to exactly n bytes by removing bytes in front of its extension, so that the result is a prefix of the name followed by the whole extension. The extension is everything from the last period, including the period before it when no more than four characters apart from it (as in .tar.gz), and a name whose extension alone would not fit is left alone rather than losing it.",
["inputs","configurations"],"every name and every limit",
"Unit tests use a few limits; the boundary behaviour is over all pairs of length, extension and limit.",
["src/clean_string.c"],[("length filter","src/clean_string.c clean_max_length")])

p("C15","lower changes ASCII capitals only, in every locale",
"The lower filter turns A-Z into a-z and leaves every other byte as it is, in every locale the user may have set, so that UTF-8 and legacy names stay what they are. Filters other than table blocks bound to a language give the same result in every locale.",
["inputs","configurations"],"every byte string, every locale",
"The tests run in the C locale only, on one string.",
["src/clean_string.c","src/parse_table.c"],[("lower filter","src/clean_string.c clean_lower")])

p("C16","Inline mode cleans a stream line by line and keeps its shape",
"inline-detox, and detox --inline, write for every input line the name the sequence makes of it and keep the number of lines, their order and the presence of a final newline; lines '.' and '..' pass unchanged and no file is renamed or written. Reading standard input and reading the same bytes from files named on the command line give the same output, and for filters that work character by character a line of any length is cleaned as one, UTF-8 characters at any position included.",
["inputs","configurations"],"every stream without NUL bytes, every split into files, every line length",
"Unit tests feed a few short lines and one long one; buffer boundaries fall anywhere.",
["src/file.c","src/detox.c","src/parse_options.c"],[("chunks are extended to the end of a UTF-8 character","src/file.c parse_inline")],observe=["stdout for a given stdin or file"])

p("C17","Table files mean what the manual says, however they are written",
"A table file gives the same translations whether codes are decimal, hexadecimal or octal, translations bare, double- or single-quoted, keywords in any case, and whatever comments, blank lines, spacing, number and order of blocks and rows there are; a later row for the same code, and a later default, replace the earlier, and a file of any size, with lines of up to 1,000 bytes, is taken completely. A block bound to a language counts exactly when the user's locale starts with that language, and an empty default is no default.",
["inputs","configurations"],"every table and every way to write it; every locale",
"Two legacy tests load one table each.",
["src/parse_table.c","src/table.c"],[("line-based parser","src/parse_table.c parse_table"),("hash map that falls back to a linear search","src/table.c table_put, table_get")])

p("C18","Config files mean what they say, alone and in layers",
"A config file defines exactly its sequences, with their filters in order, tables and settings, and its ignore list, whatever its spacing, comments, quoting, keyword case and order; -L lists the names with the chosen sequence marked, and -L -v everything in them. Without -f the system file (the first there is of the one configured at build time, /etc/detoxrc and /usr/local/etc/detoxrc), ~/.detoxrc and $XDG_CONFIG_HOME/detox/detoxrc are read in that order, a later sequence of the same name replacing the earlier in place and ignore lists adding up; with -f only that file counts, and with no file at all the builtin configuration applies.",
["inputs","configurations"],"every config file and every combination of present and absent files",
"One unit test looks at the builtin configuration; parsing is only tested by the sample files.",
["src/config_file.c","src/config_file_yacc.y","src/config_file_lex.l","src/config_file_dump.c","src/config_file_spoof.c"],[("grammar and lexer","src/config_file_yacc.y, src/config_file_lex.l"),("layering","src/config_file.c config_file_load")],observe=["stdout of -L and -L -v","names given to files"])

p("C19","Unusable configuration is refused before anything is touched",
"When the config file given does not exist or has a syntax error, the sequence asked for is not defined, or a sequence's table file or builtin table cannot be found or read, detox exits with a failure status and a message on standard error, which names the config file and the line for a syntax error and the table for a table, and has renamed nothing and, in inline mode, written nothing to standard output. Problems in sequences that are not used do not get in the way.",
["inputs","configurations"],"every way to break a config file or table, every option combination",
"One legacy test uses one invalid file.",
["src/config_file_yacc.y","src/config_file.c","src/detox.c","src/filter.c"],[("yyerror and the checks of main come before the work","src/config_file_yacc.y yyerror, src/detox.c main, src/filter.c filter_load_table")],observe=["exit status","stderr","directory tree"])

p("C20","No input makes any program crash or touch memory it does not own",
"No file name, argument, tree, stream, config file, table file or environment makes detox, inline-detox or the table tools crash, read or write outside an object, use freed memory, execute undefined behaviour or run without end. Inputs they cannot use end in an error message and status.",
["inputs","configurations"],"every byte string as name, stream, config file and table file",
"The tests run without sanitizers on small well-formed inputs.",
["src/clean_string.c","src/clean_utf_8.c","src/parse_table.c","src/table.c","src/file.c","src/config_file_yacc.y","src/config_file_lex.l"],[("buffer sizes computed from the table and name","src/clean_string.c, src/clean_utf_8.c, src/table.c"),("fixed-size buffers of the parsers","src/parse_table.c, src/config_file.c, src/file.c")],observe=["sanitizer reports, signals, exit status"])

p("C21","Builtin tables, shipped files and the table tools agree",
"The builtin tables translate every character exactly as the shipped table files do, and with no config file detox behaves exactly as with the shipped one: same sequences in the same order, same ignore list, same result for every name. The code that generate-builtin-table prints for a table file holds exactly that file's rows and default (\\u and \\U in a translation are passed on as escapes), and check-table accepts every well-formed table and reports its true figures; given no table, or one that cannot be read or used, both end with a failure status and a message.",
["inputs","configurations"],"every code point of every shipped table; every table file given to the tools",
"Nothing compares builtin and shipped tables except a manual script; tests see a few characters.",
["src/builtin_table.c","src/config_file_spoof.c","table/safe.tbl","table/unicode.tbl","table/iso8859_1.tbl","table/cp1252.tbl","etc/detoxrc","src/generate_builtin_table.c","src/check_table.c"],[("generated tables","src/builtin_table.c"),("table_resize copies every row","src/table.c")],observe=["results of both configurations","output of the tools"])

p("C22","A failing system call never costs data or lies about the outcome",
"When a rename, a status query, the opening or reading of a directory, or a memory request fails at any point, no entry is lost or replaced, no entry gets a name other than its old or its cleaned one, and every entry that could not be examined or whose rename failed is reported on standard error with its path, its old name kept, as is that a directory could not be opened or read. Failures other than running out of memory or descriptors do not stop the rest of the run, and running out of memory ends it with a message and a failure status.",
["fault_sequences","inputs"],"every point of failure and error code, every tree",
"The tests inject no faults besides one allocation in a unit test of the wrapper.",
["src/file.c","src/detox.c","src/wrapped.c"],[("return values checked","src/file.c parse_file, parse_dir"),("wrapped allocation exits","src/wrapped.c")])

p("C23","There is no limit on how much there is to clean",
"Any number of command-line paths, directory entries, levels of nesting, lines and files of input, sequences, filters, table rows and ignored names is handled, in order and completely, however few files may be open at a time: each of many arguments is processed, each entry of a large directory is cleaned, and directories nested as deep as the system's path limit allows are cleaned at every level. Repeating, reordering or splitting arguments over several runs gives the same final names when nothing competes.",
["inputs","configurations","histories"],"every number of arguments, entries, levels, rows and ignored names that the system can express",
"Tests use at most a dozen entries and two levels, below every growth threshold of the containers.",
["src/filelist.c","src/file.c","src/detox.c","src/table.c"],[("the list grows in chunks","src/filelist.c filelist_put"),("path buffer grows with the path","src/file.c parse_dir")])

p("C24","Options choose the sequence, mode and status as documented",
"-s chooses the sequence, else DETOX_SEQUENCE, else 'default', else the first one defined; a sequence asked for that does not exist is an error, never replaced by another. Long and short forms, any order and grouping of options, and '--' behave alike, the last -s and -f count, --inline equals running inline-detox, -h and -V print and change nothing with status 0, and missing paths are reported by name while the others are still processed.",
["inputs","configurations"],"every combination and order of options, environment and sequences",
"Few combinations appear in the tests, and the environment variable in none.",
["src/parse_options.c","src/sequence.c","src/detox.c"],[("getopt_long loop","src/parse_options.c"),("choice of the sequence","src/sequence.c sequence_choose_default")])

p("C25","Escaped UTF-8 compiles back to the original",
"Whatever text of valid UTF-8 without NULs is given to escape-utf-8, a C compiler reading its output inside a string literal gets the original bytes back, and the output consists of printable ASCII and line ends only. Distinct inputs give distinct outputs.",
["inputs"],"every text of valid UTF-8 without NUL",
"The program has no tests; the shipped sample is a single file.",
["src/escape_utf_8.c","src/clean_utf_8.c","src/file.c"],[("generated escape table","src/escape_utf_8.c generate_c_escape_table")],observe=["stdout; bytes produced by a compiler or decoder of C literals"])

p("C26","An interrupted run leaves a tree that a later run completes",
"If detox is killed at any point of a run, every entry is still there with its contents, under either its old name or its cleaned name. Running the same command again finishes the work: for an idempotent sequence, arguments whose own names are clean, no competition for names and no name that cleans to a hidden or ignored one, the final tree equals that of an uninterrupted run.",
["crash_points","histories"],"every point between two system calls that touch the tree, every tree and idempotent sequence",
"No test interrupts a run.",
["src/file.c"],[("one atomic rename per entry, nothing else is written","src/file.c parse_file")])

p("C27","A blocked rename is reported, skipped, and blocks nothing else",
"When an entry's cleaned name is taken by another entry, detox says 'Cannot rename' with the old and the wanted path on standard error, once, announces no rename for it, leaves both entries alone, and goes on: all other entries are cleaned as if it were not there, and the contents of a blocked directory are still cleaned with -r. Of several entries that clean to the same free name exactly one gets it.",
["inputs","histories"],"every tree with competing names of every kind, every order of arguments",
"A single collision of two files is tested, for its effect on the names only.",
["src/file.c","src/detox.c"],[("check before the rename, with a message","src/file.c parse_file")])

p("C28","Output reports exactly what was renamed",
"With -v standard output holds exactly one line 'old -> new' for each rename performed, in the order performed, with the paths valid at that moment, and one 'Scanning: path' line for each argument; replaying the lines on a copy of the original tree gives the final tree. Without -v and -n a run that has nothing to complain about prints nothing at all, and diagnostics only ever go to standard error.",
["inputs","histories","configurations"],"every tree, set of arguments, options and sequence",
"The tests look at the tree or grep a single line; correspondence of log and effect is not tested.",
["src/file.c","src/detox.c"],[("announcement next to the rename","src/file.c parse_file"),("scanning lines","src/detox.c main")])

p("C29","Lost output or input is never passed off as success",
"When standard output cannot take everything a program prints - it is full, closed, a pipe nobody reads, or ends at any byte - detox, inline-detox, escape-utf-8 and the table tools end with a failure status and a message on standard error, what got through is the beginning of the full output, and detox performs the same renames as with a working output. An inline input that cannot be read to its end is reported on standard error by its name ('stdin' for standard input), and what was read of it before and all other inputs are still cleaned. A config file or translation table that cannot be read to its end is refused with a failure status and a message, by detox before anything is renamed or written, and by the table tools.",
["inputs","fault_sequences","configurations"],"every program, input and options, every kind of broken output and every byte at which writing or reading may fail",
"The tests always have a working output and readable inputs; no test looks at a full disk or a read error.",
["src/wrapped.c","src/file.c","src/parse_table.c","src/check_table.c","src/detox.c"],[("standard output is flushed and examined when a program ends","src/wrapped.c check_stdout, watch_stdout"),("read errors of inline inputs are reported","src/file.c parse_inline"),("read errors of tables are refused","src/parse_table.c parse_table, src/check_table.c check_table")])

p("C30","Results do not depend on how detox is built",
"Whichever compiler and optimisation level built them, whether plain char is signed or not, with or without the build options (DEBUG, getopt_long, st_blocks), and whatever fresh memory happens to hold, detox, inline-detox, check-table, generate-builtin-table and escape-utf-8 give the same status, output and messages and leave the same tree for the same command line, environment, files and trees. This includes damaged configuration files, tables, streams and names. Only a DEBUG build's own extra messages and the long options themselves differ.",
["inputs","configurations"],"every program, build, command line, configuration, table, stream and tree, damaged ones included",
"The tests run one build on one platform; a dependency on char's sign or on uninitialised memory only shows in another.",
["src/clean_string.c","src/clean_utf_8.c","src/table.c","src/parse_table.c","src/parse_options.c","src/file.c"],[("bytes are looked up as unsigned","src/clean_string.c clean_safe, clean_iso8859_1; src/clean_utf_8.c"),("tables are read with fgetc into an int","src/parse_table.c"),("options with and without getopt_long","src/parse_options.c"),("names and messages are built in fresh memory","src/file.c, src/wrapped.c")])

p("C31","A run depends on nothing but what it is told",
"For the same command line, files to clean, configuration and locale, every run of detox, inline-detox and the table tools gives the same status, output, messages and renames: whatever other environment variables are set (HOME and XDG_CONFIG_HOME included when -f is given, DETOX_SEQUENCE when -s is), whatever lies in the current directory when paths are absolute, whatever the umask, priority, session, signal mask and other open files, and whether standard output and error are files, pipes or terminals. What the files contain, their owners, permissions and times make no difference to their new names. Standard input is read only in inline mode without paths and by escape-utf-8, with the same result from a file, from any place in it, or from a pipe however it is delivered.",
["inputs","configurations"],"every command with every environment, descriptor, terminal, umask, signal and file state around it",
"The tests run everything in one environment, with one kind of standard input and output.",
["src/detox.c","src/config_file.c","src/file.c","src/parse_options.c","src/sequence.c"],[("the only variables that are looked at","src/config_file.c, src/detox.c getenv"),("standard input only without paths","src/detox.c, src/file.c parse_inline"),("nothing but lstat is asked about files","src/file.c parse_file, parse_dir")])

p("C32","Each filter uses the table that is meant for it",
"A table filter with a builtin uses that builtin table, whatever files there are, and one with a filename exactly the file of that path, relative paths being taken from the current directory; such a file is not looked for anywhere else, and detox fails when it is not there. A filter with neither uses the first file named iso8859_1.tbl, unicode.tbl (for utf_8) or safe.tbl that there is in the detox folder of the data directory configured at build time, of /usr/share and of /usr/local/share, and its builtin table when there is none. Each filter of a sequence has its own table, whatever the others use, and files of those names elsewhere make no difference.",
["configurations","inputs"],"every sequence of table filters and every set of table files in the places that count and others",
"The tests name their tables by absolute paths; none has a table in a place that is searched.",
["src/filter.c","src/sequence.c","src/parse_table.c","src/config_file_yacc.y"],[("search of the fixed places, then the builtin table","src/filter.c filter_find_table, filter_load_table"),("each filter is given its own table","src/sequence.c sequence_review")],["results of inline and file mode","status and messages when a table is missing"])

with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
