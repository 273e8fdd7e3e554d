"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

DEC="src/calculator/file/decode.rs"; ENC="src/calculator/file/encode.rs"; F8="src/calculator/file/from_8xp.rs"
FT="src/calculator/file/from_txt.rs"; PR="src/calculator/program.rs"; MO="src/calculator/models.rs"
TK="src/calculator/tokens/mod.rs"; TJ="src/calculator/tokens/standard_tokens/8X.json"; TD="src/calculator/tokens/token_definitions.json"
CV="src/commands/convert.rs"; ED="src/commands/edit/mod.rs"; CL="src/cli.rs"; MA="src/main.rs"; SE="src/commands/search.rs"; DT="src/commands/details.rs"; ST="src/styles.rs"
EDS=["src/commands/edit/%s.rs"%x for x in("archive","comment","lock","rename","unarchive","unlock")]

p("C01","Decoding renders exactly the program's tokens",
  "For every 8xp file whose body is a sequence of tokens that exist on the file's calculator model, the decoded text is the concatenation, in order, of each token's documented rendition in the requested display mode (accessible, pretty or ti), and nothing else. A body that contains bytes which are not a token of that model is refused with an error and no output file.",
  ["inputs","configurations"],"all bodies (any token sequence, any invalid bytes at any place) x calculator models x three display modes",
  "The only decode test covers nine sample programs, accessible mode, 'latest' model; about 100 of 809 tokens occur in them and no malformed body.",
  [DEC,F8,TK,TJ],[("greedy one/two byte lookup","decode.rs decode"),("per-model token map","tokens/mod.rs load_tokens"),("model from product byte","models.rs from_byte")],["ti-tools convert X.8xp -o Y.txt","-p preview","JSON body.translation"])
p("C02","Max and min encoding are greedy longest / shortest matching",
  "With encode mode max (or min) every program text is split, left to right and line by line, into the longest (or shortest) token whose rendition in the text's display mode starts the remaining line, using only tokens of the text's calculator model, and the body is exactly those tokens' bytes with one newline byte between lines. Variants of theta count as theta; when some position matches no token the conversion fails with an error and writes nothing.",
  ["inputs","configurations"],"all program texts x display modes x calculator models x {min,max}",
  "No test uses the min or max mode; smart mode is tested on nine texts.",
  [ENC,TK,FT],[("token search","tokens/mod.rs get_longest/shortest_matching_token"),("line loop","encode.rs encode")],["ti-tools convert X.txt -e min|max -o Y.8xp, bytes 74.."])
p("C03","Smart encoding follows the documented context rules",
  "With encode mode smart, the default, program text is split by longest match, with two exceptions: what directly follows the opening quote of a string literal is split by shortest match, up to and including the first token whose rendition is not made of ASCII letters only; and the name that follows prgm or the list prefix is spelled with one token per name character (0-9, A-Z, theta). Code after a closing quote is split by longest match again. A line that cannot be split this way to its end is split into the longest tokens that allow a complete split, and the text is refused only if it has none.",
  ["inputs","configurations"],"all program texts mixing code, string literals (closed, unclosed, with any characters), program and list names x models x display modes",
  "Nine sample texts; none has a token word inside a string after a space, a keyword operator after a string, or a colour or finance word in a program name.",
  [ENC,TK],[("context state machine","encode.rs EncodeState / encode")],["ti-tools convert X.txt -o Y.8xp, bytes 74.."])
p("C04","Encoding never alters the program text",
  "For every program text that can be encoded, in every encode mode, display mode and for every model, decoding the resulting 8xp in the same display mode gives the same text back, with line breaks shown as that mode shows the newline token and variants of theta and line endings normalised.",
  ["inputs","configurations"],"all encodable texts x encode modes x display modes x models",
  "Tests compare nine accessible/smart pairs; no generated text, no other mode.",
  [ENC,DEC,FT,PR],[("token map used in both directions","tokens/mod.rs")],["txt -> 8xp -> txt"])
p("C05","8xp -> txt -> 8xp preserves the program",
  "Decoding an 8xp program with an alphabetic name to accessible text and encoding that text again gives the same name, file type, destination, signature, product byte and program text, also when the program is empty, has blank lines or ends in newline tokens and whatever bytes its comment holds. The body bytes are identical whenever the body is what the default encoding would produce for its text.",
  ["inputs","histories"],"all 8xp programs with alphabetic names: bodies, comments, types, destinations, product bytes",
  "The tests compare pre-made pairs and never write a file; blank trailing lines, locked or archived programs, other models and odd comments are not in them.",
  [PR,FT,F8,ENC,DEC,MO],[("text layout","program.rs save_to TXT arm / from_txt.rs"),("newline handling","encode.rs")],["8xp -> txt -> 8xp files"])
p("C06","Every 8xp built from text is a well-formed 8xp file",
  "Every 8xp file built from a text file is a 55-byte header (the model's signature, 1A 0A, the model's product byte, a 42-byte zero-padded comment, the length of what follows minus the checksum), 19 bytes of metadata whose flag, lengths, type, zero-padded name, version and destination are right, the body, and a 2-byte checksum equal to the low 16 bits of the sum of all metadata and body bytes.",
  ["inputs","configurations"],"all encodable text files: names, types, destinations, models, bodies from empty to the size limit",
  "Tests check lengths and checksum of nine unlocked RAM programs with model 'latest', in memory, never a file.",
  [FT,PR],[("header/metadata builder","from_txt.rs create_from_txt"),("file writer","program.rs save_to")],["bytes of the written 8xp file"])
p("C07","Text file headers are honoured or refused",
  "A text file's six header lines (name, comment, file type, destination, display mode, model) decide the name, type, destination, character set and model of what is built from it. A file with a missing header line, a name that is longer than 8 or not ASCII-alphabetic, or an unknown type, destination or display mode is refused with a non-zero exit and no output.",
  ["inputs"],"all combinations of valid header values, and every single-line corruption of a valid header",
  "Test texts all have valid names, Program, RAM, accessible, latest; no invalid header is tested.",
  [FT,PR,MO],[("header parse","from_txt.rs create_from_txt"),("from_string tables","program.rs FileType/Destination, mod.rs DisplayMode")],["exit status, output file, JSON export"])
p("C08","Format chains lose nothing and agree with direct conversion",
  "Copying a program 8xp to 8xp or through JSON back to 8xp reproduces every byte of a valid file, and any chain of conversions through 8xp and JSON followed by an export to text, JSON or 8xp gives exactly what the direct conversion gives, including the calculator model and display mode. Re-saving a text file as text, or through JSON, keeps it equivalent: it encodes to the same program as the original text.",
  ["inputs","histories"],"all valid 8xp programs and text files x chains of formats up to length 5 x display modes",
  "No test saves a file or touches JSON at all.",
  [PR,MO,F8,FT,TK],[("serde (de)serialisation","program.rs, models.rs, tokens/mod.rs Deserialize for Model"),("save_to","program.rs")],["bytes of every file in the chain"])
p("C09","Edits change their own field, and the file stays valid",
  "After any sequence of rename, comment, lock, unlock, archive and unarchive commands on an 8xp program, in place or to new files, the file differs from the original only in the fields those commands set (the last setting of each wins; names are upper-cased, comments and names zero-padded) and in the checksum, which is again the sum of metadata and body. The body, lengths and all other header bytes are untouched. An edit that is saved in another format gives what the same edit and a conversion to that format give.",
  ["histories","inputs"],"all valid 8xp files x command sequences up to length 8, in place or to new files",
  "Tests apply a single edit (or a pair) to one file in memory, never save it and never look at the checksum.",
  [PR,ED]+EDS,[("field writers","program.rs Header::comment, Metadata::*"),("save_edits","commands/edit/mod.rs")],["file bytes after each command"])
p("C10","Invalid edits are refused and leave the file untouched",
  "rename accepts exactly the names of at most 8 ASCII letters and comment accepts exactly comments of at most 42 bytes; any other value is refused with a non-zero exit, and neither the program file nor any other file is created or changed.",
  ["inputs"],"all argument strings around the limits, ASCII and not, in place and with -f/-d",
  "Five hand-picked strings, only at the library call, without looking at files.",
  [PR]+EDS[:0]+["src/commands/edit/rename.rs","src/commands/edit/comment.rs"],[("length and character checks","program.rs rename/comment")],["exit status; directory contents"])
p("C11","An existing file is only replaced with the user's consent",
  "When the output path of a conversion or edit already exists, its content stays byte-identical unless the answer on standard input is y or Y; any other answer, an empty answer or end of input leaves every file as it was and is not an error. With consent and a supported extension it holds exactly what a fresh save would have written, and is otherwise the file it was (links to it stay links, its permissions stay); with an unsupported or missing extension nothing is deleted or changed even with consent. A missing output directory of a mass conversion is made on the same answers; on any other, nothing is saved and it ends with an error.",
  ["inputs","histories"],"all commands that save x existing target contents x answers x extensions x links and permissions of the target",
  "No test calls save_to or answers a prompt.",
  [PR,ED,CV],[("prompt","program.rs save_to")],["file bytes before and after"])
p("C12","delete-old never costs the user the program",
  "The old file is removed exactly when --new-file and --delete-old are both given, the edit was accepted and saved, and the new file is a different file; in every other case (no --new-file, refused edit, declined overwrite, failed save, or a new path that names the input itself in any spelling) the input file still exists, and after every edit command at least one file holds the program with or without the edit.",
  ["inputs","histories","configurations"],"all edit commands x flag combinations x path spellings (./, .., symlinks) x answers x failing targets",
  "The delete-old path has no test.",
  [ED,MA,CL],[("save_edits","commands/edit/mod.rs"),("requires check","cli.rs has")],["directory contents"])
p("C13","A save that fails or is killed never destroys the previous file",
  "If writing the output fails part-way (for instance disk or file-size limit) or the process is killed at any system call, the target path afterwards holds either its complete previous content (or is absent if it did not exist) or the complete new content, and the input file is intact unless it is the target or a fully saved edit deleted it. A failed write is reported as an error, and after a kill the command can be repeated with its usual result; a message that cannot be printed costs nothing either.",
  ["fault_sequences","crash_points"],"every write-size limit and every file-system call at which the process is killed or a call fails, for each saving command and format",
  "No test saves, let alone injects a fault.",
  [PR,ED],[("write_to_file","program.rs")],["file bytes after the fault"])
p("C14","Any input bytes are handled or refused cleanly",
  "Whatever bytes an input file holds, with any supported extension, every command that reads it ends by itself with success or with an error message and a non-zero exit status; it never crashes, and a refused input leaves no output file.",
  ["inputs"],"all byte strings (random, truncated, mutated valid files, wrong-format content, malformed JSON, invalid UTF-8) x extensions 8xp/83p/82p/txt/json x commands",
  "All test inputs are well-formed sample files.",
  [F8,FT,PR,DEC,ENC,ST,CV,DT],[("length and format checks","from_8xp.rs, from_txt.rs, program.rs")],["exit status, stderr, directory contents"])
p("C15","82p and 83p programs are read and written in their own layout",
  "An 82p/83p file (55-byte header, 17-byte metadata without version and destination) loads with its name, type and body; converting it to 8xp gives a well-formed 8xp with correct lengths, zero-padded name and checksum; and saving any program as 82p/83p, or editing an 82p/83p file, writes the 17-byte layout with correct lengths and checksum, so the file reads back as the same program.",
  ["inputs","histories"],"all 82p/83p programs: names of length 0-8, locked or not, bodies, comments; conversions in both directions and edit sequences",
  "The repository has one .82p and one .83p sample that no test loads.",
  [F8,PR,MO],[("metadata translation","from_8xp.rs"),("save_to by extension","program.rs")],["file bytes, details output"])
p("C16","Mass conversion equals converting each file by itself",
  "Mass conversion of a directory writes, for every supported program file in it, exactly the file(s) that converting it alone would produce (8xp/83p/82p to NAME.txt, txt to NAME.8xp, json to both), skips unsupported files, writes nothing else and modifies no input. Where two would be saved under one name, the second is a matter of consent, and with it the outcome is that of converting them one after the other. A supported file that cannot be converted ends it with an error, and what was saved until then is complete.",
  ["inputs","configurations"],"all directories of up to some hundred programs of mixed formats, some of which cannot be converted, with distinct or shared names, plus unsupported files, x display and encode modes x existing, new or the same output directory x order in which the directory is listed",
  "Mass conversion has no test.",
  [CV,PR],[("mass loop","commands/convert.rs")],["contents of input and output directories"])
p("C17","Mass conversion stays inside its output directory",
  "Whatever name a program carries inside its file (empty, with dots, path separators, absolute, non-ASCII), and however its file and the output directory are called, mass conversion creates or replaces files only directly inside the output directory, every converted program is saved under some name there, and it never crashes.",
  ["inputs"],"all 8-byte names including separators, dots, absolute and empty names; JSON names of up to 400 bytes; odd names of input files and of output directories",
  "Mass conversion has no test; sample names are plain letters.",
  [CV],[("output file naming","commands/convert.rs")],["file-system contents outside the output directory"])
p("C18","Exactly the tokens of the target calculator and OS are available",
  "For every calculator model and OS version, loading the token set gives exactly the tokens introduced at or before that model and version and not retired before it, each with its documented renditions. A text or program using a token the model lacks is refused, and one using a token it has is accepted.",
  ["configurations","inputs"],"all 25 models x OS versions occurring in the token sheet and generated ones x all 809 token keys",
  "The test only loads the 'latest' set and checks that this does not fail.",
  [TK,MO,TJ],[("since/until filter and version order","tokens/mod.rs load_tokens, Ord for OsVersion"),("model order","models.rs model_order")],["load_tokens map; convert of one-token programs per model"])
p("C19","Search finds the definition of the token asked for",
  "Searching a text prints every syntax and description documented for the longest token that the text starts with, in the accessible or pretty rendition, the same as searching that token's byte value; a text that starts with no token, an unknown byte value, a malformed byte value or an unknown search type is refused with a non-zero exit.",
  ["inputs"],"all token renditions, texts starting with them, all byte values, arbitrary strings x search types",
  "Search has no test; the tests only check that the definition file parses.",
  [SE,TD,TK],[("key formatting","commands/search.rs fix_byte_format"),("longest match","tokens/mod.rs")],["stdout, exit status"])
p("C20","Results do not vary from run to run",
  "Running the same command on the same input in separate processes gives byte-identical outputs and messages, in all display modes including pretty and ti where several tokens share one rendition.",
  ["inputs","configurations"],"all texts and programs, in particular those containing renditions shared by several tokens, x modes x repeated runs (each with its own hash seed)",
  "Tests run each conversion once per process and only in the accessible mode.",
  [TK,ENC],[("tie-breaking among equally long matches","tokens/mod.rs get_*_matching_token")],["output bytes of repeated runs"])
p("C21","Reported details, previews and listings match the file",
  "details and the preview and content listings report the program's actual name, comment, sizes, model, language, destination, type and text, and the printed bytes are exactly the bytes of the 8xp file that is read or would be written.",
  ["inputs"],"all valid 8xp, text and JSON programs x listing options",
  "No test looks at any output of the command line tool.",
  [DT,CV,PR],[("to_string / print_bytes","program.rs, convert.rs")],["stdout"])
p("C22","Reading commands and conversions never modify their input",
  "convert, details and search never change, move or delete any existing file, other than an output path the user agrees to replace, and a successful conversion creates exactly the requested output file and no other (no backup or temporary file is left behind); without an output path nothing is created at all.",
  ["inputs","configurations"],"all inputs valid or not x commands x options, with bystander files in the directory",
  "No test looks at the file system.",
  [CV,DT,SE,PR],[("save only through the output option","commands/convert.rs")],["directory snapshot before and after"])
p("C23","Equivalent command lines behave identically",
  "Short and long option spellings, any order of the options after the input, and leaving out an option versus giving its documented default all have the same effect on output files, messages and exit status; --help or -h anywhere after a command only prints that command's help.",
  ["configurations","inputs"],"all commands x subsets of their options x spellings x permutations",
  "The argument parser has no test.",
  [CL,MA],[("get_arg/has/get_option","cli.rs"),("command table","main.rs")],["output files, stdout, exit status"])
p("C24","Programs too large for the format are refused, not corrupted",
  "Every text whose encoded body does not fit the 16-bit length fields of the format, and every 82p/83p file too large for the 8xp it is converted to, is refused with an error and no output; every one that fits, up to the limit, gets exact length fields and round-trips.",
  ["inputs"],"body sizes around 2^16-19-1 and beyond, and large bodies generally",
  "The largest sample body is about 10 kB.",
  [FT,F8],[("length computation","from_txt.rs")],["length fields, exit status"])
p("C25","In-memory edits keep a program consistent, failed ones change nothing",
  "For every program and every sequence of library edit calls, a refused call leaves the whole program unchanged, an accepted call updates the named field and its bytes and nothing else, and the decoded fields always agree with the raw bytes, whose sizes stay 55 and 19.",
  ["histories","inputs"],"all valid programs x sequences of up to 20 valid and invalid edit calls",
  "Tests make one or two calls on a single sample and check a slice of the bytes.",
  [PR],[("Header::comment, Metadata::rename/lock/unlock/archive/unarchive","program.rs")],["library state after each call"])
p("C26","The calculator model survives conversion",
  "Every model the models command lists is accepted as a text file's model and gives the 8xp that model's signature and product byte; the 8xp is then recognised as a model with that same signature and product byte, and exports through JSON and text keep naming exactly that model. Distinct product bytes and signatures are never confused with each other, and an unknown product byte is refused.",
  ["configurations","inputs"],"all 25 models, all 256 product bytes x signatures, conversion chains",
  "Every sample uses 'latest' and product byte 0.",
  [MO,FT,F8,TK],[("from_byte/from_model/from_string/to_string","models.rs"),("Model serde","models.rs, tokens/mod.rs")],["header bytes; details model line; JSON model"])
p("C27","Any command line is carried out or refused cleanly",
  "Whatever words a command line consists of (options of other commands, missing or doubled values, paths to directories, links, unreadable or missing things, text that is not Unicode), the program ends by itself without crashing, and says something whenever it ends with a non-zero status. A refused single command changes nothing (only an edit whose old file cannot be deleted keeps its new file), and no command line changes an existing file without a y on standard input, deletes a file other than by an edit with --new-file and --delete-old, or creates a file it was not told to create.",
  ["inputs","configurations"],"all sequences of up to 9 words x kinds of files and directories they name x answers on standard input",
  "The argument parser and the command table have no test.",
  [CL,MA,CV,ED,PR,DT,SE],[("argument lookup","cli.rs get_arg/has/get_option"),("dispatch","main.rs"),("path checks","convert.rs, edit/mod.rs")],["exit status, messages, directory contents"])
p("C28","Results depend on the content, not on where files lie",
  "Carrying out a conversion, a listing, an edit or a mass conversion with its input and output in any directory, under any name with the same extension, however the paths are spelled (relative, absolute, through links, with . or .., from any working directory), gives the same exit status, the same files and the same listing as in an empty directory with plain names. The environment, the permissions and age of the input, the umask and files lying beside change nothing either.",
  ["inputs","configurations"],"all commands and sources x directories, names and spellings of input and output x working directories x environments",
  "No test runs the program at all; the library tests load samples from one fixed directory.",
  [PR,CV,ED,CL],[("type by extension","program.rs get_file_type"),("output names","convert.rs get_output_name"),("temporary file beside the target","program.rs write_to_file")],["output files, stdout, exit status"])
p("C29","What a command reports is what it did",
  "A conversion or mass conversion reports a file as saved, under its program's name and its own path, exactly when that file was created or replaced, and warns about pretty tokens when an 8xp program was saved in pretty mode, never in another mode. An edit reports success, with the field and value it set, exactly when the edited file was saved and the old file deleted if it was told to, and a deletion exactly when the old file is gone. A command that saved nothing reports no success, and ends with status 0 only if replacing a file was declined or if it was asked to show the program instead.",
  ["inputs","histories","fault_sequences"],"all sources, edits and output paths (fresh, taken, missing, unwritable, unsupported) x answers x damaged inputs",
  "No test looks at what the commands print or how they end.",
  [CV,ED,PR]+EDS,[("success messages","convert.rs, edit/*.rs"),("save result","program.rs save_to")],["stdout and exit status against the directory's files"])
p("C30","The JSON export describes the program completely and truly",
  "Every field of a program's JSON export, whatever file it was made from and whatever edit it went through on the way, is what an independent reading of the program says: the raw bytes of header, metadata, body and checksum, the fields and lengths decoded from them, the text in the display mode, the mode itself and the calculator model. Exporting a JSON file as JSON again gives the same bytes.",
  ["inputs","configurations"],"all 8xp, 82p, 83p and text programs x models x display modes x edits saved as JSON",
  "No test reads or writes JSON.",
  [PR,MO,F8,FT,TK,ED],[("Serialize of Program and its parts","program.rs"),("model serialisation","models.rs, tokens/mod.rs"),("field decoding","from_8xp.rs, from_txt.rs")],["fields of the written JSON file"])
p("C31","Commands that overlap leave what some order of them leaves",
  "When two commands work in the same directory at the same time, on the same or on different files, each one that is interrupted by the other before any of its file operations or messages ends as it does before or after the other (a mass conversion may also miss a file that is moved away), and every file then holds what the two in some order, or one of them alone, would have left in it. No other file is left behind, and a program that is being moved is never lost.",
  ["schedules","inputs"],"all pairs of conversions, edits, moves, mass conversions and readers x points of interruption, also of both",
  "Tests never run the program, let alone two at a time.",
  [PR,ED,CV],[("replacement of files","program.rs write_to_file"),("save, then delete","edit/mod.rs save_edits"),("output directory","convert.rs")],["the directory after both commands, their exit status"])
p("C32","Input that comes in pieces or fails to be read is never taken for less input",
  "When what a command reads (its input, a directory, the answer to a question) comes in pieces of any size or with interruptions, its files, messages and exit status are the same as otherwise. When opening or reading the input fails, at any point, the command reports it, ends with a non-zero status and changes no file (a mass conversion may have saved complete files before). An answer that cannot be read counts as no.",
  ["fault_sequences","inputs"],"all commands and sources x each opening and reading x errors, interruptions and short results",
  "Tests read complete files from a working disk.",
  [F8,FT,PR,CV],[("reading of inputs","from_8xp.rs, from_txt.rs, program.rs load_from_json"),("directory listing","convert.rs"),("answers","program.rs save_to, convert.rs")],["outputs, messages, exit status, the whole directory"])
p("C33","The options of a command are exactly those its help lists",
  "Help lists every documented command with its documented options, the same in each way to ask for it, and asking changes nothing. A word that is none of the options listed for the command (another spelling, a prefix, an option of another command, options joined with a value or with one another), or a listed option that lacks its value, is refused or has no effect at all. A word that is not a command does nothing and is reported.",
  ["inputs","configurations"],"all commands x all words that look like options x positions on the line",
  "No test passes a command line.",
  [CL,MA],[("help","cli.rs cli_help"),("finding options","cli.rs find_position"),("declared options","main.rs")],["help text; outputs, messages and status with and without the word"])
p("C34","What the library offers agrees with itself and with the commands",
  "For a program that uses the ti_tools library, OS versions are totally ordered by model generation and then by number, the longest and shortest match in any token set are the longest and shortest rendition that starts the text (settled by the key among equals), and file types, destinations, modes, models and kinds of files are exactly those their documented names, bytes and extensions stand for. Loading a file and saving it in any format leaves what the convert command leaves and refuses what it refuses; a loader refuses files of another kind.",
  ["inputs","configurations"],"all lists of OS versions x all token sets and texts x all bytes and names x all files, intact or not, loaders, modes and formats",
  "The tests load sample files; they compare no versions, fill no token sets and look up no names.",
  [TK,MO,PR,"src/calculator/mod.rs"],[("order of OS versions","tokens/mod.rs impl Ord for OsVersion"),("matching","tokens/mod.rs Map"),("names and bytes","models.rs, program.rs, mod.rs from_byte, from_string"),("loaders","program.rs load_from_8xp, load_from_txt, load_from_json")],["results of library calls; files saved by the library and by the command"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,x["id"]
    n=len([s for s in re.split(r"(?<=[.;])\s+(?=[A-Z])",x["statement"]) if s]); assert n<=3,(x["id"],n)
print(len(P))
