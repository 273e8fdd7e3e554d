X = "exploration"
PBT = "property-based testing with shrinking: "
NOTE = {
 "C01": (X, PBT + "generated programs against a reference decoder, exhaustive over tokens, byte pairs, models and modes", "Every token of every model in every mode and nearly every one- and two-byte unit is tried; sequences are sampled. Trusts the pinned token sheet."),
 "C02": (X, PBT + "generated texts against a reference greedy encoder, exhaustive over renditions", "Every rendition of every model and mode is encoded; texts are sampled. Trusts the pinned token sheet."),
 "C03": (X, PBT + "generated texts against a reference context encoder", "Texts are sampled around strings, names and keywords. The listed closing-quote finding is told apart by an exact model of it."),
 "C04": (X, PBT + "encode/decode round trip of generated texts", "Sampled texts over all models, modes and encodings."),
 "C05": (X, PBT + "8xp/txt/8xp round trip of generated programs", "Sampled programs over all models, types, comments and bodies."),
 "C06": (X, PBT + "generated texts, independent container parser; exhaustive over header combinations", "Bodies are sampled; header field combinations are enumerated."),
 "C07": (X, PBT + "generated and corrupted text headers against the header rules", "Valid combinations enumerated, corruptions sampled."),
 "C08": (X, PBT + "differential chains of conversions against direct ones", "Chains up to 5 conversions sampled."),
}
NOTE.update({
 "C09": (X, PBT + "model-based command histories, whole directory compared after every command", "Histories up to 8 commands on up to 3 files sampled. Bodies are token sequences; the reference edit is byte splicing of the documented fields."),
 "C10": (X, PBT + "generated and enumerated names and comments against the acceptance rule", "Lengths and single characters enumerated, other values sampled; only values that ask for help are left out."),
 "C11": (X, PBT + "generated commands over existing files with generated answers, differential with a fresh save", "Answers padded with blanks are left open."),
 "C12": (X, PBT + "enumerated matrix of path spellings, flags and answers, plus generated programs and edits", "The matrix of 15 path kinds x flags x answers x edits is enumerated; programs are sampled."),
 "C15": (X, PBT + "independent 17-byte-layout writer/parser, differential conversions", "Sampled programs, edits and texts over all models."),
 "C16": (X, PBT + "mass conversion compared with one-by-one conversion of generated directories", "Directories up to 6 files sampled, some of up to 250; programs of a batch have different names."),
 "C17": (X, PBT + "generated hostile program names, file tree compared outside the output directory", "All one-byte names, short combinations of dots and separators enumerated, others sampled. Runs as an unprivileged user in a scratch directory."),
})
NOTE.update({
 "C13": ("fault_enumeration", "fault injection enumerated over generated saves: every write-size limit, failing or killed at every file-system call (LD_PRELOAD shim), oracle: old or new content only", "Programs and commands are sampled; within one save every intercepted call is failed and killed. A kill leaves completed system calls in effect: power loss with unsynced data is not modelled."),
 "C14": (X, PBT + "structure-aware mutation fuzzing of every input format, with and without CPU and memory limits", "Byte strings are sampled: random, truncated at every length, mutated valid files, malformed JSON and texts."),
 "C18": (X, PBT + "model-based comparison of the token sets over models x enumerated and generated OS versions, one-token programs and texts exhaustively", "All models, all versions in the sheet and their neighbours; other versions sampled. Trusts the pinned token sheet."),
 "C19": (X, PBT + "every definition and rendition enumerated, generated search texts against a reference lookup", "Trusts the pinned token sheet and definitions."),
 "C20": (X, PBT + "metamorphic repetition: generated commands repeated in fresh processes must agree byte for byte", "Each repetition has its own hash seed; a tie settled by hash order escapes n repetitions with probability about 2^-(n-1)."),
 "C21": (X, PBT + "generated programs, listings compared with an independent rendering of the file", "Layout words of the listings are not pinned, the values in them are."),
 "C22": (X, PBT + "generated reading commands in directories with bystander files, file tree compared before and after", "Sampled commands and inputs."),
 "C23": (X, PBT + "metamorphic: generated equivalent command lines (spelling, order, defaults) must agree", "Permutations of options after the input are sampled."),
 "C24": (X, PBT + "generated texts with body sizes around the 16-bit limits, independent container parser", "Sizes around the limit enumerated, others sampled."),
 "C25": (X, PBT + "model-based sessions of library edit calls, whole state compared after every call", "Sessions of up to 20 calls sampled, value lengths 0-60 enumerated. The checksum is not looked at in memory."),
 "C26": (X, PBT + "all models, product bytes and signatures enumerated; generated conversion chains", "Chains sampled; an unknown product byte must be refused."),
 "C27": (X, PBT + "every kind of path for every command enumerated, generated and mutated command lines, file tree compared before and after", "Up to 9 words; runs as an unprivileged user in a scratch directory. Inputs that never end (open pipes) are left out."),
})
NOTE.update({
 "C28": (X, PBT + "metamorphic: the same command with its files at enumerated and generated places must give the same result", "Directories, names and spellings enumerated one side at a time, both sides sampled. The order of messages of a mass conversion is left open."),
 "C29": (X, PBT + "generated commands with faults and answers, messages and status compared with the change of the file tree", "Faults are unwritable and missing directories, unsupported extensions and damaged inputs. Values hold style directives and characters beyond ASCII as well."),
})
NOTE.update({
 "C30": (X, PBT + "generated programs, every field of the JSON export against an independent parse", "Sampled programs, texts and edits. Fields that are added to the export are not looked at."),
 "C31": (X, PBT + "generated pairs of commands under enumerated and sampled schedules (LD_PRELOAD shim), outcomes compared with those of every order", "Every single interruption of a generated pair is run, interruptions of both are sampled. Processes stop before calls that change the file system, look at a path or print."),
 "C32": ("fault_enumeration", PBT + "faults, interruptions and short results (LD_PRELOAD shim) at every enumerated reading of fixed and generated commands, compared with the undisturbed run", "Every opening and reading of each command run is hit. Failing looks at a path (stat) are not among the faults."),
 "C33": (X, PBT + "help texts parsed and compared with the documentation; metamorphic: command lines with and without enumerated and generated unlisted words", "Every command with every listed kind of unlisted word at one place each; places and combinations with generated programs are sampled."),
 "C34": (X, PBT + "generated library calls against reference models (order, matching, names) and differentially against the convert command (files)", "All 256 bytes enumerated per case, everything else sampled. Renditions are not empty and shorter than 9999 bytes."),
})
