import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Neologdn normalization follows its documented rules for every text",
 "For every text, neologdn normalization yields exactly: full-width letters, digits and symbols (except ＝) become half-width and half-width katakana and kana punctuation become full-width; hyphen look-alikes become '-', long-vowel look-alikes become 'ー'; half-width/ideographic spaces survive only as a single space between two ASCII alphanumerics (before tilde removal); tilde look-alikes are removed; runs of 'ー' left after those removals collapse to one; and a kana of the か, さ, た and は rows or う (either script) followed by ゛, or one of the は row followed by ゜, is composed. Every character no rule names comes out unchanged and in order.",
 ["inputs"],"All Unicode texts, of any length and in any mixture of scripts.",
 "The tests assert about 25 fixed sentences; the rules interact (spaces, tildes, long-vowel marks and voiced marks expose each other), so correctness is a statement about all character sequences.",
 ["src/modifier/neologdn.rs","src/modifier/dotted_space_eliminator.rs","src/modifier/consecutive_character_reducer.rs","src/modifier/character_eliminator.rs","src/modifier/ligature_translator.rs","src/modifier/character_converter.rs"],
 [("fixed pipeline of five steps","src/modifier/neologdn.rs Neologdn::modify"),("tables of hyphens, long-vowel marks, tildes, voiced kana","src/modifier/neologdn.rs")],
 ["Chanoma::neologdn().normalize","Chanoma::use_neologdn"])

p("C02","Neologdn output is in normal form and normalizing it again changes nothing",
 "For every text, applying neologdn normalization to its own output returns that output unchanged. The output never contains a tilde look-alike, two adjacent 'ー', a half-width or ideographic space anywhere but singly between two ASCII alphanumerics, a full-width letter or digit, or a composable kana-plus-゛/゜ pair (か, さ, た, は rows and う; ゜ only for the は row).",
 ["inputs"],"All Unicode texts.",
 "No test normalizes twice; steps that delete characters can bring together characters an earlier step already judged, which only shows on particular mixtures of spaces, tildes and marks.",
 ["src/modifier/neologdn.rs"],
 [("order of the pipeline's steps","src/modifier/neologdn.rs Neologdn::modify / modify_with_positions")],
 ["Chanoma::neologdn().normalize"])

p("C03","The preset converts exactly the predefined characters, one for one",
 "For every text, preset normalization replaces each full-width letter, digit and listed symbol by its half-width counterpart, each half-width katakana letter and kana punctuation mark by its full-width counterpart and the ideographic space by a space, and leaves every other character as it is. The result has as many characters as the input, character i depends only on input character i, and normalizing again changes nothing.",
 ["inputs"],"All Unicode texts: every scalar value, in every position and neighbourhood.",
 "Tests cover a handful of katakana and the ASCII range in neologdn mode; nothing checks the million characters that must stay untouched or independence from neighbours and length.",
 ["src/chanoma.rs","src/characters_set.rs","src/characters_set/alphabets.rs","src/characters_set/digits.rs","src/characters_set/kanas.rs","src/characters_set/punctuations.rs","src/modifier/character_converter.rs"],
 [("preset table is the sum of four predefined sets","src/characters_set.rs All::items"),("per-character map","src/modifier/character_converter.rs modify")],
 ["Chanoma::preset().normalize","Chanoma::use_preset","TableBuilder::preset"])

p("C04","Normalizing with and without positions, or with debug logging, agree",
 "For every normalizer and every text, the plain result, the final text of the position-recording variant, and the plain result while debug logging is enabled are the same string. This includes a normalizer with no steps configured, for which all three return the input unchanged.",
 ["inputs","configurations"],"All normalizers (every single step, every combination of steps, none at all), all texts, both log levels.",
 "Each step has two separate implementations; tests compare them on neologdn sentences only, never per step, never with logging enabled and never for an empty normalizer.",
 ["src/chanoma.rs","src/modifier.rs","src/modifier_kind.rs","src/modifier/character_converter.rs","src/modifier/consecutive_character_reducer.rs","src/modifier/trim.rs","src/modifier/neologdn.rs"],
 [("two implementations per step kept in step by hand","src/modifier/*.rs modify and modify_with_positions"),("log-level switch","src/chanoma.rs Chanoma::normalize")],
 ["Chanoma::normalize","Chanoma::normalize_with_positions"])

p("C05","Steps run in the order they were added, each on the previous step's output",
 "However a normalizer is assembled (from nothing, from the preset, neologdn, a table or a configuration file, followed by any sequence of additions), its result equals running each part on its own, in the order added, on the output of the one before. The position-recording variant yields one record per step in that order, each naming that step and holding its output.",
 ["histories","inputs"],"All sequences of construction and addition calls, interleaved with normalization calls; all texts.",
 "Tests use single-step normalizers; ordering only shows with two or more steps that do not commute.",
 ["src/chanoma.rs","src/modifier.rs"],
 [("ordered list of steps, folded over the text","src/chanoma.rs Chanoma::normalize / normalize_with_positions / use_* / add_table")],
 ["Chanoma::{new,preset,neologdn,from_table,from_config_file,use_preset,use_neologdn,add_table,normalize,normalize_with_positions}","ModifiedRecords::modified_records"],
 [("steps","ordered list of configured steps","src/chanoma.rs Chanoma.modifiers")])

p("C06","Recorded positions locate every change in the step's input",
 "For every text, the positions recorded by a character-conversion, run-reduction or trimming step each locate a span of that step's input both in bytes and in characters: the input at the byte span and at the character span is exactly the recorded original text. The spans do not overlap, and substituting every recorded replacement at its span turns the step's input into the step's output.",
 ["inputs","configurations"],"All texts (any mixture of 1- to 4-byte characters), all tables, all reduced characters.",
 "No test looks at a recorded position; offsets are only wrong for particular mixtures of multi-byte characters, repeated runs and run placement.",
 ["src/position.rs","src/modifier/character_converter.rs","src/modifier/consecutive_character_reducer.rs","src/modifier/trim.rs"],
 [("byte and character offset bookkeeping","modify_with_positions of the three steps")],
 ["Chanoma::normalize_with_positions -> ModifiedRecord.positions"])

p("C07","Table conversion substitutes exactly the listed characters, simultaneously",
 "For every conflict-free table of single characters, given programmatically, by CSV or by YAML, each occurrence of a listed character is replaced by its counterpart and every other character is kept, in order. Replacements are not applied to one another's results within a step (chains and swaps convert each original character once), and an entry whose source or target is empty has no effect.",
 ["inputs","configurations"],"All tables (chains, swaps, cycles, any character, any size) and all texts.",
 "Tests convert a few letters with disjoint sources and targets; chains, swaps, repeated characters and characters of differing byte lengths are never exercised.",
 ["src/modifier/character_converter.rs","src/table.rs"],
 [("map from character to character applied per position","src/modifier/character_converter.rs from_tables, modify, modify_with_positions")],
 ["Chanoma::from_table","Chanoma::add_table","Chanoma::from_config_file"])

p("C08","Character elimination removes exactly the configured characters",
 "For every text and every configured set of characters, a character-elimination step deletes each occurrence of a configured character and keeps all other characters unchanged and in order.",
 ["inputs","configurations"],"All sets of characters, all texts.",
 "Only exercised indirectly by one neologdn sentence with one tilde.",
 ["src/modifier/character_eliminator.rs","src/modifier_kind.rs"],
 [("set membership filter","src/modifier/character_eliminator.rs modify")],
 ["Chanoma::from_config_file with a character_eliminator entry"])

p("C09","Run reduction collapses every run of the configured character and nothing else",
 "For every text and configured character, a run-reduction step replaces each maximal run of that character, of any length and anywhere in the text, by a single occurrence, and keeps every other character unchanged and in order.",
 ["inputs","configurations"],"All texts, all run lengths and placements, any configured character.",
 "One test collapses one run in the middle of a word; several runs, runs at the ends, very long runs and multi-byte neighbours are not covered.",
 ["src/modifier/consecutive_character_reducer.rs"],
 [("run flag carried across characters","src/modifier/consecutive_character_reducer.rs modify, modify_with_positions")],
 ["Chanoma::from_config_file with a consecutive_character_reducer entry"])

p("C10","Space elimination keeps one space between ASCII alphanumerics, drops the rest",
 "For every text, a space-elimination step reduces a run of half-width spaces to one space if it stands directly between two ASCII letters or digits, and deletes the run otherwise (including at either end). All other characters, including other kinds of whitespace, are kept unchanged and in order.",
 ["inputs"],"All texts.",
 "Tests cover a few sentences in neologdn mode; the decision depends on both neighbours and on the history of earlier runs.",
 ["src/modifier/dotted_space_eliminator.rs"],
 [("previous-character and pending-space state","src/modifier/dotted_space_eliminator.rs modify")],
 ["Chanoma::from_config_file with a dotted_space_eliminator entry"])

p("C11","Trimming removes leading and trailing half-width spaces and nothing else",
 "For every text, a trim step removes all half-width spaces before the first and after the last other character (all of them if there is no other character) and changes nothing else: inner spaces and other whitespace such as tabs, newlines and ideographic spaces stay, also at the ends.",
 ["inputs"],"All texts.",
 "No test runs a trim step on any text.",
 ["src/modifier/trim.rs"],
 [("prefix/suffix stripping","src/modifier/trim.rs modify, modify_with_positions")],
 ["Chanoma::from_config_file with a trim entry"])

p("C12","Ligature translation replaces every listed sequence, the same way on every load",
 "For every set of sequences that neither overlap one another nor share characters with the replacements (which are not empty), a ligature step replaces every left-to-right non-overlapping occurrence of each sequence by its replacement and changes nothing else. For every set whatsoever, including overlapping or chained ones, loading the same configuration and normalizing the same text always gives the same result.",
 ["inputs","configurations","schedules"],"All maps of sequences, all texts, all iteration orders of the underlying hash map.",
 "One test composes two kana; conflicting entries are never tested and a randomly ordered map passes any single run.",
 ["src/modifier/ligature_translator.rs"],
 [("entry-by-entry string replacement","src/modifier/ligature_translator.rs modify")],
 ["Chanoma::from_config_file with a ligature_translator entry"])

p("C13","Results depend only on configuration and text, not on history or thread",
 "Normalizing a text gives the same text and the same recorded positions whatever calls were made before on the same or other normalizers, on whichever thread the call runs, also if it is made by the logger in the middle of another call, while a panic unwinds or as a thread ends, and for every separately built normalizer with the same configuration in every run of the program.",
 ["histories","schedules","inputs"],"All histories of calls over several normalizers and threads at call granularity, all hash seeds, all texts.",
 "Each test builds a fresh normalizer and makes one or two calls, so state carried from one call to the next or seeded by hashing never shows.",
 ["src/chanoma.rs","src/modifier/character_converter.rs","src/modifier/ligature_translator.rs","src/modifier/character_eliminator.rs"],
 [("normalization takes &self and builds its working state afresh","src/chanoma.rs normalize")],
 ["Chanoma::normalize","Chanoma::normalize_with_positions"])

p("C14","Tables behave as sets of entries under any sequence of additions and removals",
 "After any sequence of adding and removing entry collections (by operators, on a table, on a builder, or from CSV/YAML files), a table holds exactly the entries of the corresponding set union/difference, with no duplicate after an addition, and any two sequences of operations on an empty table that reach the same entries give the same table. Removing an entry affects only that exact source-target pair, operands are not modified, and a file load that fails leaves the table as it was.",
 ["histories","fault_sequences"],"All sequences of additions, removals and failing or succeeding file loads over a universe of entries that share sources and targets.",
 "Tests apply one operator once to one- or two-entry collections; they never chain operations, share sources or targets between entries, or fail a load midway.",
 ["src/corr.rs","src/corr/linear.rs","src/corr/unification.rs","src/table.rs"],
 [("set union / difference with sorting","src/corr.rs Add, AddAssign, Sub, SubAssign"),("load completes before the table is touched","src/table.rs add_from_csv, add_from_yaml")],
 ["Correspondence + - += -=","Table::add/remove/items","TableBuilder::{preset,add_corr,remove_corr,add_from_csv,add_from_yaml,build}"],
 [("entries","current set of (from, to) pairs","src/table.rs Table.corr")])

p("C15","Exporting a table to CSV and loading it back restores the same entries",
 "For every table, writing the CSV export below a header line to a file and loading that file yields exactly the same set of entries, whatever characters (separators, quotes, line breaks, multi-byte) the entries contain. The exporter never reports success with data missing when the sink accepts only part of each write or fails, and the preset dump printed by the export tool in CSV format, used as a configuration file as it is, restores the complete preset.",
 ["inputs","fault_sequences"],"All tables; all short-write, interruption and error patterns of the sink up to one fault.",
 "One test exports five plain entries and another reads a hand-written file; nothing reads an export back.",
 ["src/file.rs","src/corr.rs","src/bin/output.rs"],
 [("rows grouped by target, last column is the target","src/file.rs to_csv_writer, table_from_csv_path"),("grouping","src/corr.rs Synthesized::item_map")],
 ["file::to_csv_writer","file::table_from_csv_path","the output tool's CSV format"])

p("C16","Exporting a table to YAML and loading it back restores the same entries",
 "For every table, serializing its YAML export to a file and loading that file yields exactly the same set of entries, including entries whose text looks like YAML syntax, numbers, booleans or null. The preset dump printed by the export tool in YAML format, used as a configuration file as it is, restores the complete preset.",
 ["inputs"],"All tables over characters YAML can carry.",
 "No test serializes a table to YAML.",
 ["src/file.rs","src/corr.rs","src/bin/output.rs"],
 [("map from target to list of sources","src/file.rs SerializedCorr, table_from_yaml_path")],
 ["file::to_serialized_corr","file::table_from_yaml_path","the output tool's YAML format"])

p("C17","A CSV configuration maps every leading column of each row to the last one",
 "For every well-formed CSV file, the first line is skipped as a header and every following row contributes one entry per leading column, from that column to the row's last column, in file order; a row with one column contributes none. Row widths may differ, fields may be quoted or contain separators and line breaks, and neither line-ending style, blank lines nor a missing final newline changes the entries.",
 ["inputs"],"All CSV documents: any number of rows, columns, quoting styles and line endings.",
 "One test reads one four-line file.",
 ["src/file.rs","src/table.rs"],
 [("flexible reader, last column as target","src/file.rs table_from_csv_path")],
 ["file::table_from_csv_path","TableBuilder::from_csv_path","TableBuilder::add_from_csv","Chanoma::from_config_file"])

p("C18","A YAML configuration yields its steps in document order, then its entries",
 "For every valid YAML configuration, the steps under 'modifiers' run in the order written and the substitution table under 'items' runs after them. 'items' may be written either as a mapping from target to one source or a list of sources, or as a list of from/to pairs, and both spellings of the same entries load to the same table; a missing section contributes nothing.",
 ["configurations","inputs"],"All valid documents: every subset and order of the seven steps, every spelling and grouping of items.",
 "One fixed document is parsed and compared structurally; the documented list-of-pairs spelling and the order of execution are never tested.",
 ["src/file.rs","src/modifier_kind.rs","src/configuration.rs","README.md"],
 [("document-order iteration over the mapping","src/file.rs modifiers_from_yaml_path, table_from_yaml_path"),("steps first, table last","src/configuration.rs load_file_with_ext")],
 ["Chanoma::from_config_file","file::table_from_yaml_path","TableBuilder::{from_yaml_path,add_from_yaml}"])

p("C19","Exactly the documented configuration files are loaded, once each, in order",
 "If CHANOMARC is set, exactly that file is loaded, and an error is returned if it is missing, not a regular file or not .csv/.yaml/.yml. Otherwise every existing file among chanomarc and .chanomarc with extension csv, yaml or yml in $HOME/.config/chanoma, $HOME and the current directory, in that order (names, then extensions, in the order given), is applied exactly once, even when those directories coincide; nothing else is read. If any of these files cannot be loaded the whole load fails.",
 ["configurations","fault_sequences"],"All subsets of the 18 candidate paths (as regular files, directories, links or broken files), all values of the variable, all coincidences of the directories.",
 "Tests check three helper functions on one value each; no test loads two files, checks their order or combines the variable with files.",
 ["src/configuration.rs","src/file_extension.rs","README.md"],
 [("candidate enumeration and existence filter","src/configuration.rs file_paths, auto_load_dirs, auto_load_paths_from_dir, exists_file_paths, valid_file_path")],
 ["Chanoma::load_rc","Chanoma::from_config_file","FileExtension::from_path"])

p("C20","A malformed configuration is rejected with an error and never crashes",
 "Loading any file as CSV or YAML configuration, whatever its bytes and whatever its path or extension, returns either a working normalizer or an error; it never panics. A path without a supported extension (csv, yaml or yml), an unreadable file, invalid syntax, an unknown step name, and a value of the wrong type anywhere under 'items' or 'modifiers' are errors.",
 ["inputs","fault_sequences"],"All byte strings as CSV; all YAML value trees in every position; all paths and extensions.",
 "Tests only try a file that does not exist; malformed content is never loaded.",
 ["src/file.rs","src/modifier_kind.rs","src/modifier/character_converter.rs","src/modifier/character_eliminator.rs","src/modifier/consecutive_character_reducer.rs","src/modifier/ligature_translator.rs","src/modifier/trim.rs","src/file_extension.rs","src/configuration.rs","src/error.rs"],
 [("conversion of parsed values into steps and entries","from_yaml_value implementations; table_from_yaml_path")],
 ["Chanoma::from_config_file","Chanoma::load_rc","TableBuilder::{from_csv_path,from_yaml_path,add_from_csv,add_from_yaml}","file::*"])

p("C21","Every predefined table is complete, unambiguous and agrees with Unicode",
 "The predefined letter, digit and katakana tables map every full-width letter, every full-width digit and every half-width katakana letter to its standard (compatibility) counterpart, the punctuation table does so for the full-width ASCII symbols apart from the quotation mark, apostrophe and tilde (for which it maps ” ’ 〜), and the squared-characters table gives an expansion for every one of U+3300 to U+33FF that agrees with the standard one up to slash, micro-sign and abbreviation spelling. No table gives two results for one character, and each named entry is the one for the character its name stands for and is contained in its table.",
 ["inputs"],"Every entry of the five tables and every character of the blocks they cover.",
 "Tests touch a fraction of the entries and nothing checks completeness or uniqueness; the squared-characters table is not tested at all.",
 ["src/characters_set/alphabets.rs","src/characters_set/digits.rs","src/characters_set/kanas.rs","src/characters_set/punctuations.rs","src/characters_set/cjk_compatibilities.rs","src/characters_set.rs"],
 [("hand-written tables of constants","src/characters_set/*.rs")],
 ["ALPHABETS.items() and the other public tables","characters_set classes of the Python binding"])

p("C22","The command line prints exactly what the library returns",
 "For every combination of options, configuration and input, the command prints on standard output exactly the library's result for that text followed by a newline and exits successfully, where loaded configuration applies first, then the preset if requested, then neologdn if requested. The text is the argument if given and otherwise the first line of standard input without its newline; the debug option never changes standard output; a configuration that cannot be loaded gives a non-zero exit and prints no result, and a result that cannot be written gives a non-zero exit.",
 ["configurations","inputs"],"All combinations of the three options, argument or standard input, discovered or named configuration (valid, invalid, absent), and texts.",
 "The command has no tests.",
 ["src/main.rs","src/chanoma.rs"],
 [("option handling and dispatch","src/main.rs main")],
 ["the chanoma executable: arguments, stdin, stdout, exit status"])

p("C23","The Python binding behaves like the Rust library for every construction",
 "For every combination of constructor arguments and every text, the Python class returns exactly what the Rust library returns for configuration file (or discovered configuration), then table, then preset, then neologdn. Python tables follow the same preset/CSV/YAML/addition semantics, later changes to a table do not affect normalizers already built from it, and every load failure surfaces as OSError with objects left usable.",
 ["histories","configurations","inputs"],"All argument combinations, all short histories of table additions and normalizer constructions, all texts.",
 "The Python tests make one call per object with one option at a time; combinations, order, aliasing and errors are not covered.",
 ["bindings/python3/src/lib.rs","bindings/python3/src/characters_set.rs"],
 [("thin wrapper translating arguments into library calls","bindings/python3/src/lib.rs")],
 ["chanoma.Chanoma, chanoma.Table, chanoma.Item, chanoma.Correspondence, chanoma.characters_set"])
p("C24","A configuration file replaced during a load is applied old or new, never mixed",
 "When a configuration file is atomically replaced (renamed over, or a link to it or to its directory switched) any number of times while it is being loaded, by any of the loading functions or by automatic discovery, the load gives for that file exactly what loading one of its versions undisturbed gives, including the error of a version that does not load. Steps and entries of different versions are never combined.",
 ["schedules","inputs"],"Every point of a load at which a file is replaced, once or twice; every pair and triple of versions (steps only, entries only, both, malformed, empty, longer than a buffer).",
 "Tests load files that nobody touches; a replacement has to fall between two system calls of one load.",
 ["src/file.rs","src/configuration.rs","src/table.rs","src/chanoma.rs"],
 [("opening and reading the file","src/file.rs table_from_csv_path, yaml_value_from_path; src/configuration.rs load_file_with_ext")],
 ["Chanoma::from_config_file","Chanoma::load_rc","TableBuilder::{from_csv_path,from_yaml_path,add_from_csv,add_from_yaml}","file::{table_from_csv_path,table_from_yaml_path,modifiers_from_yaml_path}"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
