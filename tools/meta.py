ENUM = "bounded exhaustive enumeration of executions of the real code (every word of complete word families up to a stated length), relational oracle"
MODEL = "explicit-state model checking: every state (word) of a reference spelling model up to a bound, each trace replayed against the real code"
GM = "aksharamukha/GeneralMap.py"
CV = "aksharamukha/Convert.py"
CF = "aksharamukha/ConvertFix.py"
PRE = "aksharamukha/PreProcess.py"
POST = "aksharamukha/PostProcess.py"
PO = "aksharamukha/PostOptions.py"
TR = "aksharamukha/transliterate.py"
TF = "aksharamukha/transliterate_file.py"
GI = "aksharamukha/gimeltra.py"
MI, EI, RO = "aksharamukha/ScriptMap/MainIndic/", "aksharamukha/ScriptMap/EastIndic/", "aksharamukha/ScriptMap/Roman/"

PROPS = [
 dict(id="C01", title="Indian scripts convert into each other without loss and back",
  statement="For the major Indian scripts (Devanagari, Bengali, Assamese, Gujarati, Gurmukhi, Oriya, Tamil, Telugu, Kannada, Malayalam, Sinhala), converting any well-formed word with nativization off from one script to another and back gives the original word. This holds for all vowels, consonants, nukta letters, vowel signs, anusvara, candrabindu, visarga, virama and clusters of them, apart from letters the target writes alike.",
  over=["inputs", "configurations"],
  quant="all words of the complete families single akshara, two- and three-consonant cluster, vowel hiatus and akshara+consonant over the full alphabet, for every ordered pair of the eleven scripts",
  why="The tests compare a few sample sentences per script; the guarantee ranges over every combination of consonant cluster, vowel sign and modifier in every script pair.",
  files=[CV, CF, GM, MI, EI], mech=[("character-table substitution", CV + " convertScript"), ("per-script fixes and their reversals", CF), ("script tables", MI + ", " + EI)],
  technique=ENUM + ": identity after there-and-back", level="exploration", note="Exhaustive over the stated word families, all pairs; words longer than three aksharas are not explored."),
 dict(id="C02", title="Romanization of an Indian script text is reversible",
  statement="For IAST, ISO 15919, Harvard-Kyoto, ITRANS, Velthuis, SLP1, WX, Titus and the Russian Cyrillic scheme, romanizing a well-formed word of a major Indian script (nativization off) and converting the romanization back into the same script restores the word exactly. Exempt are only sequences that the published scheme itself spells alike (such as ITRANS sh+h, Velthuis a+a).",
  over=["inputs", "configurations"],
  quant="all words of the families akshara, 2- and 3-consonant cluster, vowel hiatus and akshara+consonant, for every pair of script and scheme",
  why="Tests hold a handful of sentences per scheme; ambiguity shows up only in specific letter neighbourhoods (hiatus, aspirates after stops, nukta letters, svaras).",
  files=[CV, CF, PRE, RO], mech=[("separators between ambiguous letters", CV), ("Roman pre-fixes", PRE + " RomanPreFix"), ("tables", RO)],
  technique=ENUM + ": identity after there-and-back", level="exploration", note="Exhaustive over the stated word families."),
 dict(id="C03", title="Every other script and scheme reads back what it wrote",
  statement="For each of the remaining scripts and romanizations, converting a word from Devanagari and back restores the word, for all words built from the letters, signs and sequences which that script keeps apart (with nativization on, fewer than with it off). This covers the Southeast and Central Asian scripts, historic scripts, newly invented scripts and the Library-of-Congress style romanizations.",
  over=["inputs", "configurations"],
  quant="126 scripts/schemes, all words of the families akshara, 2- and 3-consonant cluster, hiatus, akshara+consonant over the script's own repertoire (mc/spec/letters.json); and for 178 scripts/schemes, with nativization off and on, those of the 46044 words of the complete families which the script keeps apart (mc/spec/kept.json, one bit per word)",
  why="Tests give few words per script, nearly all in one direction.",
  files=[CV, CF, EI, MI, RO, PRE, POST], mech=[("per-script output fixes and reversals", CF), ("tables", EI)],
  technique=ENUM + ": identity after there-and-back", level="exploration", note="The repertoire each script distinguishes is a committed table; the oracle is identity."),
 dict(id="C04", title="Each word is written with its proper letters in each Indian-type script",
  statement="For about a hundred Indian-type target scripts, a Devanagari word converted with nativization off is written with exactly the letters, conjunct forms, vowel signs (before or after the consonant as the script requires) and modifiers which the script's letter tables prescribe, in reading order. Letters whose Unicode names agree correspond to each other, apart from the listed exceptions.",
  over=["inputs", "configurations"],
  quant="every word state of the reference model: all aksharas, 2- and 3-consonant clusters, hiatus pairs, three vowels in a row and akshara+consonant words, for 96 scripts",
  why="Tests sample single sentences for each script; a wrong letter, order or conjunct shows only on the words that contain it.",
  files=[CV, CF, GM, MI, EI], mech=[("script tables", MI), ("vowel sign reordering and conjunct fixes", CF), ("ShiftDiacritics", CF)],
  technique=MODEL, level="model_checking", note="The model (mc/model.py, mc/spec/tables.json) is compared with the implementation on every state it describes; 2829 letter correspondences are independently taken from Unicode names."),
 dict(id="C06", title="A text is converted line by line and word by word",
  statement="Converting a text of several lines or several space-separated words, with nativization on or off, equals converting each line or word alone and joining the results (with the target's own word divider where it has one), for every pair of source and target. What stands elsewhere in the text, or the position of a word in it, never changes how a word is written.",
  over=["inputs", "configurations"],
  quant="every ordered pair of neighbouring words from a vocabulary (de Bruijn text), every script pair with a hub script (quick) or every pair of the 170 scripts (thorough), for line and word separators",
  why="Tests convert one short text at a time; context leaks across words appear only for particular neighbours or positions.",
  files=[CV, CF, PRE, TR], mech=[("context-bound regular expressions", CF), ("om handling", CV)],
  technique="exhaustive enumeration of all two-word neighbourhoods (de Bruijn sequences) on the real code, compositional oracle", level="exploration", note="Vocabulary of 16-90 words per script."),
 dict(id="C05", title="Romanizations follow their published tables in both directions",
  statement="IAST, ISO 15919, Harvard-Kyoto, ITRANS, Velthuis, SLP1, WX, Baraha, Titus, scholarly Cyrillic and the Pali varieties of IAST and ISO spell every well-formed word of Devanagari, Telugu, Bengali, Gujarati and Kannada (nativization off) with exactly the letters their published tables give, with the inherent vowel written and separators only where two letters would be misread as one. Reading such a spelling gives the Devanagari word, unless the scheme spells two words alike.",
  over=["inputs", "configurations"],
  quant="every word state (akshara, cluster, hiatus, akshara+consonant) of hand-written transducers of the schemes, both directions",
  why="Round trips are blind to a letter that is wrong in both directions; tests compare few sentences per scheme.",
  files=[CV, CF, PRE, RO], mech=[("inherent vowel and separators", CV), ("tables", RO)],
  technique=MODEL, level="model_checking", note="The transducers (mc/roman.py) are written from the published tables, independently of the code's tables."),
 dict(id="C07", title="Foreign text passes through a conversion unchanged",
  statement="Characters that belong to neither writing system (such as Latin words in a conversion between Indian scripts, Greek, Chinese, Korean, emoji, currency signs, quotation marks, brackets), apart from a few signs reserved as internal marks, come out unchanged wherever they stand between words (nativization off). They also leave the conversion of the neighbouring syllables unchanged.",
  over=["inputs", "configurations"],
  quant="every foreign character of listed Unicode blocks, every one- and two-letter (hub pairs: three-letter) Latin string, in three contexts, for 863 script pairs (thorough: 21156, and complete CJK, Hangul, Ethiopic, Yi, emoji blocks)",
  why="Tests contain nearly no foreign text; internal marker strings and letters of intermediate spellings collide only with particular foreign strings.",
  files=[CV, CF, PRE, PO, TR], mech=[("intermediate markers", CF), ("escape of Latin letters", CV)],
  technique=ENUM + ": identity on the foreign part, and the syllables as converted alone", level="exploration", note="Characters a script uses itself (for example Tibetan brackets) are excluded per script."),
 dict(id="C08", title="Numbers keep their value and get the target's own digits",
  statement="Every decimal number is written with the target script's own digits (ASCII digits where it has none), digit by digit in the same order, for every source, target and nativization setting, alone and between syllables. Kharoshthi and Old Persian write a numeral of the same value and read it back as the same number; between scripts of the Arabic kind the value is kept. The options for Roman and for Indic numerals choose between ASCII digits and the script's own for the scripts that use both.",
  over=["inputs", "configurations"],
  quant="all numbers of up to two (hub scripts and thorough: three) digits for every script pair and both nativization settings; 0..9999 for Kharoshthi and 0..999 for Old Persian (thorough: 99999 and 2999), written and read back",
  why="Tests show single numbers for a few scripts; wrong digits appear only for the digit, place and pair concerned.",
  files=[CV, CF, GM, GI], mech=[("digit tables", MI), ("additive numerals", CF)],
  technique=ENUM + ": value and digit set from Unicode", level="exploration", note="Tolong Siki (font-encoded digits) and the virtual name RomanLoC are left out."),
 dict(id="C09", title="Single and double dandas become the target's own marks",
  statement="The single and the double danda (or the source's own sentence and verse marks) are converted into the target's own single and double mark wherever they stand: at the end, between words, after numbers, after spaces and in any number. With the option that keeps Indic dandas they stay dandas (upright strokes in the common romanizations), and with the one for full stops they become one and two full stops. In the romanizations that allow it, upright strokes count as dandas.",
  over=["inputs", "configurations"],
  quant="every sequence of up to four (thorough: five) tokens out of word, single mark, double mark, space, number, for every script pair with a hub (thorough: every pair) and both nativization settings",
  why="Tests have one danda at the end of a sentence; runs of marks, marks beside numbers, and double marks near single ones are not sampled.",
  files=[CV, CF, PO, POST, GI], mech=[("danda tables", GM), ("option indicDandas", POST)],
  technique=ENUM + ": expected mark from a reviewed table", level="exploration", note="Scripts with only one mark are targets only."),
 dict(id="C10", title="ITRANS text between ## marks is left exactly as it is",
  statement="In ITRANS input, text enclosed in pairs of ## comes out verbatim, character for character, without the marks, in every target script and with nativization on or off. The text outside the marks is converted as it would be alone.",
  over=["inputs", "configurations"],
  quant="every verbatim text of one and two printable ASCII characters, 60 further texts (with blank lines, tabs and other line ends among them) for every target, and every sequence of up to five segments",
  why="Tests hold no such text; the verbatim part goes through every later rewriting stage, each of which can touch some string.",
  files=[TR, CV, PRE], mech=[("## segments", TR)],
  technique=ENUM + ": verbatim segments and compositionality", level="exploration", note="An unclosed ## is covered as the last segment."),
 dict(id="C11", title="A result depends only on the arguments, never on earlier calls",
  statement="A conversion or script detection gives the same result whatever calls were made before it in the same process, in whatever order, including calls with other scripts, options or codes and calls that raise an error. The result does not depend on Python's hash seed either.",
  over=["histories"],
  quant="about a thousand calls (every script, every option, codes, detection, errors): each from the initial state and, where it changes any module state, every core call again; every ordered pair of core calls; complete histories in both directions; several hash seeds",
  why="Unit tests run in one order in one process; shared tables, caches and registries leak only after particular predecessors.",
  files=[TR, CV, CF, GM, PRE, POST, PO, GI], mech=[("lazily loaded tables and caches", TR + " _load_data"), ("shared lists of letters", GM)],
  state=[("module tables", "letter lists, dictionaries and caches shared by all calls", GM)],
  technique="explicit-state exploration of call histories on the real code (state fingerprint of all module data; new states are expanded with every call), oracle: the same call in a fresh process", level="exploration", note="Process environment variables set by third-party libraries are not counted as state."),
 dict(id="C13", title="Every conversion returns a text, free of internal marks",
  statement="For every pair of supported names, with nativization on or off and with any single documented option, converting any text - empty, malformed (signs without letters, doubled signs, stray joiners and punctuation) or long - returns a text and never raises an error, hangs or prints anything. The result contains no private-use, unassigned or control character and none of the placeholders the conversion uses internally, unless it was in the input.",
  over=["inputs", "configurations"],
  quant="every pair of the 176 names; 277 options with every source (input options) or target (output options) (thorough: both, and two hubs); every string of one and two characters of each script's own repertoire (thorough: also three) for 170 sources and 16 (thorough: all) targets; every pair of punctuation marks, joiners and svaras around syllables",
  why="Tests use well-formed sentences of the usual script pairs; errors and left-over marks hide in rarely used names, options and malformed strings.",
  files=[TR, CV, CF, PRE, POST, PO, GM, GI], mech=[("table lookup by name", GM + " CrunchSymbols"), ("option dispatch", TR + " convert"), ("internal markers", POST + " default")],
  technique=ENUM.replace("relational oracle", "oracle: no error, no marker character"), level="exploration", note="GranthaGrantamil, written with a private-use font encoding, may contain private-use characters; Tamil to IPA (a remote service) is left out."),
 dict(id="C14", title="Names match in any case; unknown names change nothing",
  statement="The names of Indian-type scripts, romanizations and options are recognised regardless of upper or lower case. An unknown script name leaves the text unchanged with a warning; unknown option names are ignored without disturbing the known options of the list; and the lists a caller passes are not modified.",
  over=["inputs", "configurations"],
  quant="every single-letter case change of every name, every one-character deletion, doubling and appending of every name, every option in lists with up to three unknown names",
  why="Tests use correctly spelled names only.",
  files=[TR, PRE, POST, PO], mech=[("name lookup", TR + " convert_default")],
  technique=ENUM + ": equality with the call by the exact name", level="exploration", note="Case of Semitic script codes is not claimed."),
 dict(id="C12", title="Calls from several threads do not disturb one another",
  statement="When several threads of one process convert texts at the same time, in any interleaving - also while tables and caches are being loaded for the first time - each call returns what it returns alone, and none raises an error.",
  over=["schedules"],
  quant="every placement of one pre-emption by another complete call, at every line executed (cold start: at a fixed stride of the lines, warm: at all lines where module state may change), for a set of call pairs that covers every loader, cache and shared table",
  why="Tests run in one thread.",
  files=[TR, CV, CF, GM, PRE, POST, PO, GI], mech=[("lazily loaded tables and caches", TR + " _load_data"), ("script tables filled on import", GM + " add_additional_chars")],
  technique="systematic exploration of thread schedules on the real code: a controlled scheduler (line tracing) enumerates every placement of one context switch", level="exploration", note="One context switch per execution (the switched-in call runs to its end); switches are placed at line boundaries."),
 dict(id="C15", title="The route does not matter: direct and through Devanagari agree",
  statement="Converting a word from one script to another gives the same text as converting it to Devanagari first and from there to the target, for every word that the source script writes unambiguously.",
  over=["inputs", "configurations"],
  quant="every pair of Indian-type scripts and romanizations (less those that write for one language), every syllable, cluster and hiatus of the alphabet",
  why="Pairs are tested through a few hub scripts; the code has many branches for particular source and target names.",
  files=[TR, CV, CF, PRE, POST], mech=[("special cases by pair of names", CF), ("conversion through a common representation", CV)],
  technique=ENUM, level="exploration", note="Pairs that are language-specific on purpose are listed in c15.py; between two romanizations words that need separators are left out."),
 dict(id="C16", title="Script and language codes and language names choose the script they mean",
  statement="Naming source and target by ISO 15924 script code, ISO 639 language code, language-script pair or language name, in upper or lower case, gives exactly the conversion obtained by naming the scripts, with the same options. A code that stands for nothing is refused with an error; the text is never converted by a script that was not asked for.",
  over=["inputs", "configurations"],
  quant="about 500 codes and names, as source and as target, in four spellings of case, with and without nativization; every option example by code; all strings of up to three letters and all one-character mutants of the codes as unknown codes (thorough: all pairs of codes, all four-letter strings)",
  why="Tests use a handful of codes.",
  files=[TR, "aksharamukha/yaml/aksharamukha-scripts.yaml"], mech=[("lookup by code", TR + " process_script_tag"), ("lookup by language", TR + " process_lang_tag")],
  technique=ENUM + ": equality with the call by name", level="exploration", note="Codes shared by scripts of equal standing (Brah, Batk, Lana, doi, gon, ja, new, pal, syr) are only claimed together with the other half of the pair."),
 dict(id="C17", title="Detection finds the script of a text, and converts as if it had been named",
  statement="Text written in a script that has its own characters is detected as that script (or as the script whose characters it shares), whatever spaces, digits, dandas and punctuation surround it, and mixed text is detected as the script of most of its letters. Converting with the source left to detection gives exactly the conversion from the detected script, in all naming modes. Detection gives an answer for any text.",
  over=["inputs"],
  quant="every syllable and cluster of 120 scripts; 13 kinds of surroundings; texts of every two scripts; every code point of the first two planes; all strings of two characters and of three over an alphabet of one letter per script and odd characters",
  why="Tests detect a few sentences.",
  files=[TR, GI], mech=[("script of the characters", TR + " auto_detect"), ("input options that follow from the text", TR + " detect_preoptions")],
  observe=["aksharamukha.transliterate.auto_detect", "aksharamukha.transliterate.process"],
  technique=ENUM, level="exploration", note="Scripts that share a Unicode block are only told apart where characters of their own occur."),
 dict(id="C18", title="A text comes out in the script asked for, and is read completely",
  statement="Everything a conversion writes for a word of the source script - with nativization on or off - is written with characters that the target script uses: no letter, sign or helper mark of another script or of an intermediate step is left over, for every source and target. A script reads what it writes itself completely: converting its text to Devanagari leaves no character of it unread.",
  over=["inputs"],
  quant="all syllables, all clusters of two of the core alphabet, hiatus words, digits and dandas, written by each of about 160 scripts and converted to each other one; non-hub pairs over the core alphabet",
  why="Tests compare a few texts per pair; whether a stray mark appears depends on the combination of letters.",
  files=[CV, CF, PRE, POST, MI], mech=[("one-to-one letter replacement", CV), ("spelling rules per script", CF), ("Semitic hub", CV)],
  observe=["aksharamukha.transliterate.process"],
  technique=ENUM, level="exploration", note="Excluded are the marks listed per script in mc/spec/unread.json, language-specific pairs listed in mc/checks/c18.py, and abjad to abjad."),
 dict(id="C19", title="Text, HTML and Word files are converted like their text",
  statement="Converting a text, HTML or Word file writes one new file beside it, named after the file and the two scripts, in which every text is converted with exactly the given options and everything else is as before: tags, attributes, comments, doctype, scripts and style sheets, and all other parts of a Word document (white space between HTML elements aside). The source file is never changed, and when reading or writing fails at any point, the failure is reported rather than passed over.",
  over=["inputs", "fault_sequences"],
  quant="all texts of up to three lines, all HTML trees of up to three nested levels or two siblings, all Word documents of up to three paragraphs over seven kinds, for eight settings of scripts and options; file names; a full disk after every number of bytes (step 3), unreadable, truncated and missing files, an output that cannot be created",
  why="No test converts a file.",
  files=["aksharamukha/transliterate_file.py"], mech=[("file kinds, output name", "aksharamukha/transliterate_file.py"), ("Word package rewriting", "aksharamukha/transliterate_file.py parse_content")],
  observe=["aksharamukha.transliterate_file.process"],
  technique=ENUM, level="exploration", note="Faults are real: the size limit of the operating system stops the write after n bytes in a child process."),
dict(id="C20", title="Vedic accents survive every conversion, in their places",
  statement="The accent marks of Vedic text (udatta or svarita stroke, anudatta, double svarita) are kept by every conversion between Indian-type scripts and romanizations that write accents: the same accents in the same order, none lost, added or turned into another. A word read back carries them on the same syllables, and they do not change the letters around them.",
  over=["inputs"],
  quant="all syllables over 10-50 letters, signs and modifiers with each of three accents and every following letter class, all pairs and triples of accents on longer words; every script and romanization written and read back, and every ordered pair of them; simplified spellings, om, candra vowels and accents on a final consonant aside",
  why="The tests have a few accented words for a few scripts; what an accent does between two letters depends on both and on the script.",
  files=["aksharamukha/Convert.py", "aksharamukha/ConvertFix.py", "aksharamukha/PreProcess.py"], mech=[("accents and separators", CV), ("per-script reading and writing of accents", CF), ("accent normalisation", PRE)],
  technique=ENUM, level="exploration", note="The letters around an accent are compared with the same word without accents; scripts that choose word-final or contextual forms are held to the accents and the round trip only."),
dict(id="C21", title="Every spelling option makes exactly its own replacements",
  statement="A documented pre- or post-processing option changes exactly the spellings it stands for, wherever they occur and nothing else, alone or together with another option, applied in the order given. Options that choose between two spellings of the same letters leave the word the same: the text written with the option is read back as the word written without it.",
  over=["inputs", "configurations"],
  quant="about 230 replacement options in about 500 combinations with source and target; 5000 words, every string that one of the rules of the option acts on in eight contexts, all ordered pairs of these strings; all ordered pairs of options for one source and target; 71 alternative spellings read back",
  why="The tests try an option on one or two words, and never two of them together.",
  files=["aksharamukha/PostProcess.py", "aksharamukha/PreProcess.py", "aksharamukha/transliterate.py"], mech=[("post-options", POST), ("pre-options", PRE), ("application in order", TR)],
  technique=MODEL, level="model_checking", note="The model is a committed, reviewed table of ordered replacements per option; every state (word, options) is replayed on the code. Options that steer the conversion itself (17) are outside."),
dict(id="C22", title="Nativization applies exactly the spelling conventions of the target",
  statement="Switching nativization on changes a converted text only by the usual spelling conventions of its target script (such as nasals before consonants, or letters the script has given up) and by removing the marks that only serve to keep letters apart. This is the same for every source script, and scripts without such conventions differ by these marks only.",
  over=["inputs", "configurations"],
  quant="177 targets, from every Indian-type script and romanization for the 24 targets with conventions and from 14 for the others; 700 to 8000 words: all syllables, all clusters of two and many of three letters, nasals before every letter, word ends",
  why="Nativization is the default, but the tests fix its result for a few words per script.",
  files=["aksharamukha/PostOptions.py", "aksharamukha/PostProcess.py", "aksharamukha/transliterate.py"], mech=[("conventions per script", PO), ("their rules", POST), ("switch", TR)],
  technique=MODEL, level="model_checking", note="The model is a committed table of ordered replacements per target; every state is replayed on the code."),
dict(id="C23", title="Semitic alphabets write words sound by sound and read them back",
  statement="Every word of an Indian script or romanization is written in an alphabet of the Semitic kind (Arabic, Hebrew, Syriac, Phoenician and so on) sound by sound: each consonant by its letter, each vowel by its mark or letter where the alphabet has one, with final forms only at the end of words, and the same from every source. Such a text is read back as the same sounds, alike in every target. Between two of these alphabets every letter becomes its counterpart whatever stands next to it.",
  over=["inputs"],
  quant="33 Semitic alphabets; 30000 words (all syllables, vowel sequences, clusters of two, consonant-vowel-consonant) written and read back with and without nativization; some 400 to 3000 words from 60 sources and to 160 targets; all words of two and many of three letters between all pairs of alphabets",
  why="The tests hold a handful of words per alphabet, mostly from one source.",
  files=["aksharamukha/Convert.py", "aksharamukha/ConvertFix.py", "aksharamukha/PreProcess.py", "aksharamukha/PostProcess.py", "aksharamukha/gimeltra.py"], mech=[("conversion through Latin letters", CV), ("reading fixes", PRE), ("explicit short a", POST), ("letter tables", GI)],
  technique=MODEL, level="model_checking", note="The model is a committed table of letters and marks per alphabet with rules for doubling and final forms; every state is replayed on the code. Words whose spelling can be read in two ways (see DESIGN.md) are left out of reading."),
 dict(id="C24", title="Om is recognised as a word and only as a word",
  statement="The sacred syllable om, standing as a word of its own, is written with the target's own om (a sign, or the letters used for it) wherever it stands in a text: alone, first, last, between words, repeated, beside punctuation or line ends, with nativization on or off. A word that merely begins or ends with the letters some scripts use for om is spelled like any other word, the same from every source script.",
  over=["inputs", "configurations"],
  quant="22 places of om in a text (3 for pairs without a hub script) and 12 words that begin or end like om, for every script pair in which om is read back, both nativization settings for pairs with a hub (thorough: all places, pairs and settings)",
  why="Tests have om at most once in a text; recognising it depends on neighbours and on how the source spells it.",
  files=[CV, GM, PRE], mech=[("om handling by word boundaries", CV), ("om tables", MI)],
  technique=ENUM + ": the same text with another word in place of om", level="exploration", note="Scripts whose om is not read back are targets only. Table mc/spec/om.json."),
 dict(id="C25", title="An option acts only on the scripts it is meant for",
  statement="Giving a conversion an option that belongs to other scripts changes nothing: the result is the same, character for character, as without the option. The scripts an option acts on, as reader or as writer, are fixed and do not grow.",
  over=["inputs", "configurations"],
  quant="every known pre-option and post-option with every script outside its scope, on about 1000 words (thorough: about 2000)",
  why="Tests give each option to the script it is meant for; no test gives the options of one script to another.",
  files=[CV, TR, PRE, POST], mech=[("dispatch of options", TR), ("options", POST)],
  technique=ENUM + ": the same conversion without the option", level="exploration", note="The scope of each option is a table, mc/spec/option_scope.json."),
 dict(id="C26", title="Alternative letters are read like the letters they stand for",
  statement="Many scripts have letters beside those the package writes: final and subjoined forms, archaic and variant letters, tone marks, another set of digits. Wherever such a letter stands, the text is read exactly as if the ordinary letter or sequence it stands for stood there; marks that have no counterpart are left out and change nothing else.",
  over=["inputs"],
  quant="about 370 letters, signs and digits of about 55 scripts, each in 400 to 1500 places (beside every letter and sign it can stand next to), read into five scripts, nativized and not",
  why="The stable tests only read what the package itself writes; the neighbours decide how a letter is read.",
  files=[CF, PRE, "aksharamukha/FallBack.py"], mech=[("reading of alternative letters", CF), ("letters of few scripts", "aksharamukha/FallBack.py")],
  technique=ENUM + ": the same text with the ordinary letter", level="exploration", note="What each letter stands for is a table, mc/spec/alternatives.json."),
]
PROPS.sort(key=lambda p: p["id"])

FINDINGS = [
 dict(property="C26", status="fixed", commit="29d9a90", what="fixed: property=C26 29d9a90 tone marks and other signs without counterpart (Shan, Khmer, Tai Tham) swallowed the inherent vowel in romanizations (Shan ka with a tone mark became k)"),
 dict(property="C26", status="fixed", commit="bdabcf6", what="fixed: property=C26 bdabcf6 subjoined c, ch and j of Marchen were left unread"),
 dict(property="C13", status="fixed", commit="b772136", what="fixed: property=C13 b772136 converting Baraha to Tamil printed the text on standard output"),
 dict(property="C23", status="fixed", commit="22f79db", what="fixed: property=C23 22f79db tsadi with geresh took its final form inside a word before a mater lectionis (Devanagari kacu in Hebrew)"),
 dict(property="C23", status="fixed", commit="ac8f0dd", what="fixed: property=C23 ac8f0dd yeh with hamza of Urdu, Persian and Shahmukhi was left as an Arabic letter in unvocalised alphabets"),
 dict(property="C23", status="fixed", commit="ae4ea24", what="fixed: property=C23 ae4ea24 the nasal of Urdu and Shahmukhi was read as anusvara in some targets and as candrabindu in others"),
 dict(property="C23", status="fixed", commit="8abba83", what="fixed: property=C23 8abba83 Semitic shin became z2aa in HK, sahaa in ITRANS and long e became short e in IAST, HK, ITRANS and Velthuis"),
 dict(property="C23", status="fixed", commit="97050f7", what="fixed: property=C23 97050f7 Old North Arabian th was written with a stray left-to-right mark"),
 dict(property="C23", status="fixed", commit="8b32f37", what="fixed: property=C23 8b32f37 initial candra vowels became bare combining marks in Semitic alphabets"),
 dict(property="C23", status="fixed", commit="b4764d4", what="fixed: property=C23 b4764d4 y with a vowel after a short i left a Latin a in words read from Hebrew, Urdu, Persian and Shahmukhi"),
 dict(property="C23", status="fixed", commit="cbc7d98", what="fixed: property=C23 cbc7d98 the virama was lost or diphthongs split before an initial long a in words read from Arabic and Latin letters"),
 dict(property="C23", status="fixed", commit="09f9c5f", what="fixed: property=C23 09f9c5f initial i, o, u after a vowel left a circumflex in words read from West Syriac"),
 dict(property="C23", status="fixed", commit="0f95eb9", what="fixed: property=C23 0f95eb9 short a was lost before an initial long vowel in words written in Semitic alphabets"),
 dict(property="C09", status="fixed", commit="bab8463", what="fixed: property=C09 bab8463 the option for full stops doubled them in scripts with one mark for both dandas and left dandas that are only written one way"),
 dict(property="C20", status="fixed", commit="cd55a10", what="fixed: property=C20 cd55a10 accents were lost or changed beside an avagraha or a candrabindu, and lost between romanizations"),
 dict(property="C21", status="fixed", commit="61a192e", what="fixed: property=C21 61a192e the alternative spelling of independent vowels of Javanese and Dives Akuru was wrong for u:, ai, au and vowel signs, and read as other vowels"),
 dict(property="C21", status="fixed", commit="a58847b", what="fixed: property=C21 a58847b the archaic jna of Kawi and the Sanskrit jha of Tibetan, written by options, were not read"),
 dict(property="C18", status="fixed", commit="96dc46b", what="fixed: property=C18 96dc46b aspirated c of Urdu and Shahmukhi left a modifier letter in every romanization"),
 dict(property="C18", status="fixed", commit="2febb23", what="fixed: property=C18 2febb23 Hebrew tet was read as t with a stray Q"),
 dict(property="C18", status="fixed", commit="012e22b", what="fixed: property=C18 012e22b Hebrew kaf left Latin a in Indian scripts"),
 dict(property="C18", status="fixed", commit="1f41625", what="fixed: property=C18 1f41625 Baraha ~e was left unread"),
 dict(property="C18", status="fixed", commit="c115fec", what="fixed: property=C18 c115fec Baraha Kx became kh with a stray nukta mark in romanizations and Semitic scripts"),
 dict(property="C18", status="fixed", commit="a6a011b", what="fixed: property=C18 a6a011b Baraha nx left a middle dot in Tamil"),
 dict(property="C19", status="fixed", commit="6401a31", what="fixed: property=C19 6401a31 HTML files lost their doctype; comments became visible text; scripts and style sheets were transliterated"),
 dict(property="C19", status="fixed", commit="9de255a", what="fixed: property=C19 9de255a Word files with an empty text run raised an error"),
 dict(property="C19", status="fixed", commit="f07aa6c", what="fixed: property=C19 f07aa6c pre-options and post-options were exchanged for Word files"),
 dict(property="C19", status="fixed", commit="8166a80", what="fixed: property=C19 8166a80 a Word or HTML file with .txt in its path was taken for a text file"),
 dict(property="C08", status="fixed", commit="cec36ff", what="fixed: property=C08 cec36ff Kharoshthi and Old Persian numerals were read back as sums such as 10#2# and zero was dropped"),
 dict(property="C18", status="fixed", commit="a134222", what="fixed: property=C18 a134222 Ahom e with anusvara, Ahom au before a final consonant and Tai Tham mai kang lai after vowels were left unread"),
 dict(property="C01", status="fixed", commit="eddb965", what="fixed: property=C01 eddb965 Gurmukhi addak merged or misread geminates of letters with nukta"),
 dict(property="C02", status="fixed", commit="dc3e506", what="fixed: property=C02 dc3e506 SLP1 wrote nukta letters with the letter for ddha"),
 dict(property="C02", status="fixed", commit="d39465a", what="fixed: property=C02 d39465a hiatus separator before long i / u was not removed when reading romanized text"),
 dict(property="C02", status="fixed", commit="f7e20fc", what="fixed: property=C02 f7e20fc Cyrillic letters with macron below were read as anudatta"),
 dict(property="C02", status="fixed", commit="6cbc294", what="fixed: property=C02 6cbc294 Bengali/Assamese/Oriya o + candrabindu inside a word was romanized as om"),
 dict(property="C06", status="fixed", commit="1ee0edb", what="fixed: property=C06 1ee0edb Thai word-initial cluster with preposed vowel was written differently at the start of the text"),
 dict(property="C06", status="fixed", commit="aab29bb", what="fixed: property=C06 aab29bb in a run of om words only every second one was recognised"),
 dict(property="C06", status="fixed", commit="95dc8e1", what="fixed: property=C06 95dc8e1 Velthuis om was matched as a regular expression (o m, ohm read as om)"),
 dict(property="C10", status="fixed", commit="d590ab2", what="fixed: property=C10 d590ab2 text between ## marks of ITRANS input was normalized and nativized"),
 dict(property="C13", status="fixed", commit="a890be9", what="fixed: property=C13 a890be9 the pre-options OriyaSubojinedVa, removeZW and IPAIndic always raised an error"),
 dict(property="C09", status="fixed", commit="71702fe", what="fixed: property=C09 71702fe the options indicDandas and romanFullStop raised IndexError for Semitic scripts"),
 dict(property="C13", status="fixed", commit="2cee0dd", what="fixed: property=C13 2cee0dd conversions between the Batak scripts and RomanLoC raised IndexError or ModuleNotFoundError"),
 dict(property="C13", status="fixed", commit="6ef0fe9", what="fixed: property=C13 6ef0fe9 the option shvanakhall left its internal mark U+0BDE in the output of all scripts but Hebrew"),
 dict(property="C13", status="known", key='{"source": "PersianDMG", "unreadable": true}', case={"source": "PersianDMG", "target": "Devanagari", "nativize": False, "text": "kit\u0101b"},
      what="every conversion from PersianDMG raises AttributeError (the reading of this romanization, listed as supported in README, was never written)"),
 dict(property="C16", status="fixed", commit="7ed83a1", what="fixed: property=C16 7ed83a1 only the first language code listed for a script was recognised (mr gave Modi, ben and hin nothing)"),
 dict(property="C16", status="fixed", commit="54e53d4", what="fixed: property=C16 54e53d4 the ISO 15924 code Maka of Makasar was not known"),
 dict(property="C17", status="fixed", commit="f692138", what="fixed: property=C17 f692138 autodetect raised an error with language names and ignored the detected input options with codes"),
 dict(property="C17", status="fixed", commit="395198c", what="fixed: property=C17 395198c detection raised an error on text without named characters"),
 dict(property="C17", status="fixed", commit="867ba48", what="fixed: property=C17 867ba48 Gunjala Gondi, Masaram Gondi and Hanifi Rohingya were detected under unsupported names"),
 dict(property="C17", status="fixed", commit="c795625", what="fixed: property=C17 c795625 spaces, digits, dandas and modifier letters outvoted the letters in detection (one Bengali letter and a danda gave Devanagari)"),
 dict(property="C17", status="fixed", commit="fbb2a83", what="fixed: property=C17 fbb2a83 spaces and punctuation outvoted the letters of Semitic scripts in detection"),
 dict(property="C18", status="fixed", commit="78d7176", what="fixed: property=C18 78d7176 Soyombo letters with nukta were written as other letters, one of them of Zanabazar Square"),
 dict(property="C16", status="known", key='{"sanskrit_or_pali_in": "Mymr"}', case={"param": "lang_code", "src": "pi-Mymr", "tgt": "hi", "names": ["Burmese", "Devanagari"], "nativize": False},
      what="the language codes sa-Mymr, san-Mymr, pi-Mymr and pli-Mymr select the Tai Laing variety of the Myanmar script (the last one in the table) instead of Burmese"),
 dict(property="C24", status="fixed", commit="78d59ad", what="fixed: property=C24 78d59ad words that begin with the letters of om (Telugu omkara) were spelled with om in romanizations"),
 dict(property="C24", status="fixed", commit="dbe562b", what="fixed: property=C24 dbe562b oum in Baraha was read as the letters au and m"),
]
