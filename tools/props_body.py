from checks import scripts as S, ortho as O
full=[s for s in S.ROUND if s!='Devanagari']
p("C01","Round trip through another script loses nothing",
 "Converting Devanagari text with Sanskrit spelling into a target script that tells its letters apart, and the result back into Devanagari, both with nativization off, gives back exactly the original text. This holds for running text of any length with words, punctuation, dandas, digits, avagraha and line breaks, as long as it uses only letters and letter sequences that the target does not merge.",
 ["inputs"],
 "all Devanagari texts over the letters a target distinguishes, no length bound; targets: "+', '.join(full)+"; for Malayalam, Gurmukhi and Tamil over texts that use the consonants of one of several overlapping sets at a time",
 "the tests compare a few thousand fixed word pairs in one direction or the other; a rule that misfires only on some cluster, next to some sign or at some word edge is not among them",
 ["aksharamukha/transliterate.py","aksharamukha/Convert.py","aksharamukha/ConvertFix.py","aksharamukha/PreProcess.py","aksharamukha/PostProcess.py","aksharamukha/ScriptMap"],
 [("process / convert","aksharamukha/transliterate.py"),("convertScript letter mapping","aksharamukha/Convert.py"),("Fix<Script>(reverse) orthography fixes","aksharamukha/ConvertFix.py")])
p("C02","Converting by way of another script changes nothing",
 "With nativization off, converting Devanagari text into a first script and the result into a second script gives the same text as converting the Devanagari text directly into the second script. This holds for text of any length over the letters and sequences that the first script tells apart.",
 ["inputs","configurations"],
 "ordered pairs of distinct scripts other than Devanagari among: "+', '.join(s for s in full if s not in ('BengaliRaBa','Mongolian','IPA','IASTPali','ISOPali','WX-kok'))+"; all texts, no length bound",
 "the tests pin single conversions for sample words; agreement between the Indic-Indic, Indic-Latin, Latin-Indic and Latin-Latin conversion paths is asserted nowhere",
 ["aksharamukha/Convert.py","aksharamukha/ConvertFix.py","aksharamukha/PreProcess.py","aksharamukha/ScriptMap"],
 [("four conversion paths of convertScript","aksharamukha/Convert.py"),("CrunchSymbols letter tables","aksharamukha/GeneralMap.py"),("Fix<Script>","aksharamukha/ConvertFix.py")])
p("C03","Each Devanagari letter is written with the target's own letter",
 "Devanagari text is written in the target script letter for letter with the character the script has for that letter (its Unicode namesake or the established substitute) and with the script's own rules for conjuncts, repha, anusvara and similar signs; for a romanization, with the published letter table and the inherent a written out. With nativization on, exactly the target's documented conventions are applied on top (for example homorganic nasals written as anusvara in Telugu and Kannada), and nothing else changes.",
 ["inputs","configurations"],
 "all Devanagari texts over the letters the target has, no length bound; nativization off and on; targets: "+', '.join(list(O.EXC)+list(O.ROMAN)),
 "the tests compare sample words per script; a wrong letter in one row of a table, or a context rule that fires once too often, is only seen if a sampled word happens to contain it",
 ["aksharamukha/ScriptMap","aksharamukha/GeneralMap.py","aksharamukha/Convert.py","aksharamukha/ConvertFix.py","aksharamukha/PostProcess.py","aksharamukha/PostOptions.py"],
 [("letter tables","aksharamukha/ScriptMap"),("script fixes","aksharamukha/ConvertFix.py"),("nativization defaults","aksharamukha/PostOptions.py:ApplyScriptDefaults")])
META={
 "C01":{"note":"one contract per target script, discharged for all texts with no length bound; letters and sequences a target merges are excluded from its precondition (checks/scripts.py)"},
 "C02":{"note":"one contract per pair of scripts; quick tier: pairs through hub scripts and main romanizations, thorough tier: all pairs"},
 "C03":{"note":"one contract per target and mode against independent orthography tables (checks/ortho.py); for Malayalam, Kawi, and nativized Bengali, Oriya, Nandinagari the quick tier takes overlapping consonant subsets"},
}
NA=[]
p("C04","Text in a third script passes through untouched",
 "Text made only of characters that belong neither to the source nor to the target script - letters of other scripts, ideographs, emoji, symbols, spaces, line breaks and the usual punctuation and brackets - comes out of a conversion exactly as it went in, character for character, with nativization off or on. The exceptions are a script's own word separators and punctuation marks, the two Roman joiners () and {}, and combining marks next to the Semitic module.",
 ["inputs","configurations"],
 "all texts over representative foreign letters, symbols and punctuation, no length bound; pairs Devanagari to and from every Indic, Latin and Semitic script in both modes and IAST to and from every script (quick), all ordered pairs (thorough); Kharoshthi and Old Persian excluded (computed numerals)",
 "the tests never mix scripts: a rule whose pattern is too wide (any character, a wrong range, an unescaped dot) damages foreign text that no sample contains",
 ["aksharamukha/Convert.py","aksharamukha/ConvertFix.py","aksharamukha/PreProcess.py","aksharamukha/PostProcess.py","aksharamukha/gimeltra.py"],
 [("fixes applied to every character of the text","aksharamukha/ConvertFix.py"),("source and target preparation","aksharamukha/transliterate.py:convert"),("Semitic conversion","aksharamukha/gimeltra.py")])
p("C06","Lines are converted independently",
 "The conversion of a text with several lines is the conversion of each line by itself, joined by the same line breaks: nothing on one line influences another. The same holds between stretches of text separated by a foreign sign such as a star, for targets whose rules do not look at the neighbouring sign. From Devanagari this holds for every target script, with nativization off and on; into Devanagari, Telugu and IAST it holds from the scripts and romanizations listed.",
 ["inputs","configurations"],
 "all Devanagari texts (for most targets any sequence whatever of Devanagari characters) to every Indic, Latin and Semitic script, both modes; all texts over the letters of "+', '.join(O.EXC)+" and of every romanization into Devanagari, Telugu and IAST; no length bound. Hebr final letters, Kharoshthi and Old Persian excluded",
 "the tests convert one word or one verse at a time; rules anchored at the start or end of the text, or that consume the separator, only misbehave in longer text",
 ["aksharamukha/Convert.py","aksharamukha/ConvertFix.py","aksharamukha/PreProcess.py","aksharamukha/PostProcess.py","aksharamukha/gimeltra.py"],
 [("rules anchored at word and text edges","aksharamukha/ConvertFix.py"),("Om recognition","aksharamukha/Convert.py"),("nativization defaults","aksharamukha/PostOptions.py:ApplyScriptDefaults")])
META["C04"]={"note":"one contract per ordered pair of scripts and mode; foreign characters are represented by one or two letters of each script and the common punctuation"}
META["C06"]={"note":"one contract per pair and mode; targets with many rules take overlapping consonant subsets; KhomThai, Mongolian, PhagsPa and nativized Multani only in the thorough tier"}
p("C07","A conversion depends only on its arguments",
 "Converting a text gives the same result whatever was converted before in the same process, by whatever pairs of scripts, nativization and options: a call leaves no trace in the package that a later call could see, and it does not change the option lists the caller passes in.",
 ["history","configurations"],
 "all sequences of calls; each call: any text, every Indic, Latin and Semitic script to and from Devanagari, RomanLoC and IAST and to itself, both nativization modes, every pre- and post-processing option (quick), all ordered pairs (thorough)",
 "each test starts from whatever state the previous ones left and compares one call; a table changed in place, a growing default argument or a memo keyed by too little shows only after a particular earlier call",
 ["aksharamukha/transliterate.py","aksharamukha/GeneralMap.py","aksharamukha/Convert.py","aksharamukha/PostOptions.py","aksharamukha/PreProcess.py","aksharamukha/PostProcess.py","aksharamukha/gimeltra.py"],
 [("letter tables are module-level lists shared by all calls","aksharamukha/GeneralMap.py"),("memo table of data files","aksharamukha/transliterate.py:_load_data"),("option lists handed through convert","aksharamukha/transliterate.py:convert")])
META["C07"]={"note":"frame condition per call configuration, checked on every path of the symbolic execution; the step from one call to all histories is an induction stated in DESIGN.md. Kharoshthi, Old Persian, Kana and two options are beyond the executor and covered by bounded call histories"}
p("C13","Every conversion returns a text",
 "For every text, including the empty text and text that is not well-formed in the source script, converting it between any two supported scripts, with nativization on or off and with any single pre- or post-processing option, returns a text. It never raises an exception and never returns anything other than a string.",
 ["inputs","configurations"],
 "all texts over the source script's letters, Devanagari, ASCII and some foreign characters, no length bound; every script to and from Devanagari, RomanLoC and IAST and to itself, both modes, every option on sample pairs (quick), all ordered pairs (thorough); Tamil to IPA excluded (web service)",
 "the tests use well-formed sample words; an option nobody samples, an empty text or a stray sign reaches code that no test runs",
 ["aksharamukha/transliterate.py","aksharamukha/Convert.py","aksharamukha/ConvertFix.py","aksharamukha/PreProcess.py","aksharamukha/PostProcess.py","aksharamukha/PostOptions.py"],
 [("process / convert","aksharamukha/transliterate.py"),("options looked up by name","aksharamukha/PostOptions.py"),("option functions","aksharamukha/PostProcess.py")])
META["C13"]={"note":"one contract per configuration: no path raises or returns a non-string; configurations that use list operations on the text (Kharoshthi, Old Persian, Kana, two options) are bounded"}
p("C05","No internal marker reaches the result",
 "The result of a conversion never contains one of the private characters with which the library marks letters on the way: the letters of the intermediate alphabet, the schwa and dependent-vowel markers, the source-language tags, or the stand-ins for dandas and retained text. This holds for every text that does not itself contain them, well-formed or not, with nativization on or off.",
 ["inputs","configurations"],
 "all texts over the source script's letters, Devanagari, ASCII and some foreign characters, no length bound; every script to and from Devanagari, RomanLoC and IAST and to itself, both modes (quick), all ordered pairs (thorough); the intermediate alphabet itself as source or target is excluded, as are the private letters of the e-Grantamil font",
 "a marker leaks only for a letter or sequence that a later step forgets to resolve; the samples of the tests were chosen among text that works",
 ["aksharamukha/Convert.py","aksharamukha/ConvertFix.py","aksharamukha/PreProcess.py","aksharamukha/PostProcess.py","aksharamukha/GeneralMap.py"],
 [("schwa and vowel markers","aksharamukha/ConvertFix.py:FixRomanOutput"),("intermediate alphabet","aksharamukha/GeneralMap.py:InterAdd"),("language tags appended to the text","aksharamukha/transliterate.py:convert"),("marker removal","aksharamukha/PostProcess.py:defaultPost")])
META["C05"]={"note":"one contract per configuration, mostly discharged by typing the alphabets of the extracted operations, else by the automata procedure; for romanized sources the dependent-vowel marker is not among the forbidden characters"}
p("C14","Accepted spellings of a romanization are read alike",
 "Romanized text reads the same in Devanagari however it is typed, as far as the scheme allows alternatives. For the schemes with diacritics these are capital letters, and letters composed or with combining signs; for ISO also ṃ for ṁ. For ITRANS and Baraha they are the documented alternates, such as aa or A, ee or I, RRi or R^i, x or kSh, M or .n, w or v, and a pipe or a full stop for the danda. Each gives the Devanagari text that the standard spelling was made from.",
 ["inputs"],
 "all running Sanskrit texts over the letters the scheme distinguishes, no length bound, each alternate applied throughout; schemes IAST, ISO, Titus, IAST Pali, ISO Pali, ITRANS, Baraha North",
 "the tests feed only the spelling the library itself writes",
 ["aksharamukha/PreProcess.py","aksharamukha/Convert.py","aksharamukha/ConvertFix.py","aksharamukha/ScriptMap/Roman"],
 [("alternate spellings","aksharamukha/PreProcess.py:PreProcess"),("lower-casing of the diacritic schemes","aksharamukha/PreProcess.py:PreProcess")])
META["C14"]={"note":"one contract per scheme and alternate, all discharged without length bound"}
p("C17","Asking for no conversion changes nothing",
 "With the target Ignore or an empty target, and with the same script as source and target, nativization off and no options, the text comes back exactly as it was given, for every script the library knows and for any text at all, well-formed in the script or not.",
 ["inputs","configurations"],
 "all texts over the script's letters, Devanagari, ASCII and some foreign characters, no length bound; every Indic, Latin, Semitic and Japanese script and every Semitic ISO romanization",
 "the tests never convert a script into itself without options",
 ["aksharamukha/transliterate.py"],
 [("early returns of convert","aksharamukha/transliterate.py:convert")])
META["C17"]={"note":"one contract per script and case, all discharged without length bound"}
p("C08","Scripts may be named in any letter case, and by their codes",
 "The letter case in which a script name is written does not matter: process('tamil', 'DEVANAGARI', t) is process('Tamil', 'Devanagari', t) for every text t and every supported script, as source and as target. A script code (param='script_code'), language code (param='lang_code') or lang-Script code that the table shipped with the package gives to exactly one script selects that script, in any letter case; Latn-X / la-X select the romanization X.",
 "input","all texts over the script's letters, Devanagari, ASCII and some foreign characters, no length bound; every supported script in every tried letter case, every script code, language code and lang-Script code of the data table that names exactly one script, as source and as target",
 "names and codes are tried for a handful of scripts only, in one spelling",
 ["aksharamukha/transliterate.py","aksharamukha/yaml/aksharamukha-scripts.yaml"],
 [("folding of names","aksharamukha/transliterate.py:process_default"),("codes","aksharamukha/transliterate.py:process_script_tag, process_lang_tag")])
META["C08"]={"note":"one contract per name or code and direction; discharged by reflexivity of the extracted text functions; the scripts whose functions are outside the executor (Old Persian, Kharoshthi, kana) are bounded"}
p("C09","Options: any letter case, unknown ones ignored, applied in the order given",
 "An option name is matched without regard to letter case; an unknown option name changes nothing and does not stop the others from applying; a post option that is a plain function over the result is applied to the finished result, and several are applied in the order in which they are listed: process(.., [f, g]) is g applied to process(.., [f]). (Options that choose another table, target or danda/numeral treatment, and the two options whose names differ in letter case only, removeDiacritics and RemoveDiacritics, are outside the last clause.)",
 "input","all texts over the source script's letters, Devanagari, ASCII and some foreign characters, no length bound; every post and pre option the package defines, each in several letter cases, over six (post) and four (pre) script pairs, nativization off and on",
 "tests exercise options one at a time, in their canonical spelling, on single words",
 ["aksharamukha/transliterate.py","aksharamukha/PostProcess.py","aksharamukha/PreProcess.py"],
 [("option names","aksharamukha/transliterate.py:convert_default"),("application","aksharamukha/transliterate.py:convert")])
META["C09"]={"note":"one contract per option, spelling and pair; options outside the executor (capitalizeSentence, KhmerWordSplit) are bounded"}
p("C20","Numeral and danda options decide how digits and dandas are written",
 "With the numeral and punctuation options, digits and dandas in the output are the ones the option names, whatever stands around them. Converting Devanagari text with romanNumerals writes every digit as the European digit of the same value; with indicNumerals every digit, Devanagari or European, is the target script's own digit of the same value; with indicDandas the dandas stay Devanagari dandas (| and || in a romanization); with romanFullStop they become one and two full stops. Digits of another script converted into Devanagari become the Devanagari digits of the same value (European with romanNumerals). The ten digits of each script are its digits in order of value. This holds for text of any length, on one line or several, with nativization off and on.",
 ["inputs","configurations"],
 "all texts of digits, dandas, letters, line breaks and foreign signs, no length bound; every Indic and Latin script as target, both modes, every script with single-character digits as source. Excluded: Kharoshthi and Old Persian (computed numerals), Urdu and Shahmukhi as digit source, adjacent dandas, and romanFullStop for scripts that write both dandas alike",
 "the tests convert one sample sentence per option; a digit exchanged in one table, or an option that only acts between letters or at the end of a line, is not sampled",
 ["aksharamukha/PostProcess.py","aksharamukha/GeneralMap.py","aksharamukha/ScriptMap","aksharamukha/PostOptions.py","aksharamukha/Convert.py"],
 [("romanNumerals, indicNumerals, RetainDandasIndic, RetainRomanFullStop","aksharamukha/PostProcess.py"),("NumeralMap","aksharamukha/ScriptMap"),("option dispatch","aksharamukha/PostOptions.py:ApplyScriptDefaults")])
META["C20"]={"note":"one contract per target, mode and option; letters around the digits are represented by ka; the digit tables are compared with the Unicode digit values"}
from checks import C10 as _c10, C16 as _c16, C19 as _c19
p("C10","The source script is recognized",
 "With source 'autodetect', text in the letters of a script that Unicode encodes as a script of its own is recognized as that script: whatever spaces, line breaks, digits, dandas and punctuation stand between, before or after the letters, however short the text, and also when fewer letters of other scripts are mixed in. The conversion then gives exactly what naming the script gives, by name and by script code alike, with the pre-processing options that were asked for.",
 ["inputs"],
 "bounded: every letter alone with every separator on either side, pairs of letters, random texts of up to 60 letters, for: "+', '.join(_c10.OWN)+" (for Bengali, Lao, Burmese and Urdu without the letters that mark a sister script); proved for all texts: the conversion after recognition equals the conversion with the script named (for Thai and Lao with the spelling variant that is recognized too). Recognition of the particular romanization of Latin text is a guess and not covered",
 "the tests never use autodetect; counting the wrong characters only shows on short texts, on texts with many spaces, or in particular scripts",
 ["aksharamukha/transliterate.py","aksharamukha/gimeltra.py"],
 [("auto_detect","aksharamukha/transliterate.py:auto_detect"),("callers","aksharamukha/transliterate.py:process_default"),("fallback","aksharamukha/gimeltra.py:auto_script")])
META["C10"]={"level":"other","note":"auto_detect counts characters and is checked by bounded enumeration (not counted as proved); its callers are proved against its contract for all texts"}
p("C12","Converting a file converts its text and nothing else",
 "Converting a text, Word or HTML file makes a new file in which the running text is what converting that text with the same scripts, nativization and options gives, and everything else is as before: elements, attributes, comments, scripts, style sheets, and the other parts of a Word archive. Every text run is converted once, empty ones stay empty, and the original file is not changed. The kind of file follows from its extension alone.",
 ["inputs","configurations"],
 "bounded: generated text files, Word archives and HTML pages (nested, empty and foreign elements, several parts), on disk and in memory, several combinations of scripts and options, with convert uninterpreted; proved for all contents: convert_txt writes the conversion of the text",
 "no test converts a file; options passed in the wrong order, a text element without content or text outside the running text are only met in particular documents",
 ["aksharamukha/transliterate_file.py"],
 [("process","aksharamukha/transliterate_file.py"),("xml_file_to_convert","aksharamukha/transliterate_file.py"),("convert_html","aksharamukha/transliterate_file.py")])
META["C12"]={"level":"other","note":"lxml, bs4 and zip archives are outside the verifier: documents are generated (bounded, not counted as proved) with convert as an uninterpreted function; convert_txt is proved for all file contents"}
p("C16","Semitic scripts write each of the 22 letters with the letter of the same name",
 "Unpointed text in the 22 letters of one Semitic script, converted into another, is written letter by letter with the letters of the same name (in Latin: the usual scholarly letters, with v, ḵ, f, j where the source letter has that sound); spaces, line breaks, digits and foreign signs are kept. Hebrew, Nabataean and Palmyrene use the final form of a letter exactly at the end of a word of two letters or more, whatever follows the word (known exception, pinned by the stored tests: a doubled k or p at the end of a Hebrew word). Hebrew marks hard b, k, p with dagesh, Syriac the hard t, and Ethiopic and Arabic use their own letters for p, g, v. This holds for text of any length.",
 ["inputs"],
 "all texts over the 22 letters, spaces, line breaks, a digit, a bracket and a foreign sign, no length bound; all ordered pairs of "+', '.join(_c16.L)+", nativization off and on. Not covered: Arabic geem into Hebrew, Hebrew beth and an Arabic source with nativization",
 "the tests convert sample words; a letter exchanged in one of the tables, or a final form in the wrong place, shows only in words nobody sampled",
 ["aksharamukha/gimeltra.py","aksharamukha/json","aksharamukha/transliterate.py","aksharamukha/PreProcess.py","aksharamukha/PostProcess.py"],
 [("_to_latin, _from_latin","aksharamukha/gimeltra.py"),("final forms: _postprocess","aksharamukha/gimeltra.py"),("Semitic branch of convertScript","aksharamukha/Convert.py")])
META["C16"]={"note":"one contract per ordered pair and mode, against a table of the letters by their Unicode names and the final-form rule"}
p("C19","Vedic accents are kept and do not disturb the spelling",
 "Devanagari text with Vedic accents (anudatta, svarita, long svarita) keeps every accent, at the same place, written with the sign the target uses for it, and the letters are written exactly as they are in the same text without accents, with nativization off and on. Converting back with nativization off gives back the accented text.",
 ["inputs"],
 "all texts of syllables with at most one accent each over overlapping sets of consonants and common vowels, no length bound; spelling: "+', '.join(sorted((set(O.EXC)|set(S.ROUND))-_c19.APART-{'Devanagari'}))+"; round trip: the scripts of C01; signs: every Indic and Latin script. Balinese, Javanese, Mongolian, Nandinagari and Sundanese, whose letters join differently across an accent, are left out of the spelling part",
 "the tests hold a handful of accented words; a context rule that forgets that an accent may stand between two letters fails only for that rule with an accent just there",
 ["aksharamukha/PostProcess.py","aksharamukha/ConvertFix.py","aksharamukha/Convert.py","aksharamukha/GeneralMap.py","aksharamukha/FallBack.py"],
 [("VedicSvaras in context rules","aksharamukha/PostProcess.py"),("accent signs","aksharamukha/FallBack.py"),("VedicSvarasLatinIndic / fixes","aksharamukha/ConvertFix.py")])
META["C19"]={"note":"one contract per target, mode and consonant set; the thorough tier takes all consonants at once"}
