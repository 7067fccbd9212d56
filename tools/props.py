TECH = ("bounded exhaustive model checking of the implementation: every input of a stated bounded space is executed on "
        "the real program and every observed trace is compared with an explicit-state reference model")
NOTE = ("exhaustive within the stated bounds (see evidence bounds); the deciding step is enumeration of all inputs of the "
        "bounded space, each executed on the built program and compared with the reference model; nothing is sampled")
WHY = "The shipped tests compare a few recorded runs byte for byte; "

prop("P01", "Transcript alignments are faithful and of least cost",
     "For every reference and hypothesis transcript, sclite's word alignment uses each word of one complete reading of "
     "each transcript exactly once and in order (picking, where alternatives are given, one alternative; the null word @ "
     "stands for nothing), and labels a pair correct exactly when the words are equal (ignoring letter case unless "
     "case-sensitive scoring is requested). No other choice of alternatives or alignment has a lower total cost when "
     "a correct word costs 0, an insertion or deletion 3 and a substitution 4. A transcript with an alternation that is not "
     "closed, or that has no alternative, is refused; braces and slashes elsewhere are part of words.",
     ["inputs", "configurations"], "all reference/hypothesis transcript pairs, with nested alternations and null words, case sensitivity on or off",
     WHY + "optimality and fidelity must hold for every pair of word networks.",
     ["src/sclite/net_dp.c", "src/sclite/net_adt.c", "src/sclite/word.c", "src/sclite/text.c", "src/sclite/align.c"],
     [("dynamic programming over two networks", "net_dp.c calculate_margin_cells/calculate_internal_cells"),
      ("back trace", "net_dp.c extract_NET_ALIGN_result"), ("alternation expansion", "net_adt.c expand_alternates")])

prop("P02", "Optionally deletable words and word fragments score as documented",
     "With -D, a word written in parentheses that has no counterpart on the other side counts as correct instead of as a deletion or "
     "insertion, and when it does have a counterpart it is compared without its parentheses; the alignment minimises cost with such an "
     "omission costing 2. With -F, a fragment (leading or trailing hyphen) "
     "counts as correct against any word ending (respectively starting) with the rest of it. Without these options both are ordinary words.",
     ["inputs", "configurations"], "all transcripts over plain, parenthesised and hyphenated words, for each on/off combination of -D, -F and -s",
     WHY + "two or three fixed transcripts exercise these options.",
     ["src/sclite/word.c", "src/sclite/net_dp.c", "src/sclite/align.c", "src/sclite/net_adt.c"],
     [("word comparison", "word.c equal_WORD2"), ("marking words", "align.c / net_adt.c decode_opt_del, decode_fragment"),
      ("scoring omissions as correct", "net_dp.c extract_NET_ALIGN_result")])

prop("P03", "Utterances are paired by id and credited to the right speaker",
     "For transcript input, each hypothesis utterance is scored against the reference utterance with the same id, whatever the "
     "order of either file, extra reference utterances, comment lines or blank lines, and is reported once, under the speaker that the chosen "
     "id type derives from its id. A hypothesis utterance whose id has no reference, or a reference id given twice, ends the run with a non-zero exit status instead of a score.",
     ["inputs", "histories", "configurations"], "all orders, subsets and duplications of utterances in both files, all id types",
     WHY + "the files used there are in one order with every id present.",
     ["src/sclite/align.c", "src/sclite/text.c", "src/sclite/scores.c"],
     [("reference lookup", "align.c load_refs"), ("speaker extraction", "align.c extract_speaker"), ("speaker groups", "scores.c SCORES_get_grp")])

prop("P04", "Timed hypothesis words are scored against the segment they fall in",
     "When a ctm hypothesis is scored against an stm reference, each hypothesis word takes part in exactly one scored segment of its own "
     "file and channel: the first whose end lies after the word's midpoint, or the last one. Words falling in a segment marked to be ignored "
     "are left out together with that segment, and segments without hypothesis words are all deletions; within each segment the alignment is of least cost.",
     ["inputs", "configurations"], "all arrangements of segments and timed words over files, channels and alternations, within bounds",
     WHY + "a handful of recorded files with mostly well-centred words.",
     ["src/sclite/stm2ctm.c", "src/sclite/stm.c", "src/sclite/fillmrks.c", "src/sclite/net_adt.c"],
     [("segmentation by midpoint", "stm2ctm.c find_next_segment / locate_boundary"), ("stm and ctm readers", "stm.c fill_STM, fillmrks.c fill_mark_struct")])

prop("P05", "Scoring one ctm file against another uses every word exactly once",
     "When a ctm hypothesis is scored against a ctm reference, every word of every file and channel appears in the alignment exactly once and in time order. "
     "With -T each alignment chunk is of least total cost, where an unmatched word costs its duration and a matched pair the sum of "
     "its start and end time differences (0.001 more if the words differ). "
     "A channel of more than 50 words is cut into chunks only at a silence both files share, where the next 50 words have one.",
     ["inputs", "configurations"], "all pairs of timed word streams over several files and channels, within bounds, with and without -T",
     WHY + "one recorded pair of files.",
     ["src/sclite/ctm2ctm.c", "src/sclite/word.c", "src/sclite/net_dp.c"],
     [("chopping into common-silence chunks", "ctm2ctm.c chop_WTOKE_2"), ("time-mediated distance", "word.c wwd_time_WORD")])

prop("P06", "Every sclite report states the counts of the alignment it reports on",
     "The counts and percentages in the raw and percentage summaries, the per-utterance alignment listing, the detail, sentence and speaker reports "
     "and the labelled-utterance report all equal the correct, substituted, deleted and inserted words of the alignments themselves, summed over the utterances they cover "
     "(an utterance is in error exactly when it has any error). Means, standard deviations and medians are those of the per-speaker values above them (speakers without reference words being left out of percentages).",
     ["inputs", "configurations"], "all score tables: any number of speakers and utterances with any combination of counts, within bounds",
     WHY + "formatting of fixed score tables is compared, not its agreement with the alignments over all tables.",
     ["src/sclite/scores.c", "src/sclite/sc_dtl.c", "src/sclite/lur.c", "src/sclite/path.c", "src/sclite/rpg.c"],
     [("count accumulation", "scores.c add_PATH_score"), ("summaries", "scores.c print_system_summary"),
      ("detail reports", "sc_dtl.c"), ("labelled utterances", "lur.c print_lur"), ("alignment listing", "path.c PATH_print")])

prop("P07", "Piped and saved alignments carry the whole scoring result",
     "Feeding the alignments that sclite writes (-p, or the SGML reports) back into sclite reproduces the same alignments and the same reports, "
     "for any words, times, confidences, labels and number of systems.",
     ["inputs", "histories"], "all alignments, including words with quoting and separator characters, timing, confidence and category labels",
     WHY + "pipes are exercised on a few ordinary word lists.",
     ["src/sclite/scores.c", "src/sclite/sgml.c", "src/sclite/path.c", "src/sclite/sclite.c"],
     [("writer", "scores.c dump_SCORES_sgml"), ("reader", "scores.c load_SCORES_sgml"), ("tag parser", "sgml.c")])

prop("P08", "Character scoring splits words into characters of the encoding",
     "With -c, scoring is that of the same transcripts with every character written as a word of its own: a character being one byte in the default encoding, a two-byte "
     "unit in GB and EUC, and one code point in UTF-8 (in Guarani, g with a combining tilde is one character). NOASCII keeps runs of ASCII characters whole, and DH removes hyphens first. "
     "For timed words each character takes an equal share of its word's time.",
     ["inputs", "configurations"], "all transcripts over one- to four-byte characters, ASCII and hyphens, for each encoding and flag combination",
     WHY + "a few Mandarin and Japanese files are scored.",
     ["src/sclite/text.c", "src/sclite/align.c", "src/sclite/net_adt.c"],
     [("splitting", "text.c TEXT_separate_chars, TEXT_nbytes_of_char"), ("hyphens", "text.c TEXT_delete_chars")])

prop("P09", "Word-weighted alignments minimise and report the weighted cost",
     "With a word-weight list, an omitted or inserted word costs its listed weight (the list's default for unlisted words), a substitution the sum of both weights, and "
     "the alignment has least total weight; the weighted summary's figures equal the sums of those weights over the alignment.",
     ["inputs", "configurations"], "all transcripts and weight lists within bounds",
     WHY + "one weight file over one data set.",
     ["src/sclite/wwscr_f.c", "src/sclite/word.c", "src/sclite/scores.c", "src/sclite/align.c"],
     [("weights", "wwscr_f.c load_WWL / get_WWL_weight"), ("distance", "word.c wwd_weight_WORD"), ("summary", "scores.c print_system_summary")])

prop("P10", "Alignment by diff keeps every word of both texts",
     "With -d, the reported alignment contains each reference word (of the first reading of every alternation) and each hypothesis word exactly once, in order and within its own "
     "utterance's reference, and labels a pair correct exactly when the two words are equal; this also holds when several runs are concurrent, and no temporary file is left behind.",
     ["inputs", "schedules"], "all transcript pairs within bounds, all interleavings of concurrent runs",
     WHY + "one recorded file.",
     ["src/sclite/align.c", "src/sclite/readpipe.c", "src/sclite/text.c"],
     [("diff output reader", "align.c process_diff_line, align_trans_mode_diff"), ("child process", "readpipe.c")])

prop("P11", "Confidence measures follow their definitions",
     "When every hypothesis word carries a confidence score, the normalized cross entropy reported for a speaker and for the whole "
     "system is that of the published definition over exactly the scored hypothesis words; it is independent of word order. The confidence histograms (-C hist, bhist, sbhist) count every scored "
     "hypothesis word once, in the bin that holds its confidence, as correct or not; the trade-off curve (-C det; with sc_stats -g det, one for each system) has a point for every threshold, with the share of correct words "
     "rejected and of incorrect words accepted there, for any number of words.",
     ["inputs"], "all assignments of confidences and outcomes within bounds; numbers of words across every buffer size",
     WHY + "one or two recorded files.",
     ["src/sclite/scores.c", "src/sclite/det.c"],
     [("cross entropy", "scores.c compute_SCORE_nce"), ("histograms and curve", "det.c make_binned_confidence, make_scaled_binned_confidence, make_confidence_histogram, make_SCORES_DET_curve")])

prop("P12", "Case-insensitive scoring ignores letter case and nothing else",
     "Unless -s is given, two words are equal exactly when they differ at most in letter case, letters and case pairs being those of the selected encoding and "
     "localization; with -s they are equal exactly when identical. No word text other than letter case is altered in the output.",
     ["inputs", "configurations"], "all characters of the ranges that the encodings cover, for every encoding and localization",
     WHY + "a few sample strings per alphabet.",
     ["src/sclite/text.c", "src/sclite/sclite_tolower.c"],
     [("case tables", "text.c getKnownUFTCaseCP, TEXT_str_to_master"), ("localization", "text.c TEXT_set_lang_prof")])

prop("P13", "ROVER's composite network keeps every input word once, in order",
     "When rover combines any number of system outputs, each word of each system takes part in exactly one correspondence set, each system contributes exactly one entry (word or null) to each "
     "set, and reading one system's words through the sets gives its output in its original order; words of different files or channels are never in one set (outputs whose files or channels do not "
     "correspond are refused). Where no common silence splits a recording, each system is merged into the network of those before it at the least alignment cost.",
     ["inputs", "configurations"], "all combinations of system outputs within bounds (systems, words, files, channels)",
     WHY + "two or three recorded combinations.",
     ["src/sclite/rover.c", "src/sclite/net_dp.c", "src/sclite/net_adt.c"],
     [("network merging", "net_dp.c create_alinged_NETWORK"), ("driver loop", "rover.c main")])

prop("P14", "ROVER's vote picks the best-scoring word of each set",
     "For each correspondence set, rover outputs a word whose score alpha*(votes/systems) + (1-alpha)*confidence is the highest, where confidence is the mean of the word's confidences (meth1), their maximum (maxconf, maxconfa) "
     "or their share of all confidences of the set (avgconf), and the null word has the given confidence (with maxconfa, its share of the systems); nothing is output when the null word wins. Start, duration and confidence printed are the averages over the "
     "winning word's occurrences. The oracle output lists each different word of each set as an alternative.",
     ["inputs", "configurations"], "all correspondence sets within bounds, for each voting method and a grid of alpha and null confidences",
     WHY + "three recorded runs.",
     ["src/sclite/rover.c"],
     [("voting", "rover.c vote functions")])

prop("P15", "Significance tests follow their published definitions",
     "For every set of aligned systems, the matched-pair sentence-segment, sign, Wilcoxon signed-rank and McNemar tests of sc_stats report the statistic and decision of their definitions on exactly the "
     "common speakers or segments; swapping two systems swaps the decision, and a system never differs from itself.",
     ["inputs", "histories"], "all small score tables for two and three systems",
     WHY + "one data set of recorded systems.",
     ["src/sclite/sc_stats.c", "src/sclite/mtchprs.c", "src/sclite/signtest.c", "src/sclite/wilcoxon.c", "src/sclite/sentmcn.c", "src/sclite/anovar.c", "src/sclite/statdist.c"],
     [("segments", "mtchprs.c"), ("sign test", "signtest.c"), ("Wilcoxon", "wilcoxon.c"), ("McNemar", "sentmcn.c"), ("distributions", "statdist.c")])

prop("P16", "Multi-stream alignments are faithful and of least cost",
     "For overlapping speech, asclite's alignment uses every reference and system word of a segment group exactly once, in order within its speaker, never aligns words that may not be aligned, "
     "and no alignment of the group has a lower total cost. A transcript whose braces do not match is refused.",
     ["inputs", "configurations"], "all small sets of overlapping reference and system streams",
     WHY + "recorded files only.",
     ["src/asclite/core/graph.cpp", "src/asclite/core/levenshtein.cpp", "src/asclite/core/speechset.cpp", "src/asclite/core/segmentsgroup.cpp"],
     [("multi-dimensional Levenshtein graph", "graph.cpp"), ("cost functions", "graph.cpp GetCostTransition*")])

prop("P17", "asclite's result does not depend on how its matrix is stored",
     "Memory compression, its block size and a memory limit under which blocks are compressed and restored all along, the number of threads and the feedback level change neither the alignments nor the scores that asclite reports, for any number of streams and of words in each.",
     ["inputs", "configurations"], "all small inputs under every storage configuration",
     WHY + "each configuration is run on its own recorded file.",
     ["src/asclite/core/compressedlevenshteinmatrix.cpp", "src/asclite/core/arraylevenshteinmatrix.cpp", "src/asclite/core/graph.cpp"],
     [("compressed matrix", "compressedlevenshteinmatrix.cpp")])

prop("P18", "asclite segments and filters by time without losing or duplicating words",
     "Every reference and system word inside the evaluated regions is scored exactly once, in a segment group of its own file and channel; words outside the regions of a UEM file, or in segments marked to be ignored, are left out.",
     ["inputs", "configurations"], "all small arrangements of segments, words and evaluation regions",
     WHY + "recorded files only.",
     ["src/asclite/core/ctmstmrttm_segmentor.cpp", "src/asclite/core/uemfilter.cpp", "src/asclite/core/recording.cpp"],
     [("segmentor", "ctmstmrttm_segmentor.cpp"), ("evaluation regions", "uemfilter.cpp")])

prop("P19", "Transcript rewriting applies the first matching rule, left to right, once",
     "rfilter1 scans each line left to right; at each place it applies the first rule of the rule file whose left side and contexts match there, writes that rule's right side and goes on after the matched text, and copies one character where no rule matches "
     "(or drops it when the rule file asks for that). Matching respects letter case unless the rule file asks otherwise, contexts are matched against the input line only, and replaced text is never rewritten again.",
     ["inputs", "programs"], "all rule files and lines over a small alphabet, within bounds",
     WHY + "two recorded rule files.",
     ["src/rfilter1/rfilter1.c", "src/rfilter1/include/aprules2.c", "src/rfilter1/include/grules2.c"],
     [("rule application", "aprules2.c"), ("rule reader", "grules2.c")])

prop("P20", "Transcript filtering changes only the transcript text",
     "csrfilt applied to an stm, ctm, trn, rttm or text file keeps every record, its order, ids, times, speakers, labels, confidences and comments, and rewrites only the word text according to the rules that apply to the input and the options (upper case, hyphens, optionally deletable tags). "
     "A ctm word that becomes several words shares its time among them, one that becomes an alternation is written as one, and one that is deleted leaves no record. Input or rules that cannot be read are refused with a non-zero status instead of losing records.",
     ["inputs", "configurations"], "all small files of each type and option",
     WHY + "recorded files only.",
     ["src/csrfilt/csrfilt.sh", "src/rfilter1/rfilter1.c"], [("filter pipeline", "csrfilt.sh")])

prop("P21", "Diarization error time is accounted for exactly",
     "For every reference and system speaker segmentation, md-eval's scored, missed, false-alarm and speaker-error times are those of its definition over the evaluated regions, with collars and overlap excluded as requested, and the overall error is their sum divided by the scored speaker time.",
     ["inputs", "configurations"], "all small segmentations on a time grid, for each option",
     WHY + "a few recorded files.",
     ["src/md-eval/md-eval.pl"], [("segment scoring", "md-eval.pl score_speaker_segments"), ("collars", "md-eval.pl add_collars_to_uem")])

prop("P22", "Speaker mapping is one-to-one and maximises matched time",
     "The mapping that md-eval chooses between reference and system speakers is one-to-one and no other one-to-one mapping has a larger total overlapping speech time.",
     ["inputs"], "all small overlap matrices",
     WHY + "a few recorded files.",
     ["src/md-eval/md-eval.pl"], [("assignment", "md-eval.pl weighted_bipartite_graph_match")])

prop("P23", "Validators accept exactly the well-formed files",
     "The stm (spelling of the words), ctm (fields and spelling) and rttm (fields, declared speakers, overlaps, coverage of words, interruption points) validators succeed, with status 0, on every file that follows the rules they check and fail, with status 1, on every file that breaks one.",
     ["inputs"], "all files within one or two edits of small well-formed files",
     WHY + "a fixed list of bad files.",
     ["src/stmValidator/stmValidator-main.pl", "src/stmValidator/STMList.pm", "src/ctmValidator/ctmValidator.pl", "src/rttmValidator/rttmValidator.pl"],
     [("rules", "STMList.pm Validate*, ctmValidator.pl, rttmValidator.pl")])

prop("P24", "Format converters carry over every record",
     "The small rttm, ctm and stm tools lose, invent and alter nothing. rttmSort writes the records it reads, its SPKR-INFO records first, then the others by file, channel, begin time (as a number), type and original order, and refuses what is not a record. rttm2ctm writes one ctm record per lexeme of type lex, in order. rttmSmooth joins turns of the same speaker, file and channel separated by at most the smoothing time (0.3 s by default) and copies everything else. spkr2sad turns every turn into one of the single speaker 'speech', in time order, declared once per file and channel. stm2rttm declares every speaker and writes its segments, joined over gaps up to the evaluation's smoothing time, as turns (excluded_region as NOSCORE), and refuses overlapping segments of a speaker. mergectm2rttm gives each word whose midpoint lies within a turn to a speaker talking then, and drops the other words. Output does not depend on perl's hash order.",
     ["inputs"], "all small files within bounds",
     WHY + "most converters have no test at all.",
     ["src/rttmSort/rttmSort.pl", "src/rttm2ctm/rttm2ctm.pl", "src/rttmSmooth/rttmSmooth.pl", "src/spkr2sad/spkr2sad.pl", "src/mergectm2rttm/mergectm2rttm.pl", "src/stm2rttm/stm2rttm.pl"],
     [("converters", "the scripts themselves")])

prop("P25", "Multi-system reports show each system's own scores",
     "sc_stats' multi-system reports (-r sum rsum es res lur prn, -g range grange grange2) show, for every system, speaker and label, exactly the counts and percentages of that system's alignments (with their totals, means, deviations, medians, highs and lows), whatever the order in which the systems list their speakers, the number of systems and speakers and the length of names; prn shows every system's words and the reference words no system has right.",
     ["inputs", "configurations"], "all small tables of systems, speakers and error profiles, all speaker orders, many systems",
     WHY + "one recorded ensemble of systems.",
     ["src/sclite/scores.c", "src/sclite/range.c", "src/sclite/lur.c", "src/sclite/corresp.c", "src/sclite/sc_stats.c"],
     [("reports", "print_N_system_summary, print_N_system_executive_summary, print_N_lur, print_N_SCORE, print_rank_ranges, print_gnu_rank_ranges")])

prop("P26", "Hypotheses scored together do not influence each other, and reports go where they are asked for",
     "When sclite scores several hypothesis files in one run, every report of every file is what a run with that file alone writes (but for running sequence numbers), in every input format and with every option, in whatever order the files come; the reports written are exactly those asked for with -o, named after the hypothesis file, in its directory or in that of -O, with -n name as name (one hypothesis) or name.hypothesis (several), or on standard output with 'stdout'; with -P after the titles of the alignments; for names of any length; and no input file is changed.",
     ["inputs", "configurations", "operation sequences"], "all sequences of up to 3 (thorough 4) hypotheses of a pool of 6, 20 format and option sets, names and directories of many lengths",
     WHY + "tests score one hypothesis per run.",
     ["src/sclite/sclite.c", "src/sclite/rpg.c", "src/sclite/scores.c"],
     [("runs", "main"), ("reports", "Desc_dump_report, print_system_summary")])

prop("P27", "asclite's summary reports state the counts of its alignments",
     "The sum and rsum reports of asclite show, for every speaker, exactly the segments, reference words, correct, substituted, deleted and inserted words, errors and wrong segments of the alignment (as counts, or as percentages of the reference words; counts marked * for speakers without reference words), their totals over all speakers, and the mean, standard deviation and median over the speakers (0 for a single speaker; speakers without reference words left out and marked +), and the normalised cross entropy of the confidences; one table per system, independent of the other systems, every number in full, in the directory of -O or on standard output, also when the file cannot be written.",
     ["inputs", "configurations"], "all tables of up to 3 segments with all error profiles within bounds, up to 100 speakers and counts of thousands, up to 3 systems",
     WHY + "the recorded reports cover a handful of tables, none with a single speaker.",
     ["src/asclite/core/rawsys_reportgenerator.cpp", "src/asclite/core/statistics.cpp"],
     [("reports", "RAWSYSReportGenerator::GenerateSystem, Generate, GetTotalNCE; Statistics::Compute")])

prop("P28", "hubscr scores a whole test as its steps promise",
     "For every reference (stm) and hypothesis (ctm), hubscr scores exactly the segments of the reference, each once and under its speaker, against the hypothesis words whose middle lies in it, after mapping the words of both sides by the global mapping rules, the letter case rules of the language, hyphen splitting and, for German, expansion of compounds, with fragments and optionally deletable words scored as such. "
     "The result does not depend on the order of the records in either file (the lines of an alternation stay together), nor on the white space between fields, comments, blank lines or a missing last newline. For rt-stt tests only the records of type lex count and confidences of NA are dropped. Several hypotheses get each the reports it gets alone, under the names and titles given, and a comparison whose totals are theirs. Invalid options, missing files and malformed records end with a non-zero status and without score reports.",
     ["inputs", "configurations", "operation sequences"], "all small texts, orders of the records, layouts, record types, sets of hypotheses, languages and invalid tests within bounds",
     WHY + "the recorded hubscr runs have sorted input, one language setting each and no invalid input.",
     ["src/hubscr/hubscr.pl", "src/csrfilt/csrfilt.sh", "src/rfilter1/rfilter1.c", "src/acomp/acomp.pl", "src/sclite/sclite.c"],
     [("driver", "hubscr.pl FilterFile, RunScoring, RunStatisticalTests, ProcessCommandLine"), ("sorting", "hubscr.pl sortCTM, sortSTM")])

prop("P29", "The language filters change the words they are for, and nothing else",
     "hamzaNorm replaces the initial alef forms of a word that is not in parentheses by the plain alef; tanweenFilt removes the tanween mark at the end of a word (-a: all); def_art separates the definite article of romanised words by the solar and lunar rules, and of script words by the lexicon; acomp writes a German compound as its constituents of the lexicon (the longest first constituent first; -m minimum length, -t no shared triplet consonants, -s no linking s or en, -f the part of a fragment that is known) in upper case, and leaves other words whole. "
     "A word is treated alike wherever it stands in a line and in txt, ctm and stm files; in ctm files a divided word shares its time and repeats its confidence; every other field, comment and record is kept, with or without a last newline.",
     ["inputs", "configurations"], "all words of a few letters in every place, format, option and a set of lexicons, within bounds",
     WHY + "the filters have no test of their own.",
     ["src/hamzaNorm/hamzaNorm.pl", "src/tanweenFilt/tanweenFilt.pl", "src/acomp/acomp.pl", "src/def_art/def_art.pl"],
     [("filters", "normalize, String_LU, Comp_LU, is_Compound, Load_Lexicon")])

prop("P30", "Metadata events are mapped in the best way and counted exactly",
     "For every set of reference and system edits, fillers, interruption points and sentence-like units, md-eval maps the events of a type to each other in order so that no other order-preserving mapping has a larger total overlap (in time within the allowed gap, or in words with -W; matching subtypes and end words preferred; system times carried over to the reference through the aligned words with -w). Only events inside the evaluated regions are counted, unannotated units (and complex edits with -x) and what lies on them are not, and the event counts, word counts, percentages, confusion matrices, word offsets and overall error are those of the mapping, in total and for every file, channel, speaker and gender.",
     ["inputs", "configurations"], "all small sets of events on a time grid, for each option",
     WHY + "a few recorded files with few metadata events.",
     ["src/md-eval/md-eval.pl"], [("mapping", "md-eval.pl align_data, md_score, trace_best_path"), ("counts", "md-eval.pl score_metadata_path, md_performance_analysis"), ("times", "md-eval.pl adjust_sys_time_to_ref")])

prop("P31", "Inferred word segmentation aligns over every segmentation the lexicon allows",
     "For every reference, hypothesis and sorted lexicon, sclite -S algo1 keeps the words of the reference, cuts the hypothesis into its characters (runs of ASCII characters stay whole unless ASCIITOO is given), allows every sequence of consecutive characters - across word boundaries, through alternations, null words adding nothing - that spells a lexicon word to count as that word, and reports an alignment of least cost over all these segmentations; algo2 does the same with the roles exchanged. Case is folded unless -s is given, a word put together from several characters lasts from the start of the first to the end of the last, only the first column of the lexicon counts, and -S is refused with -d, without a lexicon or with an unknown algorithm or flag.",
     ["inputs", "configurations"], "all small texts x lexicons x encodings",
     WHY + "a few recorded files with two lexicons.",
     ["src/sclite/align.c", "src/sclite/net_adt.c", "src/sclite/stm2ctm.c"], [("algorithms", "align.c infer_word_seg_algo1, infer_word_seg_algo2, expand_words_to_chars"), ("arcs", "net_adt.c Network_fully_connect_cond, recursive_connect; word.c append_WORD_no_NULL"), ("lexicon", "text.c load_TEXT_LIST, in_TEXT_LIST")])

prop("P32", "Latency reports take every selected object into account exactly once",
     "For every RTTM file with latency information, slatreport takes every object that has a latency and meets the selections by type, subtype, file, channel and name (each a list of exact values) into account exactly once: the reported latencies are measured from the begin, the middle and the end (the begin where there is no duration), mean and standard deviation are those of these latencies, and each latency is counted in exactly one partition, that partition being one of the requested number of equal parts of the range. With one object neither deviation nor distribution is given, with none the report says so, and files without the latency column or fewer than two partitions are refused.",
     ["inputs", "configurations"], "all small multisets of objects x selections",
     WHY + "one recorded file.",
     ["src/slatreport/slatreport.pl"], [("selection", "slatreport.pl Compute, LoadRTTM"), ("statistics", "slatreport.pl mean, stddev, frequency_distribution")])

prop("P33", "CallHome transcripts become the segments they describe",
     "For every CallHome transcript whose turns are in the order of their begin times, chfilt writes one record with the channel, speaker and times of each turn that lies in the selected range (-b, -e, half a second of tolerance) and has words (or any with -k), sorted by channel and time. -p widens segments by at most the given time and half of the silence next to them, -s joins neighbouring segments of a speaker less than the given time apart, -E replaces segments of a channel that overlap by one excluded region covering them all, and -i fills exactly the time of the range no segment of the channel covers. The text of a turn (continued over lines or not) is that of its words one after another: noises, comments, punctuation and markers leave nothing, marked words the word, hesitations the hesitation mark, contractions their parts (or not, -c), unclear, foreign, broken-off words and hesitations optionally deletable with -d; -t, -q and -a rewrite whole words; malformed transcripts and unknown options are refused.",
     ["inputs", "configurations"], "all small arrangements of turns and short sequences of words x options",
     WHY + "a few recorded transcripts, none with -p, -s or -E.",
     ["src/chfilt/chfilt.pl"], [("times", "chfilt.pl in_range, the padding, smoothing, exclusion and gap loops"), ("words", "chfilt.pl normalisation of the text, Map_AArray, AlternateHyphenWords")])
