"""What each check explores, per tier, and what it leaves out.  Written into
the evidence files and quoted by DESIGN.md."""

COMMON = [
    "the encoding of Python operations in sx/ (cross-checked on every run by "
    "replaying a model of each explored path on the real code, and by "
    "selftest/)",
    "z3 answers correctly; every counterexample is replayed on the real code "
    "before it is reported",
    "integer inputs are encoded as bit-vectors of the stated ranges, text as "
    "ASCII characters",
]

BF_OUT = ["widths below 1 or above 64 (64 is the code's own maximum); "
          "negative widths are not decided",
          "non-integer arguments, slice steps and open slices"]

SCOPE = {
    "C01": (
        {"quick": "all 8 layouts; symbolic width 1..64, value, index in "
                  "-200..200; histories of 3-5 operations at widths 8, 48; "
                  "two fields of different layout used side by side; "
                  "repeated accesses around every kind of change at widths "
                  "3..5; every bit number at the settled widths 1, 24, 64",
         "thorough": "as quick, histories also at widths 1, 3, 16, 64; 11 "
                     "settled widths"},
        BF_OUT + ["indices beyond +-200"]),
    "C02": (
        {"quick": "all 8 layouts; symbolic width 1..64, value, both range "
                  "ends in -200..200; 2-3 step histories at width 8; two "
                  "fields side by side; repeated accesses around every "
                  "kind of change at widths 3..5; 2608 ranges at the "
                  "settled widths 1, 24, 64",
         "thorough": "histories at widths 1, 5, 8, 16, 24; ranges at 11 "
                     "settled widths"}, BF_OUT),
    "C03": (
        {"quick": "all 8 layouts; symbolic width 1..64, prior value, bit, "
                  "range and new value; 2-5 step histories at width 8; "
                  "two fields side by side; bits and ranges at the settled "
                  "widths 1, 24, 64",
         "thorough": "histories at widths 1, 5, 8, 16, 24; 11 settled "
                     "widths"}, BF_OUT),
    "C04": (
        {"quick": "all 8 layouts; symbolic width 1..64, target, and values "
                  "from -2**70 to 2**70; 3-4 step histories, widths 8, 48",
         "thorough": "histories at widths 1, 5, 8, 16, 24, 48"},
        BF_OUT + ["integers beyond 70 bits"]),
    "C05": (
        {"quick": "all 8 layouts; set/clear/bit queries: symbolic width "
                  "1..64; range predicates: symbolic width 1..16, and 24, "
                  "48; 3 step histories at width 5; two fields side by "
                  "side; bits and ranges at the settled widths 1, 24, 64",
         "thorough": "range predicates at every width 1..64; histories at "
                     "widths 1, 5, 8, 16"}, BF_OUT),
    "C06": (
        {"quick": "all 8 layouts; metadata for symbolic width 1..64; printed "
                  "form for 12 widths with symbolic value; histories at "
                  "widths 1, 8, 17",
         "thorough": "printed form and histories at every width 1..64"},
        ["the exact decoration of the printed form around its digits"]),
    "C07": (
        {"quick": "machine word and all 16 constant kinds; symbolic 48-bit "
                  "contents, integers from -2**52 to 2**52; histories of 3-4 "
                  "operations for 3 kinds",
         "thorough": "histories for all 17 kinds"},
        ["integers beyond 52 bits", "non-integer arguments"]),
    "C08": (
        {"quick": "symbolic 12-bit groups and whole words, invalid group "
                  "values in a wide band; all pairs of assignments",
         "thorough": "all triples of assignments"},
        ["non-integer arguments"]),
    "C09": (
        {"quick": "every mnemonic of the documented table in every form, "
                  "symbolic operands; 9-step construction histories "
                  "(sampled starts)",
         "thorough": "construction histories from every mnemonic"},
        ["pseudo-instructions and assembly-control classes (they have no "
         "command code)"]),
    "C10": (
        {"quick": "every mnemonic and form; symbolic operands in -40..100, "
                  "each operand present or absent; peripheral address or mask "
                  "with operands the form does not have",
         "thorough": "as quick"},
        ["operands beyond that band, non-integers"]),
    "C11": (
        {"quick": "every mnemonic of each generator, symbolic operands; "
                  "histories of 9 generator calls",
         "thorough": "as quick"},
        ["generator calls with illegal operands"]),
    "C12": (
        {"quick": "all pairs of (mnemonic, form), both sides' operands "
                  "symbolic", "thorough": "as quick"},
        ["FNN against unmasked NA, and PRA/PRD/PRO among themselves "
         "(documented identities)"]),
    "C13": (
        {"quick": "store at every address 0..2047 (symbolic) and symbolic "
                  "value, probe at a symbolic address, symbolic prior "
                  "contents; filling the whole bank in three orders; slices "
                  "of up to 4 words and long slices around 8 places; "
                  "histories of 3-4 operations over 3 address windows",
         "thorough": "slices and clears over all addresses; wider windows"},
        ["slice steps, negative or open slice ends"]),
    "C14": (
        {"quick": "integer addresses from -70000 to 70000 outside the bank, "
                  "values from -2**52 to 2**52 outside the word, at every "
                  "address; range stores around 8 places; ranges that cross "
                  "either end of the bank; 2-4 step histories",
         "thorough": "range stores and read-backs at every address"},
        ["addresses beyond +-70000, non-integer addresses"]),
    "C15": (
        {"quick": "both module kinds, every bank; symbolic value; addresses "
                  "0-3, 1023-1024, 2046-2047, probe at every location; all "
                  "locations given distinct values and read back; ranges "
                  "of banks around both ends",
         "thorough": "every address"},
        ["more than two modules at once"]),
    "C16": (
        {"quick": "widths 16 and 24; symbolic values, bits, ranges, invalid "
                  "integers; 2-4 step histories",
         "thorough": "all 125 three-step histories per width"},
        ["widths the machine does not have"]),
    "C17": (
        {"quick": "symbolic integers from -1000 to 1000; symbolic names of "
                  "length 0..5 over printable ASCII",
         "thorough": "names of length 0..8"},
        ["indexing a group by an alias (AU/CU names): the code rejects "
         "them or not; not claimed"]),
    "C18": (
        {"quick": "both widths; symbolic group, register, value, key; "
                  "replacement by name and number; names of length 0..4; "
                  "clear after symbolic earlier iteration",
         "thorough": "as quick"},
        ["replacement by objects that are not registers/groups"]),
    "C19": (
        {"quick": "memory bank: an earlier iteration abandoned after 0-3, "
                  "1023-1024 or 2046-2048 steps, then a full one; nested "
                  "iterations; groups and files: every number of earlier "
                  "steps; 2-4 stores, clears and rejected accesses before",
         "thorough": "every number of earlier steps 0..2048"},
        ["more than two earlier iterations"]),
    "C20": (
        {"quick": "line lengths 0..132 with every column symbolic where no "
                  "field starts with a blank; lengths around every field "
                  "boundary with five fields fully symbolic at a time (the "
                  "others blank); with and without newline; custom layouts "
                  "of up to 3 fields, card widths up to 8; two layouts used "
                  "in turn; selected lengths 133..200",
         "thorough": "custom layouts of up to 4 fields, widths up to 11"},
        ["lines longer than 200 columns, carriage returns, non-ASCII"]),
    "C21": (
        {"quick": "line lengths around every field boundary; up to four "
                  "fields' text fully symbolic at a time; selected "
                  "lengths 133..200",
         "thorough": "line lengths 0..132, every pair of fields, and all ten "
                     "fields at length 110"},
        ["non-ASCII text and lines longer than 200 columns"]),
    "C22": (
        {"quick": "lengths around every field boundary, up to four fields' "
                  "text fully symbolic; operation fields of every length "
                  "0..13 over {A,B,blank,comma} and up to 9 over printable "
                  "ASCII and tab",
         "thorough": "lengths 0..132, every pair of fields"},
        ["non-ASCII text"]),
    "C23": (
        {"quick": "decks of up to 3 symbolic lines (lengths up to 9), "
                  "verbose or not; decks of 12 and 101 lines with symbolic "
                  "lines at selected places; log cards of every boundary "
                  "length with symbolic fields; two decks of up to 2 lines",
         "thorough": "decks of up to 4 lines"},
        ["decks of more lines, or with all of many lines symbolic"]),
    "C24": (
        {"quick": "trees of up to 3 files with up to 3 lines of 3 symbolic "
                  "characters each, nesting up to 2, missing files at every "
                  "level; chains of includes up to a depth of 9; a file "
                  "read, changed and read again",
         "thorough": "up to 4 lines; chains up to a depth of 40"},
        ["include cycles, a line consisting of '$' alone, file names with "
         "directories"]),
    "C25": (
        {"quick": "one card with a symbolic label of 1..5 printable "
                  "characters or 6..11 over a small alphabet; operations of "
                  "1..8 symbolic characters; up to 3 cards, 2 files and an "
                  "included file with small symbolic labels and SETLOCs; "
                  "two sources of one segment; a source changed and built "
                  "again",
         "thorough": "labels of 1..11 and operations of 1..13 printable "
                     "characters; up to 4 cards"},
        ["operation fields ASSIGN,x and SETLOC variants with an empty "
         "argument", "longer files"]),
    "C26": (
        {"quick": "labels as in C25; 2-3 cards with symbolic labels and "
                  "operations, EQUALS operands symbolic",
         "thorough": "labels of 1..11 printable characters, up to 4 cards"},
        ["longer files"]),
    "C27": (
        {"quick": "tables of up to 3 names of up to 2-4 symbolic characters, "
                  "any of 8 patterns of simple/complex definitions over 2 "
                  "segments and 2 subsegments",
         "thorough": "names of up to 4 characters, tables of 4 names"},
        ["fuzzy search", "a search with both a prefix and a suffix"]),
    "C28": (
        {"quick": "histories of up to 5 additions, updates and prunings, "
                  "symbolic names and values; types and references; two "
                  "tables",
         "thorough": "all histories of 3 operations after an addition"},
        ["longer histories", "printing the table"]),
    "C29": (
        {"quick": "symbolic start and end of 1..6 digits (with leading "
                  "zeros), step of 1..3 digits, at most 5 lines; start "
                  "columns 1..9, end columns up to 9 further",
         "thorough": "at most 10 lines, start columns 1..20"},
        ["more lines",
         "steps below 1"]),
    "C30": (
        {"quick": "one card with a symbolic operation field of 1..4 "
                  "characters and every known mnemonic; 2-3 cards from a "
                  "mixed list; several and included sources; options -a, "
                  "-i, -v, -p and -d",
         "thorough": "operation fields of 1..13 characters, up to 5 cards"},
        ["the statistics of the instruction checker (C36)",
         "longer files"]),
    "C31": (
        {"quick": "all codes and pairs of codes; symbolic code and "
                  "character", "thorough": "as quick"},
        []),
    "C32": (
        {"quick": "files of 1..3 symbolic lines of 0..3 characters, with "
                  "and without final newline; a file included once or twice; one or two "
                  "sources; line numbers up to 121; file names with one or "
                  "two dots, and of 79 characters",
         "thorough": "lines of up to 12 characters, line numbers up to "
                     "10001"},
        ["longer lines and files", "file names without a suffix", "nested includes (C24)"]),
    "C33": (
        {"quick": "1..4 pages from first pages up to 999; log "
                  "section names of 1..5 characters with symbolic column 8; "
                  "header file names of 1..4 characters, or of 8 and 9 "
                  "letters and underscores",
         "thorough": "up to 12 pages, log section names of up to 72 "
                     "characters, file names of up to 6"},
        ["sources without a Pages line", "more pages",
         "sources that do not end in a newline"]),
    "C34": (
        {"quick": "files of 1..3 cards with symbolic labels of up to 3 "
                  "characters, operations from a mixed list, subsegment "
                  "changes; two files, with reported errors; a source name "
                  "of more than 38 characters",
         "thorough": "files of 4 cards, two files of 2 cards"},
        ["longer labels and files", "option -v"]),
    "C35": (
        {"quick": "files of 1..3 cards with symbolic labels of up to 3 "
                  "characters; two and three files; with and without -c",
         "thorough": "files of 4 cards, two files of 2 cards"},
        ["the fuzzy-matched suggestions (fuzzywuzzy is stubbed to suggest "
         "nothing)", "option -v"]),
    "C36": (
        {"quick": "files of 1..3 cards, operations from mixed lists, "
                  "symbolic column 8 and card type; options -c, -u, -s and "
                  "their combinations; two files; counts up to 121",
         "thorough": "files of up to 5 cards"},
        ["longer files", "the layout of the table beyond "
         "its fields and order"]),
    "C37": (
        {"quick": "searches for 9 texts of 1..3 characters, lower case, "
                  "blanks and commas among them, in files of 1..3 cards with "
                  "symbolic labels of up to 3 characters; two files; all "
                  "combinations of -b, -e, -x, -f",
         "thorough": "labels of 2 characters on 3 cards"},
        ["fuzzy search", "what an exact search prints about the symbol "
         "beyond that it prints one line (it holds object addresses)",
         "longer search texts"]),
    "C38": (
        {"quick": "registers and groups of both widths with symbolic "
                  "contents of any one register after construction, "
                  "assignment, replacement or clearing; the register file "
                  "with any group and six registers; a bank with a symbolic "
                  "word at five addresses",
         "thorough": "a bank with a symbolic word at 37 addresses"},
        ["several symbolic elements at once"]),
    "C39": (
        {"quick": "every tool on sources of up to 2 cards with symbolic "
                  "label and column 8, remarks in between, or two sources; "
                  "decks of up to 2 symbolic lines and an include; tables "
                  "of up to 2 cards",
         "thorough": "3 cards"},
        ["the additional lines themselves", "fuzzy and exact searches"]),
    "C40": (
        {"quick": "no source; a missing source with a symbolic name, alone, "
                  "after another or included, next to a symbolic card; "
                  "symbolic unknown mnemonics of 1..4 characters, and 13 "
                  "odd spellings; symbolic "
                  "numbers of 7 or 8 digits",
         "thorough": "cards of up to 20 columns"},
        ["unreadable files", "options that do not exist"]),
    "C41": (
        {"quick": "every mnemonic, symbolic operands over their full ranges",
         "thorough": "as quick"},
        ["the unmasked forms of maskable instructions, which the listing "
         "does not show"]),
}


def describe(pid, tier):
    b, out = SCOPE[pid]
    return {"bounds": {"tier": tier, "explored": b[tier]},
            "outside": out, "assumptions": COMMON}
