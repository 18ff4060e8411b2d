//! C01, C08 to C12, C15, C16, C18 to C20: texts parsed as contracts.

#[path = "../imp/bridge.rs"]
mod bridge;
#[path = "../imp/reflect.rs"]
mod reflect;
#[path = "../imp/contract/mod.rs"]
mod contract;

use contract::*;
use mc::engine::{self, Check, Spec};

/// C15 switches threads at uses of the heap.
#[global_allocator]
static HEAP: c15::Heap = c15::Heap;

fn main() {
    engine::main(&[
        Check {
            spec: Spec {
                property: "C01",
                rule: "all strings of up to 3 (4) of 48 characters and of 25 words, every code point up to U+3000 and (every) a 97th of the rest in six places, every truncation, removal, insertion and replacement at every place of compact contracts, every segment removed, lexemes of every size up to 40 (140) and larger ones up to 70,000, characters of two to four bytes at every distance up to 70 (300) before, in and after errors of nine kinds; every construct's parser on all viable prefixes of a breadth-first search over the grammar's states with every next token, and on any two (three) tokens; programs and annotations with spellings that need care; every way a construct contains itself, and types of every two of 11 ways in turn, nested up to 400 (1000) times on an 8 MB stack; no execution may panic, abort or hang, and results can be printed",
                assumptions: &["deeper nesting than that is only looked at for known findings", "a case that takes more than 40 s is taken for a hang"],
            },
            run: c01::run,
            replay: c01::replay,
        },
        Check {
            spec: Spec {
                property: "C08",
                rule: "all contracts of up to 3 parameters, 3 fields and 1 component, and of up to 1 parameter, 1 field and 4 components with up to 2 parameters, over colliding names and types; all orders of up to 12 (16) transitions and procedures; lists of every length up to 130 (600) and around every power of two up to 2^16 (2^17); names of every length up to 136 (520) and of ten larger ones in each place, 190 words that mean something to the language or nearly do in any two places; the extracted interface must equal the model's",
                assumptions: &["most contracts are given to parser and converter as the tokens of the reference tokenizer, which C02 compares with the real one; the last families, short ones and a 256th of the rest go through the public entry point"],
            },
            run: c08::run,
            replay: c08::replay,
        },
        Check {
            spec: Spec {
                property: "C09",
                rule: "all types of depth up to 3 over the distinguishing leaves, in their different spellings (every choice of parentheses up to a bound) and in every declaration position; all pairs of 100 types in neighbouring declarations; towers of every pair of constructors up to 260 (513) levels, long address types, nested and repeated annotations of the grammar; every annotation of the breadth-first search over the grammar's states, with all combinations of type names; names and byte-string sizes of every length up to 136 (520) in 21 forms of annotations; every namespace with every name, types and fields named by 150 words that mean something elsewhere; judged by the reference semantics of annotations",
                assumptions: &["types applied to arguments but defined by the user are reported by name only", "an address type based on ByStr020, and ByStr<n> with n beyond the machine's word, are unspecified"],
            },
            run: c09::run,
            replay: c09::replay,
        },
        Check {
            spec: Spec {
                property: "C10",
                rule: "every sentence of a breadth-first search over the grammar's states for imports, library, constraint, initialiser, body, procedure, procedure parameters and library types, every chain of 3 (5) productions, every nesting up to 260 (520) levels and every repetition up to 1030 (4100), put into each code position of contracts of several sizes, with unique names and with names that collide with the interface; pairs of positions, and all at once; words and literals of every length up to 136 (520) and of ten larger ones in all positions, spellings that need care and words that mean something elsewhere; some of the longest sentences through the public entry point; the interface must equal that of the model",
                assumptions: &["most contracts are given to parser and converter as the tokens of the reference tokenizer, which C02 compares with the real one"],
            },
            run: c10::run,
            replay: c10::replay,
        },
        Check {
            spec: Spec {
                property: "C11",
                rule: "each of 25 kinds of trivia in each gap of sentences that use every production (spaced and tight), in all gaps and mixed for all pairs of productions, in pairs of gaps; all sequences of 3 (4) trivia, comments with every content of 3 (5) critical characters, strings that look like code; each of the 25 space characters in each gap of whole contracts, all sequences of 3 (4) of twelve spaces and empty comments and long runs of spaces there; every character up to U+FFFF (every character) in comments; comments without an end in every gap; tokens, syntax tree without positions and contract must be those of the plain text; rejected texts stay rejected",
                assumptions: &["words glued together by removing trivia are not compared"],
            },
            run: c11::run,
            replay: c11::replay,
        },
        Check {
            spec: Spec {
                property: "C12",
                rule: "every type of depth up to 3 over the distinguishing leaves is printed by the real code, the text placed in ten type contexts and seven declaration positions of a contract, and the contract's reported type compared with the original; prints are pairwise distinct; also towers of every pair of constructors up to 260 (513) levels and long address types; the type reported for every annotation of the breadth-first search, and for names and sizes of every length, must print as an annotation that is reported alike",
                assumptions: &["arguments are written with parentheses around the printed text"],
            },
            run: c09::run12,
            replay: c09::replay12,
        },
        Check {
            spec: Spec {
                property: "C15",
                rule: "13 texts that collide in length, names and outcome: all histories of three parses in one buffer, of any two of six operations (parse, tokenize, abandon, shared parser object, other thread) and a parse, many repetitions (1,100 of whole parses, 70,000 of parser and converter), many texts, texts that agree in length, characters, beginning or end; small texts after large ones; all orders of the steps tokenize/parse/convert of two and three texts; a whole parse before every token of another; threads under a controlled scheduler: all schedules with up to two (three) switches at tokens, with one (up to three) at uses of the heap by parser and converter, with one at uses of the heap by the whole of parsing; two lexers in all interleavings; every result must be the one of a fresh process",
                assumptions: &["switches happen at tokens and at uses of the heap; between those, threads only run freely (not counted as explored)", "three switches: texts of together at most 36 tokens"],
            },
            run: c15::run,
            replay: c15::replay,
        },
        Check {
            spec: Spec {
                property: "C16",
                rule: "all histories of up to 3 (4) file operations (write in place, replace by rename, cut, append, remove, directory, link, exchange; equal lengths and time stamps) on two names, every path parsed after every operation; kinds of paths, also of files that have no name left; every byte sequence of a list at every position of a contract; something before or behind the contract; names of files with every ending of up to 3 letters and every name of up to 2 characters; pairs of 80 peculiar names of directories and files, relative and absolute; sizes around buffer boundaries; every length of partial read, every single read interrupted or failing, every error on opening; pipes cut at every byte; the result must be the one of parsing the current contents, or an I/O error, and the file unchanged",
                assumptions: &["the file does not change while it is being read", "system calls are controlled by defining read and open64 in the executable; other ways of reading are only observed"],
            },
            run: c16::run,
            replay: c16::replay,
        },
        Check {
            spec: Spec {
                property: "C18",
                rule: "every way a construct contains itself (simple cycles of up to 7 (9) productions), every list of the grammar with all pairs of variants of its element, all pairs of 17 lists of a contract, with equal and with distinct names; trivia of 18 kinds in every gap and around many tokens, the contents of comments, strings, words and numbers, every token over and over, finished or not; each at two sizes a factor of 16 apart: the bytes asked of the heap may grow 48-fold, the processor time 64-fold, or 9-fold for a further factor of 4 in one of three tries",
                assumptions: &["a cost that is not proportional but stays below the proportional part at the sizes looked at is not seen", "time is that of the thread's processor clock"],
            },
            run: c18::run,
            replay: c18::replay,
        },
        Check {
            spec: Spec {
                property: "C19",
                rule: "every construct's parser on covering sentences, cut off after every token and going on with other tokens; covering programs and types dressed with names, converted; all pairs (triples) of 73 characters and words, compact contracts cut at every character, with tokenizing abandoned after every token; 29 families of texts that differ in one place; every kind of path under every fault; each several times: after the first, the memory in use may not grow, files opened are closed, nothing is written, no thread goes on, files are unchanged",
                assumptions: &["what is suspicious is decided in a process of its own, by the memory and threads of the whole process", "tables that are built once are not counted"],
            },
            run: c19::run,
            replay: c19::replay,
        },
        Check {
            spec: Spec {
                property: "C20",
                rule: "all pairs of tokens, of 3375 positions, of the types of depth up to 2, of lists of up to 3 fields, of transitions and of contracts built from them, and for every construct all pairs of trees of the covering sentences and of a sentence and everything that differs from it in one spelling, token or position: equal exactly when they read the same field by field, orders antisymmetric and agreeing with equality, copies that read and print the same; all sequences of 5 (7) of nine operations on lists against a plain list; names, lists and messages of every length up to 136 (520) and of larger ones, types of as many levels, each against all that differ in one place; errors print what they contain",
                assumptions: &["trees are read by the same code as for C06 and C07", "the order of nodes is otherwise unspecified"],
            },
            run: c20::run,
            replay: c20::replay,
        },
    ]);
}
