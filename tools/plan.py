"""What each check runs: phases (build, workload scale), and the words for the evidence file."""


class Phase:
    def __init__(self, mode, quick, thorough, name=None, prop=None, prefix=(), single=True, qlimit=240, tlimit=7200):
        self.mode, self.q, self.t, self.prop, self.prefix, self.single = mode, quick, thorough, prop, prefix, single
        self.name = name or mode
        self.ql, self.tl = qlimit, tlimit

    def scale(self, tier):
        return float(self.t if tier == "thorough" else self.q)

    def limit(self, tier):
        return self.tl if tier == "thorough" else self.ql


class Spec:
    def __init__(self, phases, rule, assumptions=()):
        self.phases, self.rule = phases, rule
        self.assumptions = list(assumptions)


VALGRIND = ("valgrind", "-q", "--error-exitcode=99", "--track-origins=no", "--exit-on-first-error=yes", "--leak-check=no", "--undef-value-errors=yes")
TEXTS = "Texts come from grammar-driven generation over the dialect with randomised names, literals, layout and list lengths, from a hand-written corpus, its prefixes and single-token edits, from size and depth sweeps and from byte mutation. "
REF = "The reference lexer and parser in /verif/src (written from the grammar's documentation and SQL, never derived from a run) define the expected outcome."
PLAN = {
    "C01": Spec([Phase("asan", 1, 25)], TEXTS + "A case is one text parsed, read completely, printed, tokenised and moved through one of six result-object scenarios under ASan+UBSan; non-trivial if a tree was built or the text has more than 8 bytes.", ["sanitizers see only executed code"]),
    "C02": Spec([Phase("plain", 1, 40), Phase("asan", 0.4, 8)], TEXTS + "A case is one text with two of nine ways to end the result's life; live heap blocks before and after are compared; non-trivial if more than 12 blocks were allocated.", ["one-time allocations that stay are not leaks"]),
    "C03": Spec([Phase("plain", 1, 15), Phase("vg", 0.35, 6, name="memcheck", prefix=VALGRIND)], TEXTS + "A case is one text parsed five times over memory filled with different patterns (or under valgrind memcheck); non-trivial if the observation has more than 60 bytes."),
    "C04": Spec([Phase("plain", 4, 40), Phase("asan", 0.2, 3), Phase("plain", 1, 1, name="huge", prop="C04huge")], TEXTS + "One phase builds texts of 2 GiB and more. A case is one text judged by the reference parser; non-trivial if it has at least 3 tokens.", [REF]),
    "C05": Spec([Phase("plain", 4, 40), Phase("asan", 0.2, 3)], TEXTS + "A case is one text whose complete tree is compared field by field with the reference tree; non-trivial if accepted and it contains a statement of the property's kinds.", [REF]),
    "C06": Spec([Phase("plain", 5, 40), Phase("asan", 0.2, 3)], TEXTS + "As C05, for DML, transaction, prepare/execute, COPY and SHOW statements.", [REF]),
    "C07": Spec([Phase("plain", 5, 40), Phase("asan", 0.2, 3)], TEXTS + "As C05, for CREATE, ALTER and DROP statements.", [REF]),
    "C08": Spec([Phase("plain", 6, 40), Phase("asan", 0.2, 3)], "Expressions enumerated over all pairs and triples of operators and drawn at random, in every clause that takes an expression; non-trivial if accepted with at least two operators.", [REF]),
    "C09": Spec([Phase("plain", 8, 30), Phase("asan", 0.2, 3)], "Literals and names drawn from boundary values, random values and the constants of the sources, in every position that takes them; non-trivial if accepted.", [REF, "strtod of the C library is correctly rounded"]),
    "C10": Spec([Phase("plain", 1.5, 30), Phase("asan", 0.2, 3)], "A case is one text and rewritings of it that differ in layout, comments, keyword case or operator spelling only; non-trivial if accepted with at least 4 tokens."),
    "C11": Spec([Phase("plain", 2, 30), Phase("asan", 0.1, 3)], "A case is one script compared with its statements parsed alone; non-trivial if it has at least two statements."),
    "C12": Spec([Phase("plain", 2, 30), Phase("asan", 0.2, 3)], TEXTS + "Placeholders are put everywhere an operand may stand; non-trivial if at least one is present.", [REF]),
    "C13": Spec([Phase("plain", 4, 30), Phase("asan", 0.2, 3)], TEXTS + "Errors are planted at every token of accepted texts; non-trivial if rejected.", [REF]),
    "C14": Spec([Phase("plain", 4, 40), Phase("asan", 0.5, 12)], "A case is a random history of up to dozens of operations (parse, reset, move, release, addStatement, read ...) on several result objects, shadowed by a model of ownership.", []),
    "C15": Spec([Phase("tsan", 1, 20, single=False), Phase("plain", 1, 20, single=False)], "A case is one call made by one of several threads that parse, tokenise, print and free concurrently, compared with the outcome observed sequentially.", ["races are reported for executed interleavings only (happens-before, so independent of timing within one execution)"]),
    "C16": Spec([Phase("plain", 4, 30)], "A case is a sequence of calls with process settings (locale, rounding mode, errno, environment) around an observed call, compared with the same call in a fresh process.", []),
    "C17": Spec([Phase("plain", 2, 30), Phase("asan", 0.2, 3)], TEXTS + "A case is one text whose token sequence is compared with the reference lexer's; non-trivial if it has at least 3 tokens.", [REF]),
    "C18": Spec([Phase("cov", 0.3, 5), Phase("plain", 4, 40), Phase("asan", 0.1, 3)], TEXTS + "A case is one accepted text printed through every printing entry point; non-trivial if something was printed.", []),
    "C19": Spec([Phase("cov", 1, 6, single=False), Phase("plain", 1, 6, single=False)], "A case is one size of one text family; instructions (basic-block edges), allocations and peak memory are related to size, and time is only used to notice calls that do not end.", []),
    "C20": Spec([Phase("plain", 4, 60), Phase("asan", 0.2, 3)], "A case is one text put into PREPARE ... FROM '...'; non-trivial if accepted.", []),
    "C21": Spec([Phase("plain", 15, 30), Phase("asan", 0.2, 3)], "Statements with constraint lists, COPY options, dates, intervals and file formats, valid and invalid, enumerated and drawn; non-trivial if decided by one of the rules.", [REF]),
    "C22": Spec([Phase("plain", 8, 80), Phase("asan", 0.3, 6)], TEXTS + "A case is one text; every node of an accepted tree is checked for well-formedness; non-trivial if accepted.", []),
    "C23": Spec([Phase("plain", 8, 80), Phase("asan", 0.3, 6)], TEXTS + "A case is one text; every accessor of every node is compared with its fields; non-trivial if accepted.", []),
    "C24": Spec([Phase("plain", 3, 60), Phase("asan", 0.1, 3)], "A case is one printable text with a re-laid-out twin and ten variants that differ in one token, one exchange or one pair of parentheses; printed forms are compared; non-trivial if accepted with at least 3 tokens.", ["a variant counts only if the content the printer is meant to show differs (the projection in src/p_print.cpp)"]),
    "C25": Spec([Phase("plain", 4, 40)], TEXTS + "A case is one text for which the allocation that sets up the scanner is made to fail in parse and tokenize, and which is then parsed normally; non-trivial if the text is not empty.", ["other allocation failures end the process or are passed on by the C++ library; nothing is claimed for them"]),
    "C26": Spec([Phase("plain", 4, 60), Phase("asan", 0.5, 6)], "A case is one statement rebuilt node by node through the public constructors and factories over patterned memory, compared with the parsed one, disposed of in four ways with every heap block counted, once with every empty owned field filled; plus every constructor and factory with random arguments; non-trivial if more than 12 blocks were allocated.", ["fields are set by the rules the headers state (owned, heap-allocated as the parser does)"]),
    "C27": Spec([Phase("plain", 3, 60), Phase("asan", 0.1, 3)], "A case is one accepted text in which phrases (expressions, operands, selects, tables, column types, literals, names) are replaced at random places; the tree must be that of the surroundings with the phrase's own tree put in; non-trivial if at least one replacement was compared."),
    "C28": Spec([Phase("plain", 3, 60), Phase("asan", 0.1, 3)], "A case is one text rejected with a syntax error, and up to nine texts with the same beginning up to and including the offending token and another ending; non-trivial if at least one was compared."),
}
