S = "toys/src/"
def P(id, title, statement, files, mech, why, text, over=("inputs", "programs"), observe=None):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech, observe_at=observe or ["standard output of the interpreter process", "value of Interpreter::call_main"], hook_needed=None),
        technique="runtime monitoring: generated programs run in an interpreter process of their own, what they print and return compared with an independent evaluator",
        level_note="Seeded random exploration of the real parser and interpreter judged by an independent evaluator (harness/toys/src/model.rs); no violation on what was executed, not a proof. The sources are compiled from the working tree as a library made of the binary's own modules.",
    )
def M(name, where): return dict(name=name, where=where)
T = "every program of the language whose evaluation is defined (no overflow, division by zero, unknown name, missing argument or value of the wrong kind)"
PROPS = [
 P("T01", "A toys program is read by its grammar, whatever its layout, and as a whole",
   "A program text is read as the definitions, statements and expressions it spells, whatever white space stands between its tokens and whatever names it uses that merely start like a keyword: *, / bind tighter than %, % tighter than + and -, those tighter than comparisons and the logical operators, every level associates to the left, parentheses override, and an else belongs to the nearest if. A text with an unbalanced bracket, a missing semicolon or anything left over after its last definition is rejected.",
   [S + "parsers.rs", S + "expr.rs"], [M("program, line, primary, the operator levels", S + "parsers.rs")],
   "tests parse single tokens and two-operand expressions in one layout, never a whole program", T),
 P("T02", "Toys expressions evaluate to what their operators mean",
   "Evaluating an expression gives the value of its operators on 64-bit integers and booleans (division and remainder truncate towards zero; both operands are evaluated, the left one first), its literals (integers, booleans, strings with their escapes, arrays in order) and its variables; printing it writes exactly its text and a line end.",
   [S + "interpreter.rs", S + "parsers.rs", S + "values.rs"], [M("Binary, literals", S + "interpreter.rs"), M("string_literal", S + "parsers.rs"), M("Display for Value", S + "values.rs")],
   "tests never check a value that was computed", T),
 P("T03", "Toys statements run in order with the right branches and rounds",
   "Statements run in order, each at most once per round: an if runs exactly one branch (or none without an else), a while runs its body exactly as long as its condition, tested before every round, holds; a for counts its variable up by one from its first value while it is less than the bound, evaluated before every round. Assignments are seen by everything that runs later. A block has the value of its last statement, and an empty one, a finished loop and an if without a branch taken are true.",
   [S + "interpreter.rs", S + "parsers.rs"], [M("If, While, Block, Assignment", S + "interpreter.rs"), M("for as assignment and while", S + "parsers.rs")],
   "tests run one block without a branch or loop, and check nothing about it", T),
 P("T04", "Toys calls bind their arguments, return their value and scope variables",
   "A call evaluates its arguments from left to right in the caller, binds them to the parameters (by position, or by label in any order), runs the body and has its last value; recursion works and the latest definition of a name counts. Reading or assigning a name means its innermost binding: the callee's own, else its callers', else the globals, which are evaluated in the order written; a name bound nowhere becomes a variable of the running call, and what a call bound is gone when it ends. What a program bound outside its calls can be read from the interpreter after the run and is there for the next program it runs, until a reset.",
   [S + "interpreter.rs", S + "environment.rs"], [M("FunctionCall, LabelledCall, call_main", S + "interpreter.rs"), M("find_binding along next", S + "environment.rs")],
   "no test calls a function", T),
 P("T05", "Every text is a toys program or an error",
   "Reading any text whatsoever as a program ends, without a panic, in a program or in an error with a message.",
   [S + "parsers.rs"], [M("program", S + "parsers.rs")],
   "tests only parse valid fragments", "every text", over=("inputs",), observe=["result of parsers::program on the text"]),
]
