#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from anywhere; rewrites the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LIB = "src/lib.rs under cfg(bcalc_verif): makes the program's entry point callable in-process"
SCREEN = "terminal output after a line is submitted"

p("C01", "Arithmetic is exact and follows the documented precedence",
  "For every well-formed expression over number literals, variables, parentheses, + - * / %, unary minus, abs, max, min and integer powers, the result shown is the exact rational value of the expression (as an exact fraction in fractional mode), with no rounding anywhere inside. Binary operators bind in the order ^, then %, then * and /, then + and -, each level left-associative, while a minus sign that has no left operand, sqrt, abs and a function name without parentheses each apply to just the single operand that follows (so -2^2 is 4). % is the remainder of truncated division (sign of the dividend), 0^0 is 1, and division by zero, % by zero and a negative power of zero are errors.",
  ["inputs"], "every expression up to a token bound over an alphabet with every operator and function, plus longer operator/minus chains and operands around machine-word boundaries",
  "The unit tests evaluate about 35 fixed expressions and check the shape of about 15 syntax trees; operator interactions (chains of ^, %, unary minus, sqrt and functions) number in the millions and any pair of precedence levels or operand shapes can be wrong alone.",
  ["src/syntax_tree.rs", "src/token.rs", "src/operations.rs", "src/main.rs"],
  [("operator list collapsed level by level", "src/syntax_tree.rs SyntaxTree::read_expression"), ("ORDERED_BINARY_OPERATORS", "src/token.rs"), ("BigRational node execution", "src/syntax_tree.rs OperationNode::execute"), ("integer powers", "src/operations.rs exponentiate")],
  observe=[SCREEN], hook=LIB)

p("C02", "Exactly the well-formed expressions are accepted, the rest have no effect",
  "A non-blank line that is not a slash command is evaluated exactly when it is one complete expression, optionally preceded by a single variable name and '='; any other token sequence (missing or extra operands, operators or commas, unbalanced or empty parentheses, misplaced '=') is answered with an error and never with a value. Only max and min take parenthesised, comma-separated argument lists (of one or more expressions), and whitespace between tokens never changes meaning. A rejected line changes no variable and no setting, and a blank line prints an empty answer.",
  ["inputs"], "every token sequence up to a bound over the full token alphabet, with and without whitespace between tokens",
  "Tests cover one rejected expression (1 2) and a dozen accepted ones; the accept/reject boundary is a language over all token sequences.",
  ["src/syntax_tree.rs", "src/token.rs", "src/main.rs"],
  [("expression/operand/function readers", "src/syntax_tree.rs read_expression, read_operand, read_parenthesized_node, read_function_node"), ("tokenizer", "src/token.rs Tokenizer::tokenize")],
  observe=[SCREEN], hook=LIB)

p("C03", "Number literals mean what they say in every radix",
  "In every input radix from 2 to 16, a literal is accepted exactly when, after removing '_' separators, it consists of digits of that radix (letters in either case) with at most one '.', with at least one digit; its value is exactly the positional value of those digits, for any length. Anything else in that position that is not a variable, function, operator or parenthesis is rejected as an invalid number. Command arguments that are integers are always read in radix 10.",
  ["inputs", "configurations"], "every string up to a length bound over digits below/at/above the radix, both letter cases, '.', '_' for each radix 2..16, plus long literals",
  "Tests cover five literals in radix 8, 10 and 16; digit range, separator placement and point placement interact differently in every radix.",
  ["src/token.rs"], [("literal parsing", "src/token.rs tokenize_on_multichar_end"), ("integer lists", "src/token.rs tokenize_int_list")],
  observe=[SCREEN], hook=LIB)

p("C04", "Printed numbers are correctly rounded and formatted in the output radix",
  "A result is printed in the output radix (the conversion radix if set, otherwise the input radix) with at most `precision` digits after the point, rounded to nearest with ties away from zero (carries propagated) and a minus sign exactly when the value is negative. If the value is exactly representable in that many digits, trailing fractional zeros (and a bare point) are dropped so that reading the text back in the same radix gives exactly the value; otherwise exactly `precision` digits are shown, and with precision 0 no point appears. With commas on, the integer digits are grouped in threes from the right; with upper on, digits above 9 are upper case; in fractional mode non-integers are shown as an exact reduced numerator/denominator in the output radix.",
  ["inputs", "configurations"], "every small rational and a set of large and boundary rationals, for every output radix, a range of precisions, and every combination of commas/upper/fractional",
  "Tests cover 16 value/setting pairs, nearly all in radix 10 with precision 5; rounding carries, ties, padding zeros and grouping depend on value, radix and precision jointly.",
  ["src/operations.rs", "src/main.rs"], [("decimal formatting", "src/operations.rs make_decimal_string"), ("output mode selection", "src/main.rs calculate")],
  observe=[SCREEN], hook=LIB)

p("C05", "Roots and fractional powers are accurate to the configured precision",
  "For a base b and exponent n/d in lowest terms with d > 1 (sqrt is exponent 1/2), the value differs from the true real d-th root of b^n by at most radix^-(precision + extra precision), and is exactly right whenever that root is an integer. Odd roots of negative numbers are the negative real root; even roots of negative numbers are reported as errors; zero and magnitudes below 1 work like any other base. This holds for every precision and extra precision that the settings accept.",
  ["inputs", "configurations"], "every small rational base and exponent, perfect powers and their neighbours, values close to 0 and 1, a grid of precisions, extra precisions and radixes",
  "Tests check eleven powers at one precision in radix 10; the starting-point search and the stopping rule depend on magnitude, sign, degree, precision and radix.",
  ["src/operations.rs", "src/syntax_tree.rs"], [("Newton iteration with integer search", "src/operations.rs exponentiate"), ("total precision", "src/syntax_tree.rs UnaryNode/BinaryNode execute")],
  observe=[SCREEN], hook=LIB)

p("C06", "No input line crashes, hangs or wedges the calculator",
  "For every line a user can type or pass on the command line (any characters, however many, expression or command, in any settings and with or without a database) whose exact evaluation is small, bcalc answers with a result or an error message: it never panics, aborts or fails to answer. After the answer the session is still usable and a following simple calculation gives its normal result. Command-line options either take effect or are refused with a usage message before anything runs.",
  ["inputs", "configurations"], "every string up to a length bound over an alphabet of all significant characters, every token sequence up to a bound over tokens with boundary operands, under boundary settings",
  "Tests only feed inputs that are expected to work or to fail in one known way; a crash needs one unlucky combination of operator, operand and setting.",
  ["src/main.rs", "src/syntax_tree.rs", "src/operations.rs", "src/token.rs", "src/commands.rs"],
  [("error propagation as CalculatorFailure", "src/error.rs"), ("main loop reporting errors and continuing", "src/main.rs interactive_calc")],
  observe=[SCREEN, "process exit status"], hook=LIB)

p("C07", "A variable always holds the value last successfully assigned to it",
  "Within a session, `$name = expr` makes $name equal to the exact value of expr and shows that value; every later use of $name, in any expression including its own reassignment, reads that exact value until another assignment to the same name succeeds or the variable is purged. An assignment whose expression fails to parse or evaluate leaves every variable as it was, and using a name never assigned (or purged) is an error, never a default. Names are case-sensitive and compared in full, and settings such as radix and precision never alter a stored value.",
  ["histories"], "every sequence of assignments, self-referencing reassignments, failing assignments, reads, purges and setting changes over similar names up to a depth, with no database and with one",
  "No test executes an assignment or reads a variable at all (the variable store is never constructed in tests).",
  ["src/variable.rs", "src/syntax_tree.rs", "src/main.rs", "src/commands.rs"],
  [("session variable map", "src/variable.rs VariableStore"), ("assignment after evaluation", "src/syntax_tree.rs SyntaxTree::execute"), ("purge", "src/commands.rs PurgeVarCommand")],
  state=[("vars", "session variable values", "src/variable.rs VariableStore")], observe=[SCREEN], hook=LIB)

p("C08", "Each settings command changes exactly the setting it names",
  "After any sequence of /radix, /converttoradix, /precision, /fractional, /upper and /commas commands (and their aliases /r, /p, /f, /comma), each setting has the value of the last accepted change to it, a command without argument reports that value without changing anything, and later calculations use it. An argument that is malformed, out of range (radix 2 to 16; precision and extra precision 0 to 255 and their sum at most 255) or surplus is refused with an error and changes nothing. /help lists every command, /help NAME explains a command or alias, and any unknown command is an error with no effect.",
  ["histories"], "every reachable settings state over a domain of valid, boundary and invalid arguments for every command, with every transition from it",
  "There are no tests for commands at all, and the interactions (order of commands, partial updates on error, aliases) are a state space.",
  ["src/commands.rs", "src/main.rs"], [("command table and alias map", "src/commands.rs CommandExecutor"), ("per-command execute", "src/commands.rs")],
  state=[("Args", "current settings", "src/main.rs Args")], observe=[SCREEN], hook=LIB)

p("C09", "The line editor edits the line exactly as the keys dictate",
  "For every sequence of key events, the line submitted by Enter is what a plain cursor editor produces: printable ASCII inserts at the cursor (Shift gives upper case), Backspace/Delete remove the character before/at the cursor, Left/Right move by 1 (by 15 with Control or Shift) clamped to the line, Home/End go to the ends; modifiers make no difference to Backspace, Delete, Home, End, Up, Down and Enter. Control+N on a parenthesis moves to its matching partner if there is one (with the cursor past the last character, that last character counts) and otherwise does nothing. Non-ASCII characters and unhandled key combinations change nothing.",
  ["histories"], "every key sequence up to a depth from several starting lines (empty, short, long, nested parentheses, recalled history), checking line and cursor after every key",
  "No test drives the editor; every behaviour depends on the state reached by the preceding keys.",
  ["src/main.rs", "src/input_history.rs"], [("key handling", "src/main.rs interactive_calc 'get_event loop"), ("line edits", "src/input_history.rs insert/remove")],
  state=[("cursor_pos", "index of the cursor in the line", "src/main.rs interactive_calc")], observe=["terminal screen after each event", "submitted line"], hook=LIB)

p("C10", "The screen always shows the edited line with the cursor in place",
  "At every wait for input in inline mode, the current row shows '# ' (or '< ' when text is hidden to the left), then a contiguous window of the line of at most width-4 characters that contains the cursor position, then ' >' exactly when text is hidden to the right, and the terminal cursor stands on the character (or end) it refers to, for every width of at least 5 and after any edits, recalls and resizes. In the alternate screen (as far as the window's height allows), and when a line is submitted, the whole line is shown wrapped with continuation rows indented by two columns (and the cursor placed accordingly), and the answer's lines follow below it, each starting at column 0. A window too narrow for this (4 columns or fewer inline, 2 or fewer for wrapping) ends the session with an error instead of a crash.",
  ["histories", "configurations"], "every sequence of edits, cursor moves, recalls and resizes up to a depth for every small terminal width, in both display modes",
  "The display code is only compiled by the tests; the scroll offset is history-dependent state and its boundary cases depend on width, length and cursor together.",
  ["src/main.rs"], [("scroll window", "src/main.rs interactive_calc scroll_offset"), ("wrapped display", "src/main.rs interactive_calc alternate screen branch")],
  state=[("scroll_offset", "first visible character", "src/main.rs interactive_calc")], observe=["terminal screen and cursor at each wait for input"], hook=LIB)

p("C11", "History recall shows every submitted line unaltered, with edits as drafts",
  "Within a session, pressing Up k times from the new line shows the k-th most recently submitted line (including blank, erroneous and command lines) exactly as it was submitted, with the cursor at its end; Up at the oldest and Down at the new line do nothing. Edits made to any line while navigating are kept as drafts until Enter; Enter submits the line currently shown, appends it as the newest entry, discards all drafts and returns to an empty new line. Submitted entries are never altered by later edits.",
  ["histories"], "every sequence of Up/Down/edit/Enter up to a depth from several initial histories, with and without stored history behind it",
  "No test constructs an InputHistory; the three overlapping index spaces make errors appear only for particular interleavings of submissions, navigation and edits.",
  ["src/input_history.rs", "src/main.rs"], [("primary/current histories", "src/input_history.rs InputHistory")],
  state=[("current_history", "drafts", "src/input_history.rs"), ("current_index", "position", "src/input_history.rs")], observe=["terminal screen"], hook=LIB)

p("C12", "Stored history: every line, in order, newest first, within capacity",
  "With a database, every submitted line is stored as soon as it is submitted; a later session recalls, after its own lines, exactly the lines stored before it was opened and still retained, newest first, each once and unaltered. At most the configured capacity (/histcap, default 100, at least 1, kept across sessions) of lines is ever retained: when it is exceeded, by a new line or by lowering the capacity, exactly the oldest lines are dropped. A session never recalls lines stored by other sessions after it was opened, and running off retained history just stops.",
  ["histories"], "every sequence of submit / recall / set capacity / close / reopen / submit-from-a-second-open-session operations up to a depth, with capacities around the number of stored lines, plus long runs over the default capacity",
  "The database code is only compiled by the tests; the list structure and its eviction depend on the whole operation history.",
  ["src/saved_data.rs", "src/input_history.rs", "src/main.rs", "src/commands.rs"], [("linked list with front/back tags", "src/saved_data.rs add_to_input_history"), ("eviction", "src/saved_data.rs enforce_history_size_with_transaction"), ("iteration", "src/saved_data.rs get_prev_input_history")],
  state=[("input_history", "stored lines", "SQLite table"), ("input_history_tags", "front and back", "SQLite table")], observe=["recalled lines in later sessions", "/histcap"], hook=LIB)

p("C13", "Variables persist exactly, until the last stored line using them is dropped",
  "With a database, a successful assignment is stored at once and a later session that uses the name before assigning it reads exactly the stored value (any magnitude, sign, denominator and name); a session that already has its own value keeps using it until /reloadvar, which takes the stored value or, if there is none, reports the variable unchanged and leaves it so. Recording a line may drop old lines and, with them, exactly the stored variables last referenced (assigned, used, or reloaded) by a dropped line; the references in the new line count from then on. /purgevar removes the named variables, and only those, from this session and from storage.",
  ["histories"], "every sequence of assign / use / reload / purge / filler line / set capacity / reopen / second-session operations over two names up to a depth with small capacities",
  "The database code is only compiled by the tests; survival of a value depends on the exact history of references and evictions.",
  ["src/saved_data.rs", "src/variable.rs", "src/main.rs", "src/commands.rs"], [("last_used_by with ON DELETE CASCADE", "src/saved_data.rs variable_history"), ("touch on reference", "src/main.rs calculate"), ("lookup order", "src/variable.rs VariableStore::get/reload/purge")],
  state=[("variable_history", "stored variables", "SQLite table")], observe=["values shown by later sessions"], hook=LIB)

p("C14", "A crash at any moment leaves saved data intact and keeps what was confirmed",
  "If bcalc or the machine stops at any point while lines are being submitted, capacities changed or variables stored, the next session opens normally and finds the stored history, variables and capacity exactly as they were between two consecutive storage steps of the interrupted run: never a mixture, a broken chain or a lost older entry. Everything done by lines whose answer had been shown is present. This includes a crash while the database is first being created and a second crash during the recovery itself.",
  ["crash_points"], "every prefix of the file operations of short histories, every subset of unsynced writes lost and torn final writes, from several starting databases, including crashes during recovery",
  "Tests never open a database, and no test can stop a process between two file operations.",
  ["src/saved_data.rs", "src/main.rs"], [("one transaction per history update", "src/saved_data.rs add_to_input_history, set_max_history_size, open"), ("SQLite rollback journal with default synchronous setting", "src/saved_data.rs open")],
  observe=["contents recalled by the session opened after the crash"], hook=LIB)

p("C15", "Concurrent sessions on one database never corrupt or lose each other's data",
  "When several bcalc sessions share a database and run at the same time, every line submitted in any of them is answered and stored, and the stored history, variables and capacity are always those of some one-at-a-time order of the individual storage steps of all sessions that respects each session's own order. Contention alone (another session holding the database briefly) makes a session wait, but never fail, crash or skip its storage. This includes sessions starting simultaneously on a database that does not exist yet.",
  ["schedules"], "every interleaving, up to a preemption bound, of the file operations and locks of two (or three) sessions each opening, submitting one or two lines that conflict on the history front, the eviction, the capacity or a variable",
  "No test opens even one database; interleavings inside a transaction cannot be forced from outside.",
  ["src/saved_data.rs", "src/main.rs"], [("transactions", "src/saved_data.rs"), ("busy timeout of the SQLite connection", "src/saved_data.rs open")],
  observe=["answers in each session", "contents recalled by a session opened afterwards"], hook=LIB)

p("C16", "A database failure is reported and has no partial effect",
  "If one file operation of the database, or every one from some moment on, fails (I/O error, disk full) while a line is processed, that line is answered either normally or with 'Runtime Error:', the stored data afterwards is that of a prefix of the line's storage steps (each step entirely done or not at all; all of them if it is answered normally), and the session goes on: once the fault is gone, later lines are answered, stored and recalled normally. If the fault hits while starting or while recalling stored history, the session may instead end with an error, with the terminal restored. A failure never crashes the process.",
  ["fault_sequences"], "every position of one failing file operation (and of persistent failure from that point on) of every kind in short histories, from several starting databases",
  "Tests never touch the database and cannot make a given file operation fail.",
  ["src/saved_data.rs", "src/main.rs", "src/input_history.rs", "src/variable.rs"], [("error propagation as RuntimeError", "src/error.rs, src/main.rs"), ("rollback on drop of a transaction", "src/saved_data.rs")],
  observe=["answers", "contents recalled afterwards"], hook=LIB)

p("C17", "The database is used only when enabled, and its commands say when it is not",
  "With --no-db, with the data directory variable unset, or with an expression given by --input, bcalc creates, reads and writes no file or directory, and /histcap and /reloadvar fail with an error that has no effect while everything else (calculation, session variables and recall, /purgevar, settings) behaves as with an empty database. With the variable set, all storage goes to the bcalc subdirectory of that directory and nowhere else, and the directory is created if missing. In --input mode variables are refused with an error.",
  ["configurations", "histories"], "every combination of --no-db, environment, --input and directory state with every short sequence of commands, assignments and recalls, observing all file operations",
  "Tests never run the program with any environment or option; absence of file operations is not observable by unit tests.",
  ["src/main.rs", "src/saved_data.rs", "src/commands.rs", "src/input_history.rs"], [("optional database", "src/main.rs interactive_calc, SavedData::open"), ("MissingCapabilityError", "src/error.rs")],
  observe=["file operations", SCREEN], hook=LIB)

p("C18", "The terminal is restored on every way out, and the exit keys always exit",
  "However an interactive session ends (Control+C, Control+D or Control+Z at any moment and in any editor state, or an error from reading input, querying the cursor, sizing or too narrow a window, or opening the database), raw mode is off and the alternate screen, if it was entered, has been left by the time the program ends. The three exit keys end the session successfully without submitting, storing or evaluating the line being edited. If the terminal cannot be switched to raw mode or the alternate screen, the program ends with an error and the terminal as it was.",
  ["fault_sequences", "histories"], "every position of one failing terminal operation and every position of an exit key in short event sequences, inline and alternate screen, with and without a database",
  "Tests never run the interactive loop and cannot inject terminal failures.",
  ["src/main.rs"], [("restore after interactive_calc returns", "src/main.rs main"), ("exit keys", "src/main.rs interactive_calc")],
  observe=["raw mode and screen state at exit", "exit status", "stored history"], hook=LIB)

p("C19", "One-shot mode and command-line options agree with interactive mode",
  "For every line and every setting, `bcalc --input LINE` with settings given as options prints the same answer as typing LINE in an interactive session (without variables or database) whose settings were made by the equivalent commands; errors in the line go to standard error with the same text. Option values outside the documented ranges (radix and conversion radix 2 to 16, precision and extra precision 0 to 255) are refused before evaluation. Defaults are radix 10, no conversion, precision 5, extra precision 10, and all display flags off.",
  ["configurations", "inputs"], "every combination from a grid of option values (valid, boundary and invalid) and input lines, comparing the real binary with the real interactive session",
  "Tests never run main or parse options.",
  ["src/main.rs", "src/commands.rs"], [("Args", "src/main.rs"), ("calculate shared by both modes", "src/main.rs")],
  observe=["stdout, stderr and exit status of the real binary"], hook=LIB)

p("C20", "Existing databases keep working, newer incompatible ones are left untouched",
  "A database written by the pinned version opens with all its history, variables and capacity intact, and opening one, any number of times, adds, changes and removes nothing stored by earlier sessions. A database whose recorded minimum compatible version is newer than this program's version is refused with an error at start and remains byte-for-byte unchanged; one that is merely newer but declares itself compatible is used, with its recorded versions preserved. Missing tables or settings are created with their defaults without disturbing those present.",
  ["configurations", "histories"], "every combination of recorded version, minimum version, capacity, present/missing tables and list sizes in a starting database, each opened repeatedly and used",
  "Tests never open a database, let alone one written by another version.",
  ["src/saved_data.rs"], [("CREATE TABLE IF NOT EXISTS / INSERT OR IGNORE", "src/saved_data.rs open"), ("minimum version check", "src/saved_data.rs open")],
  state=[("meta_int", "versions and capacity", "SQLite table")], observe=["database bytes", "start-up error", "recalled contents"], hook=LIB)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
