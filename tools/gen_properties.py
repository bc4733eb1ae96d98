#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
LP="crates/ludtwig-parser/src/"; LT="crates/ludtwig/src/"
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Parsing is lossless",
 "For every input text, valid or not, the concatenated text of the leaves of the syntax tree is byte-for-byte the input: no character is dropped, duplicated, reordered or invented.",
 ["inputs"],"every UTF-8 string of at most 4 GB and any nesting the stack can hold",
 "Tests compare trees for a few hundred short snippets; losing a token needs a particular error-recovery path, combined token or trailing trivia, and the snippets reach only a fraction of those paths.",
 [LP+"lexer.rs",LP+"parser.rs",LP+"parser/source.rs",LP+"parser/event.rs",LP+"parser/sink.rs",LP+"grammar.rs"],
 [("every lexer item becomes a token","lexer.rs lex"),("every consumed token is recorded by exactly one event","parser.rs bump, bump_as, bump_next_n_as"),("every event and all trivia become leaf text","parser/sink.rs Sink"),("the top level consumes everything up to the end","grammar.rs root")],
 [("cursor (parser side)","next token to be consumed","parser/source.rs Source"),("cursor (tree side)","next token to be put into the tree","parser/sink.rs Sink")],
 ["Parse::green_node text"])
p("P02","The parser never panics",
 "Parsing any input text returns a tree and a list of errors; it never panics, in debug or release builds, however malformed or truncated the template is.",
 ["inputs"],"every UTF-8 string of at most 4 GB and any nesting the stack can hold",
 "The tests parse well-formed snippets and a handful of malformed ones; a panic needs one particular truncation at one particular grammar position.",
 [LP+"grammar.rs",LP+"grammar/html.rs",LP+"grammar/twig.rs",LP+"grammar/twig/tags.rs",LP+"grammar/twig/expression.rs",LP+"grammar/twig/literal.rs",LP+"grammar/twig/shopware.rs",LP+"parser.rs",LP+"parser/source.rs",LP+"parser/event.rs",LP+"parser/sink.rs"],
 [("end of input is tested before a token is consumed","grammar/**"),("entry conditions of the grammar functions (assertions) hold at every call","grammar/**"),("opened nodes are always closed, in order","parser/event.rs Marker")],
 None,["return of parse()"])
p("P03","Parsing always terminates",
 "Parsing ends for every input: no loop of the parser and no cycle of mutually recursive grammar functions can go round without consuming input.",
 ["inputs"],"every UTF-8 string",
 "A hang needs one specific token at one specific loop; tests only show that the sampled snippets end.",
 [LP+"grammar.rs",LP+"grammar/html.rs",LP+"grammar/twig/tags.rs",LP+"grammar/twig/expression.rs",LP+"grammar/twig/literal.rs",LP+"parser.rs",LP+"parser/source.rs"],
 [("repetition stops when the position did not change","grammar.rs parse_many"),("every recursion consumes a token first","grammar/**")],None,["return of parse()"])
p("P04","Skipped or malformed syntax is always reported",
 "Whenever the parser skips over input to recover from a problem or marks a part of the tree as erroneous, it also reports at least one syntax error for that file; an expected token that is missing is always reported. A tree without reported errors contains no error node.",
 ["inputs"],"every UTF-8 string, every error-recovery path",
 "Tests show the error list for sampled malformed inputs; an unreported skip on another recovery path produces no failing test and lets the linter exit successfully on a broken template.",
 [LP+"parser.rs",LP+"grammar.rs",LP+"grammar/html.rs",LP+"grammar/twig.rs",LP+"grammar/twig/tags.rs",LP+"grammar/twig/expression.rs",LP+"grammar/twig/literal.rs",LP+"grammar/twig/shopware.rs"],
 [("a missing expected token adds an error before recovery","parser.rs expect, expect_any"),("recovery is preceded by an error","grammar/** callers of recover")],None,["Parse::errors","ERROR nodes of Parse::green_node"])
p("P05","An error-free parse means every construct is complete",
 "If parsing reports no error, every construct in the tree is complete: each Twig block tag has its matching end tag, each tag, output statement, comment, string, bracket and HTML start or end tag has its closing delimiter. Equivalently, a missing mandatory end or closing delimiter always produces a syntax error.",
 ["inputs"],"every UTF-8 string and every construct kind",
 "For each of about thirty constructs, each place where the input may stop or continue differently is a separate case; tests sample a few of them for a few constructs.",
 [LP+"grammar/html.rs",LP+"grammar/twig.rs",LP+"grammar/twig/tags.rs",LP+"grammar/twig/literal.rs",LP+"grammar/twig/shopware.rs",LP+"grammar.rs"],
 [("mandatory tokens are requested with expect","grammar/**")],None,["Parse::errors","Parse::green_node"])
p("P06","Every block's end and branch tags stop an unclosed element inside it",
 "For every Twig construct with a body, its end tag and its intermediate branch tags (else, elseif) end that body and stop the parsing of an HTML element left open inside it, so the missing HTML end tag is reported and the Twig construct is still closed by its own end tag. This holds in normal HTML content and in raw-text elements alike; inside an attribute value these tags end the value before anything of the tag is consumed.",
 ["inputs"],"every block construct, every HTML context",
 "Each construct times each HTML context is a case; existing tests exercise a few constructs in element content.",
 [LP+"grammar/twig/tags.rs",LP+"grammar/html.rs",LP+"grammar/twig/shopware.rs"],
 [("list of termination keywords","grammar/twig/tags.rs at_twig_termination_tag"),("end keyword tested by each body loop","grammar/twig/tags.rs, shopware.rs parse_many early exits")],None,["Parse::errors"])
p("P07","Whitespace-control variants of Twig delimiters are interchangeable",
 "The trimming forms of a Twig delimiter ({%- {%~ for {%, -%} ~%} for %}, and likewise for output and comment delimiters) are accepted and recovered from in exactly the places where the plain form is.",
 ["inputs"],"every position where a delimiter may occur, every variant",
 "There are over two hundred recovery and lookahead sets; tests use the trimming forms in a few dozen places.",
 [LP+"parser.rs",LP+"grammar.rs",LP+"grammar/html.rs",LP+"grammar/twig.rs",LP+"grammar/twig/tags.rs",LP+"grammar/twig/expression.rs",LP+"grammar/twig/shopware.rs"],
 [("delimiter sets","parser.rs TWIG_*_SET, GENERAL_RECOVERY_SET"),("token sets passed to lookahead, expect and recover","grammar/**")],None,["Parse::green_node"])
p("P08","Operators bind as Twig defines",
 "For every pair of Twig operators, the expression tree nests them according to Twig's operator precedence and associativity (or < and < b-or < b-xor < b-and < comparisons, in, matches, starts/ends with < .. < + - < ~ < * / // % < is < ** < ??, with ** and ?? right-associative, prefix not between ~ and *, prefix + - above all binary operators; the conditional ?: weakest of all; the filter bar, member access, subscript and call apply to the operand right before them).",
 ["inputs"],"every pair of operators, any expression",
 "About thirty operators give some nine hundred ordered pairs; tests cover a few dozen.",
 [LP+"grammar/twig/expression.rs"],
 [("binding power tables","expression.rs Operator for SyntaxKind"),("precedence climbing loop","expression.rs parse_twig_expression_binding_power_rhs")],None,["shape of TWIG_BINARY_EXPRESSION / TWIG_UNARY_EXPRESSION nodes"])
p("P09","Token definitions, parser vocabulary and printed names agree",
 "Every token with a fixed spelling has one spelling: the text the lexer recognises for it, the spelling the grammar uses to ask for it and the name printed for it in error messages are the same. Every token kind has a printable name, and no name belongs to two kinds.",
 ["inputs"],"every token kind",
 "There are over 150 token kinds in three tables; a swapped pair shows only for inputs (or error messages) that use exactly that token.",
 [LP+"syntax/untyped.rs"],
 [("lexer token attributes","untyped.rs SyntaxKind"),("T! macro table","untyped.rs T!"),("printed names","untyped.rs Display for SyntaxKind")],None,["Display of SyntaxKind","lexer output"])
p("P10","Typed views accept exactly their own node kind",
 "Each typed view of the syntax tree can be obtained from nodes of exactly one kind, the kind it is named after, no two views accept the same kind, and a view never changes the node it was made from.",
 ["programs"],"every node kind and every typed view",
 "Around ninety views times two hundred kinds; tests never enumerate them.",
 [LP+"syntax/typed.rs"],
 [("generated casts","typed.rs ast_node!")],None,["AstNode::cast / can_cast / syntax"])
p("P11","Reported error positions are positions of real tokens",
 "Every syntax error points at the exact extent of a token of the input (the token found, or the last token when the input ended), so every reported range is inside the file and starts and ends at character boundaries.",
 ["inputs"],"every reported error of every input",
 "Tests look at the ranges of sampled errors; a bad range for a different error site makes the diagnostics printer panic or point elsewhere.",
 [LP+"parser.rs",LP+"parser/parse_error.rs",LP+"lexer.rs",LP+"grammar/**"],
 [("ranges are copied from tokens only","parser.rs add_error, parse_error.rs at_token")],None,["ParseError::range"])
p("P12","The syntax tree is one well-nested tree",
 "For every input the parser produces exactly one root node that spans everything; every node that is opened is closed exactly once, in strictly nested order.",
 ["inputs"],"every input and every path through the grammar",
 "A node left open or closed out of order shows only on the path concerned (often an error path); tests sample paths.",
 [LP+"parser/event.rs",LP+"parser.rs",LP+"grammar.rs",LP+"grammar/**"],
 [("markers completed exactly once, innermost first","parser/event.rs EventCollection, Marker"),("root wraps everything","grammar.rs root")],None,["Parse::green_node"])

p("P20","Linting never modifies files",
 "Unless automatic fixing or creation of the configuration file was requested on the command line, no file or directory is created, changed, renamed or deleted, whatever the templates, configuration and environment contain.",
 ["inputs","configurations"],"every command line without --fix and -C, every template and configuration",
 "Tests call rule and parser functions directly and never run the file-processing path at all.",
 [LT+"main.rs",LT+"process.rs",LT+"config.rs",LT+"check.rs"],
 [("write guarded by the fix option","process.rs run_analysis"),("config write guarded by create option","config.rs handle_config_or_exit")],None,["file system"])
p("P21","Fixing rewrites only the processed file, with its complete fixed text",
 "With automatic fixing, the only file written while processing a template is that same template, it is written at most once, only after fixing succeeded and only if something changed, and the written text is the complete text resulting from the fixes. If reading, fixing or re-checking fails, the file is left untouched and the failure is reported.",
 ["inputs","fault_sequences"],"every template, every failure of reading, fixing or writing",
 "The tests exercise the in-memory fixing only; no test reaches the code that writes.",
 [LT+"process.rs"],
 [("write after successful fixing, guarded by the dirty flag","process.rs run_analysis"),("error propagation","process.rs process_file, run_analysis")],None,["file system","process::process_file result"])
p("P22","Creating the default configuration never overwrites a file",
 "Asking for a configuration file to be created never replaces or truncates an existing file at the target location: it then fails with a non-zero exit status and leaves the file as it was. If nothing exists there, the default configuration is written to that location and nowhere else.",
 ["configurations"],"every target path and existing content",
 "No test runs the option.",
 [LT+"config.rs"],
 [("existence test before write","config.rs handle_config_or_exit")],None,["file system","exit status"])
p("P23","The exit status reflects the reported findings",
 "The program exits with a non-zero status if at least one error, warning or help finding was reported during the run, and with status zero if none was (informational findings alone do not fail the run).",
 ["inputs","schedules"],"every multiset and order of reported findings",
 "No test runs the reporting loop; the outcome depends on which combination of severities occurred.",
 [LT+"output.rs",LT+"main.rs"],
 [("counters per severity and final decision","output.rs handle_processing_output"),("exit with that code","main.rs main, app")],[("severity counters","number of reports per severity","output.rs")],["process exit status"])
p("P24","Every problem found is reported with its severity",
 "Every failure to walk, read, fix or write a file and every syntax error counts as an error of the run, and every finding of a rule is counted with the severity the rule gave it and printed; none is dropped on the way to the summary. (If fixing a file fails, that failure is reported in place of the findings of the file.)",
 ["inputs","fault_sequences"],"every error source and every finding",
 "Tests check printed diagnostics of single rules, not the error paths of file processing nor the counting.",
 [LT+"main.rs",LT+"process.rs",LT+"check.rs"],
 [("report events","main.rs handle_input_paths; check.rs produce_diagnostics")],None,["ProcessingEvent::Report events","stderr"])
p("P25","Every file is processed, independently of failures in others",
 "Every file the directory walk delivers (anything but directories and standard input) is processed exactly once, and a failure in one file or directory entry neither ends the run nor prevents the processing of the others.",
 ["schedules","fault_sequences","inputs"],"every set of files, every failing subset, every thread schedule",
 "No test walks directories or runs files concurrently.",
 [LT+"main.rs",LT+"process.rs"],
 [("walk callback always continues","main.rs handle_input_paths"),("one task per entry","main.rs handle_input_paths s.spawn")],None,["FileProcessed events"])
p("P26","Applied fixes never overlap and never shift each other",
 "Within one fixing pass, the replacements applied to a text are pairwise non-overlapping and are applied so that none of them moves the position of another one that is still to be applied. A pass that has suggestions applies at least one of them, and all of them if no two overlap (suggestions that only touch do not overlap).",
 ["inputs","configurations"],"every set of suggestions produced by any combination of active rules",
 "Tests fix one rule at a time; overlaps need findings of several rules on the same code.",
 [LT+"process.rs"],
 [("overlap filter","process.rs iteratively_apply_suggestions"),("application from the end of the text to its start","process.rs apply_suggestions_to_text")],None,["fixed source text"])
p("P27","Fixing always ends and reports a change only if there was one",
 "The repetition of fixing passes is bounded by a constant whatever the rules suggest; when suggestions remain at the bound, the file counts as failed and is not written. The outcome says that something changed exactly if at least one pass was applied, and after every pass the text, tree and findings in use are those of the new text.",
 ["inputs","configurations"],"every template and rule combination, including rules that fight each other",
 "Tests fix one rule at a time and end after one pass.",
 [LT+"process.rs"],
 [("bounded loop and error at the bound","process.rs iteratively_apply_suggestions")],None,["result of iteratively_apply_suggestions"])
p("P28","Ignore directives silence exactly the element that follows",
 "A rule named by an ignore directive, or every rule if none is named, is not applied to the element following the directive nor to anything inside it; it is applied again after that element, and nested directives do not end an outer one early. Rules not named are not affected.",
 ["inputs"],"every rule, every directive placement and nesting",
 "Tests check the directives for a few rules at one nesting level.",
 [LT+"check.rs",LT+"check/rule.rs",LT+"check/rules/indentation.rs",LT+"check/rules/html_duplicate_id.rs",LT+"check/rules/twig_block_duplicate.rs",LT+"check/rules.rs"],
 [("enter/leave handling in the shared traversal","check.rs run_rules"),("enter/leave helpers of whole-tree rules","check/rule.rs RuleExt; indentation.rs")],[("ignored rules","directives in effect","check.rs run_rules")],["CheckResult list"])
p("P29","Rules never look inside erroneous syntax",
 "No rule reports a finding or suggests a fix inside a part of the tree that the parser marked as erroneous. (Blanks and line breaks in front of the first visible character of such a part do not count as inside it.)",
 ["inputs"],"every input with syntax errors, every rule",
 "Tests of rules use valid templates.",
 [LT+"check.rs",LT+"check/rules/indentation.rs",LT+"check/rules/html_duplicate_id.rs",LT+"check/rules/twig_block_duplicate.rs"],
 [("error subtrees skipped in every traversal","check.rs run_rules; check_root implementations")],None,["CheckResult list"])
p("P30","Formatting never touches whitespace-sensitive content",
 "Rules that insert or remove line breaks, blank-line whitespace or indentation suggest nothing inside pre, textarea, script and style elements nor inside the content of Twig strings, at any nesting depth inside them. (Normalising the line-ending style is not meant.)",
 ["inputs"],"every formatting rule, every nesting of elements and strings inside such an element",
 "Tests check one level of one element for single rules.",
 [LT+"check.rs",LT+"check/rules/indentation.rs",LT+"check/rules/twig_block_line_breaks.rs",LT+"check/rules/whitespace_between_line_breaks.rs"],
 [("sensitivity state of the traversal","check.rs run_rules"),("separate state of the indentation rule","indentation.rs check_for_trivia_sensitivity"),("rule guards","twig_block_line_breaks.rs, whitespace_between_line_breaks.rs")],None,["CheckResult suggestions"])
p("P31","Configured rules are exactly the rules that run",
 "The rules that run are exactly those listed as active in the configuration; a name that belongs to no rule makes the program fail before any file is processed. Every rule has a unique name, can be activated, and the shipped default configuration lists only existing rules.",
 ["configurations"],"every list of rule names",
 "One test checks the default list in one direction.",
 [LT+"check/rules.rs",LT+"main.rs","crates/ludtwig/ludtwig-config.toml"],
 [("rule registry","check/rules.rs RULE_DEFINITIONS"),("selection and validation","check/rules.rs get_config_active_rule_definitions"),("exit before processing","main.rs app")],None,["exit status","CliSharedData::rule_definitions"])
p("P32","Environment overrides config file overrides defaults, and every key counts",
 "For every configuration key the value used is the one from the environment if set there, else the one from the configuration file, else the shipped default; a configuration that cannot be read ends the program with a failure before any file is processed. Every key has a shipped default and is consulted by the program.",
 ["configurations"],"every key, every combination of sources",
 "Tests check some combinations for some keys.",
 [LT+"config.rs","crates/ludtwig/ludtwig-config.toml"],
 [("merge order","config.rs Config::new"),("failure exit","config.rs handle_config_or_exit")],None,["Config"])
p("P33","Every finding carries the name of the rule that produced it",
 "Every finding and every suggested fix is attributed to the rule that produced it, under the name by which that rule is configured and ignored.",
 ["programs","inputs"],"every rule and every finding",
 "Tests show the printed name for sampled findings.",
 [LT+"check/rule.rs",LT+"check/rules/**",LT+"check.rs"],
 [("single constructor of findings","check/rule.rs RuleExt::create_result")],None,["CheckResult::rule_name"])
p("P34","Diagnostics of one file are printed as one uninterrupted block",
 "While files are processed concurrently, the diagnostics of a file are handed to the single printing thread as one unit after the file is completely checked; nothing else writes diagnostics to standard error piecemeal from the processing of a file.",
 ["schedules"],"every interleaving of worker threads",
 "Tests are single-threaded.",
 [LT+"process.rs",LT+"check.rs",LT+"output.rs"],
 [("buffer per file, one message","process.rs run_analysis"),("one printing thread","output.rs")],None,["stderr"])
p("P35","The findings for a file do not depend on other files",
 "The findings and the fixed text of a file depend only on its content, the configuration and the command line: no mutable state is shared between the processing of different files, so results are the same in every order and on any number of threads.",
 ["schedules","histories"],"every order and interleaving of files",
 "Tests process one file per process or do not share state.",
 [LT+"process.rs",LT+"check.rs",LT+"check/rules/**",LP+"**"],
 [("no mutable statics","both crates"),("read-only shared data","main.rs CliSharedData")],None,["CheckResult list"])
p("P36","Rules tolerate missing syntax",
 "Running the rules on the tree of any template, however malformed, never panics because an expected part of a construct (name, value, quote, operand, tag) is absent.",
 ["inputs"],"every tree the parser can produce",
 "Tests run rules on valid templates with all parts present.",
 [LT+"check.rs",LT+"check/rules/**",LP+"syntax/typed.rs"],
 [("optional parts handled with early returns","check/rules/**; typed.rs accessors")],None,["return of run_rules"])
p("P37","File-level ignore directives switch off exactly the named rules",
 "In a file with file-level ignore directives, exactly the active rules that no such directive names run, and no rule runs if one of them names none; other rules and other files are not affected.",
 ["inputs"],"every number, order and content of file-level ignore directives",
 "Tests check one directive with one or no rule.",
 [LT+"check/rules.rs",LT+"process.rs"],
 [("filter over the active rules","check/rules.rs get_file_active_rule_definitions")],None,["file_rule_definitions"])
# --- stated, not claimed
p("P40","Fixing is idempotent",
 "Running the linter with automatic fixing a second time on a file that was fixed successfully changes nothing.",
 ["inputs","configurations"],"every template and configuration","Tests fix one rule once.",
 [LT+"process.rs",LT+"check/rules/**"],[("loop until no suggestion remains","process.rs iteratively_apply_suggestions")])
p("P41","Fixes preserve meaning",
 "Automatically fixed templates render the same output as before, apart from insignificant whitespace.",
 ["inputs"],"every template","Tests compare a few fixed texts.",
 [LT+"check/rules/**"],[("each rule's replacement","check/rules/**")])
p("P42","Indentation amounts are correct",
 "After fixing, every line starts with exactly the configured indentation for its nesting depth.",
 ["inputs","configurations"],"every template","Tests compare a few templates.",
 [LT+"check/rules/indentation.rs"],[("level counters","indentation.rs")])
p("P43","Naming conventions are recognised and converted correctly",
 "A name is accepted exactly if it follows the convention, and a suggested name always follows it.",
 ["inputs"],"every name","Tests sample names.",
 [LT+"check/naming_convention.rs"],[("character scanners","naming_convention.rs")])
p("P44","A crash during fixing leaves the old or the new file",
 "If the program or machine stops while a fixed file is written, the file afterwards holds either its old or its new content.",
 ["crash_points"],"every crash point during the write","No test injects crashes.",
 [LT+"process.rs"],[("single in-place write","process.rs run_analysis")])
p("P45","Deep nesting does not overflow the stack",
 "Templates nested to any depth are parsed without exhausting the stack.",
 ["inputs"],"every nesting depth","Tests nest a few levels.",
 [LP+"grammar/**"],[("recursive descent","grammar/**")])
p("P46","Work is linear in the size of the template",
 "Parsing and checking time grows at most proportionally to the size of the template.",
 ["inputs"],"every template size","Benchmarks sample sizes.",
 [LP+"**",LT+"check.rs"],[("single traversal","check.rs run_rules")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
