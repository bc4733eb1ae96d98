text = r'''# Static verification of ludtwig — design

Everything here decides properties from the source of `/repo`'s working tree without running ludtwig. The facts are the
compiler's own: monomorphised MIR, resolved callees, evaluated constants, type and trait tables. No solver is involved.

## 1. Machinery

| part | what it is |
|---|---|
| `driver/main.rs` | a `rustc_private` driver (nightly), used as `RUSTC_WORKSPACE_WRAPPER` for `cargo check`. For both crates it collects every function reachable from `parse` (parser crate) and from `main` (the program), generic code instantiated, and writes it as JSON: MIR statements and terminators, callee instances, constants, statics, types with their fields and variants, implementations, source spans. |
| `build.sh`, `facts.sh` | build driver and engine; dump the facts of the current tree on every run (about 5 s; only the dependencies and the two tools are reused). `setup.sh` does both once. |
| `engine/` | the analyses (Rust, no dependencies, compiled with the stable toolchain). `check.sh ID` = facts + one property. |
| `interp.rs`, `dom.rs` | the abstract interpreter: interprocedural (one context per function and abstract input; memoised; recursion by fixpoint), path-sensitive, over an abstract store with references, variants, sets of token kinds, symbolic terms, lists. |
| `pmodel.rs`, `track.rs`, `p05.rs`, `rules.rs`, `checks.rs` | the parser client: the state of a parse is (set of kinds possible for the current and the following token, whether one was consumed, stack of open markers with completeness credits, error reported or not). The layers below the grammar (token source, events) are replaced by this model; that they fit it is the business of `plumb.rs`. |
| `plumb.rs` | the layers below the grammar: token source, recorded events, tree building, lexing, error values, wiring of `parse`. See 4. |
| `world.rs`, `cliprops.rs`, `cli.rs` | the program client: evaluation from `main` with modelled surroundings (files, directory walk, channel, threads, configuration sources); every effect is an event, ghost state and rules hang on events. |
| `tree.rs`, `treeprops.rs`, `syntax.rs` | rules running over symbolic syntax trees; where each construct of a tree can occur and what its text can be. |
| `stdlib.rs`, `rx.rs` | models of the standard library (Option, Result, Vec, String, iterators, hash tables, formatting, ordering) and a small regular-expression evaluator for constant patterns. Functions of the standard library whose bodies are available as MIR are simply interpreted. |
| `p35.rs` | effect and dependence queries over the whole call graph. |
| `report.rs` | violations, evidence, known findings, time and memory bounds. |

A violation names rule, source position, and the call path. Keys (function and construct, no line numbers) identify a
finding in `known-findings.txt`.

**Decision discipline.** "Held" needs every obligation discharged, every floor met (a floor is a least number of obligations
found, so a check whose anchors vanish does not pass by vacuity) and the exploration complete. If something cannot be
followed (a call without model giving "anything"), both outcomes are explored where that keeps the answer sound; where it
would only produce noise the obligation is counted as *not followed* in the evidence and not reported. That is a
deliberate choice for the stated rule "never raise an alarm on code where the property holds": in doubt a rewritten
fragment becomes unanswered (visible in the evidence), not an alarm. On the current tree nothing is unanswered.

**Bounds against run-away.** 420 s and 9 GB per check, then exit 2 with a message (no verdict). A layer function that takes
more than 400 000 steps in one small situation is given up for the run (some situations hold a white-space run of 270 tokens).

## 2. What the levels mean here

* `proof`: the analysis over-approximates all executions of the modelled system, at any input size (sets of tokens, any
  number of loop rounds by fixpoint). Trusted: the models listed in 5.
* `other`: part of the argument enumerates situations up to a bound, or chosen ones. The evidence's `coverage.explanation`
  says which. These properties are P01 P11 P12 (layers below the grammar), P24 P26 P28 P29 P30 P31 P32 P37.

## 3. Properties of the parser

Common to P01–P08, P11, P12: the grammar (`grammar::root` and all it reaches, about 250 functions of the repository, closures included, in about 35 000 calling contexts) is
interpreted from every possible pair of current/next token-kind sets. Every function is analysed in every context in
which it is actually called, including the recovery-set stack. Kinds are sets over all `SyntaxKind`s, refined on each
comparison; loops and recursion are taken to a fixpoint, so there is no bound on input length.

| id | rule decided | against what | cost |
|---|---|---|---|
| P01 | every token taken from the source is recorded exactly once, in order, before anything else is taken; parsing ends only at the end of the input; plus the layers below (4) | text of leaves = input | 50 s |
| P02 | no panic terminator, failed (debug) assertion, dropped or out-of-order marker, failing `unwrap`/`expect`, index or arithmetic check is reachable for any token sequence | panic entry points of core/std and MIR asserts | 80 s |
| P03 | no loop round and no cycle of calls without a consumed token on it (progress fact per path; cycles in the consumption-free part of the call graph, and a bound of look-ahead in the source) | – | 6 s |
| P04 | when tokens are skipped into an ERROR node, an expected token is missing or a node is completed as ERROR, an error is recorded on that path before parsing ends; no function removes recorded errors | error-reported typestate | 17 s |
| P05 | for each node kind its mandatory parts (opening/closing delimiter, end tag, quotes, operand slots: a table in `rules.rs`, derived from Twig's and HTML's syntax) must be among the credits of the marker when it is completed, or an error was/will be reported on the path | table in `rules.rs`, ~500 clauses at closing sites | 15 s |
| P06 | the analysis is forked at every point where content is parsed inside an element opened within the body: with an end/branch tag of the construct as next tokens the element must be closed and the construct must consume that tag; also in raw text and in attribute values | list of all end and branch tags, found from the grammar itself and the lexer's keywords | 55 s |
| P07 | at every look-ahead (comparison with a set of kinds, recovery set) a class of delimiter variants is included as a whole or not at all, counted at the level of what happens afterwards | the delimiter classes from the lexer's spellings | 10 s |
| P08 | a ghost automaton per ordered pair of operators follows `a OP1 b OP2 c`: is OP2 consumed before or after OP1's node is closed, in each of the contexts (argument, array, after `=`, …) | Twig's published precedence table, in `rules.rs` | 18 s |
| P09 | tables taken from the lexer's attributes (spellings per kind), the `T!` macro's arms and all paths of `Display` are compared with each other | one spelling, one name per kind, names distinct | 1 s |
| P10 | `cast`/`can_cast`/`syntax` of each typed view evaluated for each node kind | exactly the kind of its own name; one view per kind | 4 s |
| P11 | the range given to an error is, on every path, that of a token of the input (found token, else the last one), in the unit bytes; ranges in the lexer come from the lexer's span of the same token | provenance | 8 s |
| P12 | each marker is completed exactly once, innermost first; a node opened "before" another directly precedes it; the root is closed last at the end; plus the tree-building layer (4) | marker-stack typestate | 50 s |

## 4. The layers below the grammar (part of P01, P04, P11, P12)

`Source`, `EventCollection`, `Sink`, `lex`, `Parser::bump/add_error/…` and `parse` itself are small pieces of index
arithmetic; a symbolic invariant over arbitrary vectors is out of reach for this domain. They are interpreted abstractly
(same engine, exact values) for *all* token lists and recordings up to a size — all sequences of trivia, word and
punctuation kinds up to length 4–5 for the cursor, all well-formed recordings (start/finish/token/precede, error) up to
5–7 events and some longer ones, real small texts for the lexer's callbacks — with token texts and ranges as symbols.
Some lists and recordings also hold a run of 270 white-space tokens (so that a count kept in 8 bits overflows), and a
position in a token list or recording that is cut off to fewer than 32 bits is reported (P01, P12). Lists longer than that are covered by uniformity only: this is a small-scope argument and the level is `other`, not
`proof`. That the token cursor behaves as the grammar analyses assume (what is current, next, consumed) is checked the same
way by every parser check; P02–P08 are proofs relative to that. The generated `logos` automaton itself is trusted; its inputs (attributes) are checked by P09, its call by P11
(given the whole text, every token once).

## 5. Trusted

* rustc's MIR and instance resolution; `logos`, `rowan`, `figment`, `ignore`, `regex`, `crossbeam`, `codespan_reporting`,
  `clap` behave as documented. Models in `stdlib.rs`/`world.rs` for calls without MIR.
* rowan's tree and `descendants`/`preorder`/`siblings` navigation: modelled symbolically in `tree.rs`.
* threads: `scope.spawn` runs the closure at once or later; no interleaving inside a processed file matters because P35
  shows that processed files share no mutable state and P34 that output goes through the channel in one message.

## 6. Properties of the program

| id | rule decided | cost |
|---|---|---|
| P20 | from `main`, all option values: an event that creates, writes, empties, modifies or removes anything in the file system is reachable only with `--fix` set (and then of the processed file) or `--create-config` | 15 s |
| P21 | per processed file a typestate of (read, text versions, failures, written): at most one write, of the latest version in full, to the same path, after success of everything, and only if at least one pass was applied; on a failure no write and a report | 26 s |
| P22 | every write of the default configuration is preceded on its path by a negative existence test of the same location without anything in between, or uses a create-new open; contents and location constant; failure exits non-zero | 1 s |
| P23 | severities received by the printing thread (each one, each combination and large symbolic counts) against the exit status at every exit; no counter can wrap to zero (saturating or wide) | 1 s |
| P24 | each kind of failure, syntax error and finding is followed from its origin through messages to the printed diagnostic and the counter of its severity; counts 0, 1, 2, 9, many | 25 s |
| P25 | each kind of walk entry (file, directory, link, stdin, error) on each position: processed exactly once, walk goes on, whatever happens in processing | 11 s |
| P26 | applying suggestions: over all arrangements (before, touching, overlapping, containing, equal, empty ranges) of up to three suggestions of up to three rules and chains of four | 25 s |
| P27 | loop of passes unrolled with text versions: bounded; at the bound failure; changed ⇔ a pass applied; tree, errors and findings used belong to the last version | 18 s |
| P28 | rules run over symbolic trees; directives (naming the rule, another, none, resembling names; nested) placed before elements; which rule reports what where is compared with the scope of the directive | 35 s |
| P29 | the same with erroneous elements: no finding inside one | 5 s |
| P30 | the same with whitespace-sensitive elements and strings (any start-tag attributes, nested elements, depth): no formatting suggestion whose range lies inside | 60 s |
| P31 | registry: lists of active rules against the rules actually called; unknown names end the program before the walk; names unique; default list ⊆ names | 1 s |
| P32 | the chain of configuration sources as a symbolic merge; the environment mapping evaluated per key; each key read by some reachable function and present in the defaults | 1 s |
| P33 | every rule run on elements of any kind; the name on each result is the constant its `name()` returns | 6 s |
| P34 | destination of every emission in the processing of a file: one buffer, sent as one message, after checking; only the printing thread writes | 13 s |
| P35 | no mutable static, no interior mutability reachable from state shared between files (types and initialisers), no dependence on time, thread, hash order | 2 s |
| P36 | panic reachability in all rules with every syntax accessor able to return nothing | 6 s |
| P37 | file-level directives: lists of up to three, each form of naming; rules that then run | 1 s |

P28–P30: trees have three levels of elements below the root, any number of siblings of any kind; the walk's treatment of
deeper levels is the same code in the same abstract state (the traversal state is compared at entry and exit of an
element, so the induction step is what is checked; the sizes of the *rules' own* searches upward/downward are bounded).

## 7. Not applicable

P40 (idempotence), P41 (meaning), P42 (indentation amounts), P43 (case conversion), P44 (crash atomicity of a write), P45
(stack depth; the parser recurses, deep input does overflow), P46 (linear time): they quantify over runtime quantities or
other systems; reasons in MANIFEST.json. A runtime test would be another family, so nothing is claimed.

## 8. Defects found and repaired

Listed in `known-findings.txt` (`fixed:` lines), each one a `fix:` commit: two panics (P02), two end tags that did not stop
an open element (P06), exit status 0 for a missing path (P23), three cases of changed whitespace-sensitive content (P30),
ignore scopes ended early (P28), overlapping suggestions applied together (P26). No known finding is left open.

Oddities seen and not claimed as defects of a listed property: the CRLF expression `[^\r]?\n` of the line-ending rule looks
at one character before; `{{ a + }}` gives no error (an operand slot is not among the mandatory parts of P05);
upper-case `<PRE>` is not whitespace-sensitive; `-` (stdin) is skipped by the walk; the existence test and the write of the
default configuration are two steps (a race, and a dangling link, are outside P22's sequential statement); after ten
passes the file fails even if the tenth left no suggestion; indentation does not ask directives in front of bare tokens;
twig-block-line-breaks may report on the line break in front of an ERROR sibling (allowed by P29's second sentence).

## 9. False alarms corrected

Every alarm on the unchanged tree was either a defect (8) or corrected in statement or model. Corrections of statements:
P05 no longer demands operands; P24 speaks of findings of a file whose fixing failed; P26 allows touching suggestions; P27
and P29 (blanks in front of an erroneous part belong to what precedes it); P06 in attribute values. Corrections of the
machinery came mostly from behaviour-preserving rewrites: about 90 refactorings of grammar, token source, sink, fixing
loop, configuration, rules and output (helpers extracted, loops rewritten, iterators for indices, `match` for `if`,
early returns, data tables) were run against all checks; each alarm was removed by following the construct instead of
its spelling. Known limit: a binding-power *table* searched with `find` whose result is `expect`ed for a token taken
earlier loses the relation between token kind and table entry, and P02 would report the `expect`.

## 10. Planted bugs

`seeded/<id>/` holds patch, demonstration and description; each breaks one property, compiles and passes the existing
tests. All are found by the check of their property on the current machinery:

@SEEDS@

Besides these, ~120 further mutants (not kept, since they lack a demonstration) of lexer, source, sink, grammar, fixing,
configuration, output and rules were used the same way; the ones missed at first led to: two-token tags before end tags (P06),
errors removed later (P04), partial writes and files opened for writing (P20/P21), resembling rule names (P28/P31),
counter arithmetic (P23), attributes of whitespace-sensitive elements and long blanks (P30), unrecognised text merged (P01),
character offsets (P11), merging order and hyphens of keys (P32), stale errors (P27).
'''
import os,json,glob
rows=["| planted bug | found by | needs |","|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); rows.append(f"| {os.path.basename(d[:-1])}: {m['what_it_breaks']} | {m['property']} | {m['needs']} |")
open('/verif/DESIGN.md','w').write(text.replace('@SEEDS@','\n'.join(rows)))
