"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (run this file to regenerate)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'src/nagini_translation/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None,
         na=None, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, technique=technique, note=note, na=na,
                  observe=observe or [], state=state or [], hook=hook))


TESTS = 'The stable tests only exercise option plumbing and small editor-server helpers; they never translate or verify a program. '

prop('C01', 'A program is reported verified only if translation and every check succeeded',
     'Every front end (command line, long-running command-line server, verification service, editor server, tool server) '
     'reports a program as verified only when translation finished and the selected backend reported no error. '
     'A rejected program, a backend failure, an internal exception, a timeout or a cancellation is always reported as not verified, '
     'and the process exit status is zero exactly when the program verified.',
     ['inputs', 'configurations', 'fault_sequences'], 'for every program, option set and failure of a sub-component',
     TESTS + 'The verdict of the untested failure paths (backend crash, JVM exception, timeout) cannot be sampled without the backends.',
     [T+'main.py', T+'service.py', T+'verifier.py', T+'viper_server.py', T+'lsp_server.py', T+'mcp_server.py'],
     [('success built only on the non-failure branch of the backend result', T+'verifier.py, viper_server.py'),
      ('exception handlers produce a non-success outcome', T+'main.py, service.py')],
     'path-sensitive dataflow over every producer and consumer of a verdict',
     'Decides that on every control-flow path a success verdict is reached only through the branch where the backend result is tested not to be a failure; trusts the backend itself.',
     observe=['exit status', 'verification result of each front end'])

prop('C02', 'Every error the backend reports reaches the user',
     'If the backend reports several verification errors, each of them is translated to a Python-level error and delivered to the user, '
     'one for one, in the textual report, the editor report and the structured report. '
     'No filter, early exit, cap or failed conversion removes an error.',
     ['inputs', 'programs'], 'for every list of backend errors and every output format',
     TESTS + 'Multi-error results never occur in the tests that run.',
     [T+'lib/errors/manager.py', T+'verifier.py', T+'viper_server.py', T+'service.py', T+'main.py', T+'lsp_server.py', T+'mcp_server.py'],
     [('backend failure -> list of errors -> converted errors -> report, without filters', T+'verifier.py, lib/errors/manager.py')],
     'list-preservation dataflow (every loop, comprehension and copy between backend errors and reports is total)',
     'Decides that no step between backend result and report drops elements; the wording of messages is C03.')

prop('C03', 'Diagnostic tables are complete and closed under conversion',
     'For every verification error and reason that the translator can attach a conversion rule to or that the backend can report, a Python-level message exists; '
     'conversion rules only ever produce error and reason identifiers that have a message. '
     'Rendering a diagnostic therefore never fails on a missing table entry.',
     ['programs', 'inputs'], 'for every error kind, reason kind and conversion rule',
     TESTS + 'Each table row is only exercised by a failing program that needs a backend.',
     [T+'lib/errors/messages.py', T+'lib/errors/rules.py', T+'lib/errors/wrappers.py', T+'lib/errors/manager.py'],
     [('message tables keyed by error/reason id', T+'lib/errors/messages.py'), ('conversion rules', T+'lib/errors/rules.py')],
     'evaluation of the literal tables in the source and closure check',
     'Exact for the literal tables; identifiers coming from the backend are the frozen list of Viper error and reason ids.')

prop('C04', 'Every rejection is well formed and every internal call is well formed',
     'Whenever the tool rejects a program (invalid, unsupported or ill-typed), the rejection itself is raised correctly with the source node it blames, so that the user sees a located diagnostic and not an internal crash. '
     'More generally, every call inside the tool to one of its own functions supplies arguments its callee accepts, and every name and every member of the tool itself that it refers to exists.',
     ['programs', 'inputs'], 'for every program that takes any rejection path',
     TESTS + 'Rejection paths are one per language restriction; the tests that run reach none of them.',
     [T+'analyzer.py', T+'translators/', T+'ghost/ghost_checker.py', T+'lib/util.py', T+'lib/typeinfo.py'],
     [('exceptions with node and code', T+'lib/util.py'), ('handlers in the front ends', T+'main.py, service.py')],
     'project-wide resolved call-arity, name and member resolution check',
     'Decides arity, names, module members and self members for statically resolvable references; dynamic receivers are not judged.')

prop('C05', 'No syntactic part of a program is silently ignored',
     'Every statement, expression or pattern of a verified program is either handled, including each of its sub-parts, or the program is rejected with an error. '
     'In particular an unknown or unsupported construct never results in an empty translation, and no pass over the program skips the body, condition, handler, iterable, argument, keyword or default of a construct it traverses.',
     ['programs'], 'for every Python program over every syntactic construct',
     'Programs are unbounded; the test programs use only the constructs their authors thought of, and the programs that would expose a gap are exactly the missing ones.',
     [T+'analyzer.py', T+'translators/abstract.py', T+'translators/statement.py', T+'translators/expression.py', T+'translators/contract.py', T+'ghost/ghost_checker.py', T+'ghost/extraction.py', T+'mypy_patches/visitor.py'],
     [('visitor dispatch with raising fallback', T+'translators/abstract.py'), ('analyzer traversal', T+'analyzer.py')],
     'syntax-tree field coverage: for each handler, every field of the Python grammar node it handles is consumed on interprocedural summaries or rejected; dispatch fallbacks raise on all paths',
     'Decides that each grammar field is consumed or tested, not that it is consumed correctly.')

prop('C06', 'Statements computed while translating an expression are never lost',
     'When translating a Python expression requires preparatory statements (calls, side effects, well-definedness checks), these statements are always emitted before the value is used, or the program is rejected as impure. '
     'They are never dropped.',
     ['programs'], 'for every nesting of impure expressions in every construct',
     'Needs a program with an impure sub-expression in each position; dropping the statements makes verification succeed, so no error appears.',
     [T+'translators/'],
     [('pairs of statements and expression', T+'translators/abstract.py')],
     'taint-style dataflow of the statement component of every translation result to the emitted output or a rejecting test',
     'Decides that the statement component flows to an output or a test guarding a rejection on some continuation; order of emission is checked only for concatenations.')

prop('C07', 'Operators mean what the Python data model says',
     'Every Python operator, comparison, augmented assignment and boolean connective is encoded by the operation of the same meaning with operands in source order (reflected and in-place variants included). '
     'An operator without an encoding is rejected rather than mapped to another one.',
     ['programs'], 'for every operator and operand types',
     TESTS + 'Each operator needs its own verified program and a backend.',
     [T+'lib/constants.py', T+'translators/expression.py', T+'translators/statement.py', T+'translators/pure.py'],
     [('operator tables', T+'lib/constants.py'), ('primitive operation table', T+'translators/expression.py')],
     'evaluation of operator tables and abstract interpretation of comparison dispatch against a data-model oracle',
     'Exact for tables and dispatch chains; the axioms behind the encoded functions are trusted.')

prop('C08', 'Every intermediate-language node is built from exactly the given parts',
     'Each constructor of intermediate-language nodes passes every part it receives to the node of the same kind, in the order the intermediate language declares, together with the given source position and info. '
     'No part is lost, duplicated or swapped.',
     ['programs'], 'for every construct of the intermediate language',
     TESTS + 'The wrapper is only exercised with a JVM.',
     [T+'lib/viper_ast.py'], [('one factory method per intermediate-language node', T+'lib/viper_ast.py')],
     'def-use check of each factory against the constructor signature table of the intermediate language',
     'Constructor signatures of the Viper AST are a frozen table (the jar is not available here).')

prop('C09', 'Built-in declarations, runtime resources and references to them agree',
     'Every built-in function, method, predicate or domain that the translator refers to is declared in the shipped resources with the number of parameters that the reference uses. '
     'Every built-in of the interface description has a definition in the shipped resources with the declared parameters, and all resources are internally closed.',
     ['programs', 'configurations'], 'for every built-in operation and option combination selecting resource files',
     TESTS + 'A mismatch only surfaces when a program uses the built-in.',
     [T+'resources/builtins.json', T+'resources/', T+'lib/constants.py', T+'translators/'],
     [('interface description', T+'resources/builtins.json'), ('definitions', T+'resources/*.sil')],
     'parsing of the resource files and symbol-table agreement with evaluated references in the source',
     'Decides names, arities and existence; not the contracts of the built-ins.')

prop('C10', 'Every contract the library offers is recognised and given a meaning',
     'Every contract function, decorator and marker that the contract library offers to users is recognised by the translator as such and has a handler that gives it meaning, or is rejected. '
     'No contract is treated as an ordinary call or ignored, and importing a contract name never changes the run-time behaviour of a program.',
     ['programs'], 'for every name exported by the contract library',
     'Each name needs its own program; a missing handler makes a contract vanish.',
     ['src/nagini_contracts/', T+'lib/constants.py', T+'analyzer.py', T+'translators/contract.py', T+'resources/builtins.json'],
     [('exported names', 'src/nagini_contracts/contracts.py'), ('recogniser lists and handlers', T+'translators/contract.py')],
     'agreement of evaluated name tables across sibling modules',
     'Decides presence and dispatch of every name, not the meaning given by the handler (C11).')

prop('C11', 'Obligations are checked and only assumptions are assumed',
     'A stated assertion, postcondition, loop invariant, refutation or fold is always emitted as a check and never as an assumption; only explicit assumptions, preconditions of the verified body and knowledge already proven are assumed. '
     'Preconditions, postconditions and invariants end up in the slot of the same kind, and statement-only or permission-only contracts are rejected in any other position.',
     ['programs'], 'for every use of every contract',
     'A check turned into an assumption makes verification succeed silently; only failing programs that need a backend reveal it.',
     [T+'translators/contract.py', T+'translators/method.py', T+'translators/statement.py', T+'translators/permission.py', T+'analyzer.py'],
     [('handler per contract', T+'translators/contract.py')],
     'who-may-build table for assuming constructs plus per-handler emitted-construct summaries and guard dominance',
     'Every site that emits an assumption is enumerated and compared with a reviewed table keyed by function and purpose.')

prop('C12', 'Temporarily changed translation state is restored on every path',
     'Translation context that is changed while one part of the program is translated (current function, class, aliases, loop or inlining context, position, purity flags) has its former value again when that part is finished, so that the translation of one construct never depends on the construct translated before it.',
     ['programs', 'histories'], 'for every order and nesting of constructs',
     'Needs specific orders of constructs; a leak only shows in a later, unrelated construct.',
     [T+'lib/context.py', T+'translators/', T+'analyzer.py', T+'ghost/'],
     [('save/restore pairs around nested translation', T+'translators/*')],
     'save/restore typestate over control-flow graphs of every function that reassigns context state',
     'Normal exits; exceptional exits abort the whole translation and are covered only for state that survives it.')

prop('C13', 'Global patches, temporary files and processes are released on every exit',
     'Whatever the tool temporarily installs or creates (patched library functions, temporary directories, server processes, backend instances) is undone or released on every way out, including exceptions and cancellation.',
     ['fault_sequences', 'histories'], 'for every fault point between acquisition and release',
     TESTS + 'Exceptions at each point cannot be injected by the tests that run.',
     [T+'lib/typeinfo.py', T+'mcp_server.py', T+'lsp_server.py', T+'service.py', T+'client.py', T+'main.py', T+'viper_server.py'],
     [('try/finally around acquisitions', T+'*')],
     'acquire/release typestate over control-flow graphs with exceptional edges',
     'Decides pairing on every control-flow path for the enumerated resources.')

prop('C14', 'Shared verification state is only touched under its lock, without deadlock',
     'When several requests run concurrently in the verification service, the state shared between translations (diagnostics registry, obligation mode, preloaded resources) is only read or written by one request at a time, from the start of a translation until its errors have been extracted; job bookkeeping is likewise protected. '
     'Locks are always released and never acquired in conflicting orders, and cancelling never has to wait for a running translation or verification.',
     ['schedules', 'histories'], 'for every interleaving of concurrent requests and cancellations',
     'Interleavings cannot be sampled; the tests that run are single threaded.',
     [T+'service.py', T+'lsp_server.py', T+'mcp_server.py'],
     [('state lock and job lock', T+'service.py')],
     'interprocedural lockset and lock-order analysis',
     'Lockset at each access of the guarded state along every path from each public entry; assumes thread entry points are the public methods.',
     state=[('state lock', 'guards diagnostics registry, configuration and translation'), ('job lock', 'guards the job table')])

prop('C15', 'Cancellation affects exactly the job of its token',
     'In the verification service, a cancellation that names a token stops exactly the job currently registered under that token, and one without a token stops all jobs. A cancelled job (even one cancelled while it is still being translated) reports a cancelled, non-success outcome. '
     'When a job ends, in whatever way, it removes only its own registration. The editor server cancels the running job of a document before starting a new run for it, and only that one. (Runs that do not use the server backend cannot be cancelled.)',
     ['schedules', 'histories'], 'for every interleaving of submissions and cancellations',
     'The windows are short and need concurrent requests with a backend.',
     [T+'service.py', T+'viper_server.py', T+'lsp_server.py'],
     [('job table keyed by token with identity-checked removal', T+'service.py')],
     'path typestate on the job table and the cancellation flag',
     'Decides registration, identity-guarded removal on all exits, and flag test before a verdict is returned.')

prop('C16', 'Consecutive requests do not influence each other',
     'In a long-running process, the verdict and diagnostics of a program are the same as in a fresh process: nothing recorded, detected or configured for one program is still in effect for a later one, except options the user explicitly changed.',
     ['histories'], 'for every sequence of programs and option changes in one process',
     'Histories are unbounded; the tests that run never translate two programs.',
     [T+'main.py', T+'service.py', T+'lib/config.py', T+'lib/errors/manager.py', T+'lib/typeinfo.py'],
     [('reset of process-wide state at the beginning of each translation', T+'main.py, service.py')],
     'effect analysis: every process-wide mutable written during translation is reset before the next one on every path',
     'Enumerates module-level and configuration state written on the translation path; memoisation tables keyed by immutable input are listed exceptions.',
     observe=['verdict and diagnostics of the second of two requests'])

prop('C17', 'Every option reaches what it controls in every front end',
     'An option given on the command line, in a service call, in editor initialisation options or in a tool call is accepted under its documented name and has the same effect in every front end. '
     'No option is dropped, renamed or crossed with another on the way, and changing options in a running service affects all later requests.',
     ['configurations'], 'for every option and combination of options',
     'Only a handful of options are checked by the tests that run.',
     [T+'main.py', T+'service.py', T+'lsp_server.py', T+'mcp_server.py', T+'client.py', T+'lib/config.py'],
     [('option table shared by all front ends', T+'service.py'), ('argument parser', T+'main.py')],
     'value-flow agreement between parser destinations, option tables, parameters and uses',
     'Decides name-by-name flow of each option from its declaration to a use; the effect inside the use is not judged.')

prop('C18', 'All backends get equivalent runs and their results are read the same way',
     'The in-process backends and the server backend receive the same program with the arguments implied by the same options (timeout, counterexamples, parallelism, user arguments), in the order the backend expects. '
     'Their results are interpreted identically, so the choice of transport never changes the verdict.',
     ['configurations', 'programs'], 'for every backend, transport and option set',
     TESTS + 'No backend is available in the tests that run.',
     [T+'verifier.py', T+'viper_server.py'],
     [('shared argument builders', T+'verifier.py')],
     'sibling cross-check of argument construction and result interpretation summaries',
     'Compares siblings with each other and with the option table; the meaning of backend flags is trusted.')

prop('C19', 'Diagnostics point to the right place in the right file',
     'A diagnostic is reported at the file, line and column range of the source construct it is about. '
     'The one-based positions used internally are converted to the zero-based convention of the editor protocol exactly once, and a construct from an imported file is reported in that file.',
     ['programs', 'inputs'], 'for every diagnostic and every output format',
     'The tests check one diagnostic of one output format.',
     [T+'lib/util.py', T+'lib/errors/wrappers.py', T+'lib/errors/manager.py', T+'translators/abstract.py', T+'service.py', T+'lsp_server.py'],
     [('position construction', T+'translators/abstract.py'), ('conversion', T+'lsp_server.py')],
     'unit (0-based/1-based, line/column, start/end) inference over position values',
     'Decides base and role of each position component on the path from syntax node to report.')

prop('C20', 'The information-flow translation replaces every component consistently',
     'Selecting the information-flow mode swaps in the specialised translators everywhere and keeps every other component: all roles of the ordinary translation are filled, specialised handlers have the same interface as the handlers they replace, and each contract that is specific to this mode is translated in it and rejected or ignored by documented choice outside it.',
     ['configurations', 'programs'], 'for every construct in either mode',
     TESTS + 'The mode is never exercised by the tests that run.',
     [T+'sif_translator.py', T+'translator.py', T+'sif/', T+'translators/'],
     [('translator configuration', T+'translator.py, sif_translator.py')],
     'sibling agreement over the translator configuration and override signatures',
     'Decides slot completeness, override compatibility and delegation; not the product encoding.')

prop('C21', 'Ghost code cannot influence regular code',
     'Values, control flow, heap state and exceptions of regular code never depend on ghost variables, ghost fields, ghost arguments or ghost functions: a program in which ghost state flows into regular state, ghost code may abort or leave regular control flow, or regular state is modified from ghost code is rejected.',
     ['programs'], 'for every program mixing ghost and regular code',
     'The flows are unbounded; each rule needs its own program for every construct.',
     [T+'ghost/ghost_checker.py'],
     [('ghost/regular classification and context flag', T+'ghost/ghost_checker.py')],
     'rule-per-construct check that every visitor propagates the ghost classification and guards its construct with a rejection',
     'Decides that each handler combines the classification of all its sub-parts and tests them; the completeness of the rule set is by construct enumeration.')

prop('C22', 'Extraction removes all ghost code and nothing else',
     'The extracted program contains every regular statement, definition, argument, default and annotation in its original order, and no ghost statement, argument, return component, contract or specification. '
     'Constructs that may appear in a verified program are all handled by extraction without failure.',
     ['programs'], 'for every verified program',
     'Programs are unbounded and no test that runs performs an extraction.',
     [T+'ghost/extraction.py', T+'main.py'],
     [('syntax-directed rewriting', T+'ghost/extraction.py')],
     'field-preservation analysis of every rewriting rule',
     'Decides that each rewrite keeps each grammar field of regular constructs and handles optional fields; classification correctness is C21.')

prop('C23', 'Abrupt exits run every enclosing cleanup exactly up to their target',
     'When a return, break, continue or exception leaves a block, the encoding runs the finally part or context-manager exit of every block between the exit and its target, innermost first, and then continues at the target. '
     'It never runs the cleanup of blocks outside the target and never resumes at a place Python would not.',
     ['programs'], 'for every nesting of loops, try, with, calls and abrupt exits',
     'Nestings are unbounded and the encoding can only be observed with a backend.',
     [T+'translators/statement.py', T+'translators/method.py', T+'translators/common.py', T+'lib/program_nodes.py', T+'analyzer.py'],
     [('completion codes and jump targets', T+'translators/statement.py, method.py')],
     'sibling cross-check of the abrupt-exit handlers on their cleanup condition, loop-boundary filter, completion code and alias resolution',
     'Decides the structural agreement of all encoders and of the dispatcher on codes and block kinds.')

prop('C24', 'Generated names never collide',
     'No name that the translation chooses for a class, function, method, predicate, field, variable or label of a program equals one it chose before, a name of the shipped resources or a reserved word of the intermediate language, whatever identifiers the program uses. '
     'Different identifiers are encoded by different numbers.',
     ['programs'], 'for every choice of user identifiers and strings',
     'A collision needs an adversarial identifier; tests use ordinary ones.',
     [T+'lib/util.py', T+'lib/program_nodes.py', T+'lib/constants.py', T+'analyzer.py', T+'translator.py'],
     [('fresh-name source seeded with all reserved names', T+'lib/program_nodes.py, lib/constants.py')],
     'reserved-name closure over the resource files, path evaluation of the fresh-name source, provenance of every declared name',
     'Exhaustive over the declarations of the resources and the declaring calls of the translator; names that are derived from a fresh one are reported unless they contain a character no identifier has.')

prop('C25', 'Overriding is always checked',
     'For every method that overrides an inherited one, and for every inherited or interface method a class must conform to, the translation emits a check that the override conforms to the contract of the overridden method. '
     'A combination that cannot be checked (different kind, parameters, purity, exceptions) is rejected.',
     ['programs'], 'for every class hierarchy',
     'Hierarchies are unbounded, and a missing check makes verification succeed.',
     [T+'translators/program.py', T+'translators/method.py', T+'analyzer.py', T+'lib/program_nodes.py'],
     [('override checks generated for each overriding function', T+'translators/program.py')],
     'path and loop-totality analysis of the override-check generator and guard enumeration',
     'Decides that the check is generated on every path for every override and compares all parts; not that the contract entails it.')

prop('C26', 'Contracts bind to the function or loop they are written in',
     'A precondition, postcondition, exceptional postcondition or decreases clause that stands directly in the body of a function, and an invariant that stands directly in the body of a loop, is recorded for exactly this function or loop, '
     'with the names that are visible there. All recorded clauses, and nothing but recorded clauses and declarations, are left out of the translated body; every recorded clause becomes part of the contract of the generated method or function or an invariant of the generated loop, unconditionally '
     '(exceptional postconditions for their exception, ordinary ones of functions that may raise for normal termination). '
     'Contract elements anywhere else (in branches, loops, expressions, inlined functions, after other statements), measures outside of pure functions, and contract elements that are qualified or imported under another name are rejected.',
     ['programs'], 'for every placement of contracts',
     'A contract attached to the wrong owner or lost silently weakens verification; placements are unbounded and the tests that run translate nothing.',
     [T+'analyzer.py', T+'lib/util.py', T+'translators/method.py', T+'translators/statement.py', T+'translators/call.py', T+'translators/pure.py'],
     [('collection', T+'analyzer.py visit_Call, visit_loop, visit_FunctionDef'), ('removal', T+'lib/util.py get_body_indices'), ('consumption', T+'translators/method.py, statement.py')],
     'path-sensitive dataflow from each kind of contract call to the recorded list, typestate of the recording containers, and per-iteration dataflow from every recorded list into the generated node',
     'Decides recording, removal, translation and rejection on all paths; the translation of the contract expressions themselves is C05-C07.')

prop('C27', 'Programs are type checked, and only accepted programs are translated',
     'Before anything of a program is analysed, extracted or translated, its main file and every module it imports have been checked by mypy with mypy\'s default checks. '
     'If errors remain even without strict checking of optional values, or a variable, parameter or function anywhere in these modules has no known type (on a line that is not marked "type: ignore"), '
     'the program is rejected with all messages; no translation or verification follows. '
     'The types of every part of every module of the program (other than a fixed list of library modules) are collected.',
     ['programs', 'configurations'], 'for every program',
     TESTS + 'They stub out type checking.',
     [T+'lib/typeinfo.py', T+'main.py', T+'service.py'],
     [('strict options and error filter', T+'lib/typeinfo.py')],
     'path-sensitive dataflow over the type checking entry point, evaluation of the option table, and coverage of all syntax node parts by the type collector',
     'Decides gate, options, rejection, file closure and traversal; the type checker itself is trusted.')

prop('C28', 'Every termination and obligation check is emitted',
     'For every call, loop, and method exit, the checks that obligations are not leaked, that measures decrease and that waiting levels are respected are generated unless the user disabled that kind of obligation; automatic disabling happens only if the whole program contains no obligation.',
     ['programs', 'configurations'], 'for every program using obligations',
     'Missing checks make verification succeed; observing them needs a backend.',
     [T+'translators/obligation/', T+'lib/obligation_context.py', T+'main.py', T+'lib/config.py'],
     [('obligation manager and per-kind check generation', T+'translators/obligation/')],
     'per-kind totality analysis of the obligation generators and option-guard agreement',
     'Decides that each kind is registered and each generator guards exactly on its own option.')

# ------------------------------------------------------------------ not applicable
NA = [
 ('C40', 'The encoding of each construct is semantically faithful to Python',
  'Whenever the verifier accepts the encoding of a program, every execution of the program under Python satisfies its contracts.',
  'Full soundness quantifies over program executions and backend proofs; only the structural clauses (C01, C05-C11, C23-C28) are visible in the source.'),
 ('C41', 'The axioms and contracts of built-in types are consistent and true',
  'The shipped axioms and contracts about built-in types are consistent and describe the behaviour of Python\'s built-ins.',
  'Truth of quantified axioms is a proof obligation over an infinite domain, not a shape of the source; names and arities are C09.'),
 ('C42', 'Counterexamples describe real failing states',
  'A counterexample shown for a failing check is a state of the program in which the check fails.',
  'Depends on the solver model returned at run time.'),
 ('C43', 'The information-flow encoding is a faithful product program',
  'A program accepted in information-flow mode satisfies its non-interference contracts in every pair of executions.',
  'A relational semantic property over pairs of executions; only the configuration and interface clauses are structural (C20).'),
 ('C44', 'Verification terminates within the requested time',
  'A request finishes, with some outcome, within its timeout plus a bounded overhead.',
  'Timing and solver behaviour are runtime quantities no static argument bounds.'),
 ('C45', 'Verification is deterministic',
  'Verifying the same program twice with the same options yields the same verdict and diagnostics.',
  'Depends on solver heuristics and thread scheduling inside the backends; state carried between requests is C16.'),
]
for i, t, s, r in NA:
    prop(i, t, s, ['programs', 'inputs'], 'for every program', 'Quantifies over all executions of all programs; the tests that run verify none.',
         [T+'translators/'], [('encoding as a whole', T+'translators/')], na=r)

# properties for which no sound check exists yet
UNBUILT = {
 'C09': 'No check: the declarations live in Viper files whose parser is the (absent) backend, and most references are method names computed from user classes at translation time; the sound part (literal names against the interface description) is too small a part of the property to claim it.',
 'C10': 'No check: whether a contract element is given a meaning in each position is a question about the emitted assertions; the part visible in the source (dispatch is total, unknown elements are rejected) is decided by C04, C05 and C26.',
 'C11': 'No check: which obligations hold at a program point is decided by permission arithmetic of the backend on generated assertions; a structural rule could not tell a missing inhale from one that is implied.',
 'C12': 'No check: several state variables of the translation context are deliberately left changed (current class, wait level flag, module of predicate families) and whether a later reader depends on them is a question about all translation orders; the clauses with an observable effect are decided by C16 (between requests) and C19 (module and position).',
 'C20': 'No check: that the replacement components produce a product program is the relational property C43; the configuration clauses (which translator, transformation and resources are selected) are decided by C17 and C18.',
 'C23': 'No check: the blocks crossed by an exit are found by comparing generated completion codes and labels at translation time; a candidate analysis could not separate the known deviations in nesting from harmless ones, so it would have raised false alarms or decided nothing.',
 'C28': 'No check: that every check of termination is emitted is, beyond the option guards decided by C17, a property of the emitted measures and their conditions, which need the obligation semantics of C11.',
}

BUILT = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, 'checks'))
               if f.startswith('c') and f.endswith('.py'))


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['qtext']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'],
                             'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
            if p['state']:
                d['anchors']['state'] = [{'name': a, 'meaning': b} for a, b in p['state']]
            d['anchors']['observe_at'] = p['observe']
            d['anchors']['hook_needed'] = p['hook']
            f.write(json.dumps(d) + '\n')
    man = {'version': 1,
           'setup_cmd': 'python3 -m compileall -q sa checks',
           'checks': [], 'not_applicable': []}
    for p in P:
        if p['na'] is None and p['id'] in BUILT:
            cmd = 'python3 checks/%s.py' % p['id'].lower()
            man['checks'].append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd,
                                  'technique': 'static analysis: ' + p['technique'], 'level': 'other',
                                  'level_note': p['note']})
        else:
            man['not_applicable'].append({'property': p['id'],
                                          'reason': p['na'] or UNBUILT[p['id']]})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
