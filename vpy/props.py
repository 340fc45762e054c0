"""the properties: text, anchors, and what decides each of them"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = 'src/nagini_translation/'
PROGRAMS = ['programs', 'inputs']

TV_NOTE = ('Bounded: for each program of the property\'s corpus the real translator is run and every obligation of the '
           'emitted Viper program is decided by z3 for all inputs (loops by their invariants, calls by their contracts); '
           'a specification violation that becomes provable, or a correct obligation that stops being provable from three '
           'solver configurations, is reported. Trusted: the symbolic executor for Viper in vpy/ (validated against the '
           'repository\'s annotated suites), the stand-in AST classes for the absent Viper JAR, and z3.')
TV_ASSUME = ['Viper semantics as implemented by vpy/vexec.py (permissions, snapshots, wildcard, quantified permissions, '
             'limited functions); the Viper JAR itself is not installed',
             'programs outside the corpus and generated families are outside the claim',
             'solver budget per query: rlimit, see engines[].bounds; undecided obligations are listed as inconclusive']

PROPS = {}


def prop(id, title, statement, over, qtext, why, files, mech, cases=(), engines=(), level='translation_validation',
         technique=None, level_note=None, assumptions=None, state=None, observe=None, thorough_cases=()):
    PROPS[id] = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext},
                     why_tests_cant=why,
                     anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                              'observe_at': observe or ['set of reported verification errors (line, code)'],
                              'hook_needed': None},
                     cases=list(cases), thorough_cases=list(thorough_cases), engines=list(engines), level=level,
                     technique=technique or 'symbolic execution (z3) of the Viper program the real translator emits',
                     level_note=level_note or TV_NOTE, assumptions=assumptions or TV_ASSUME)
    if state:
        PROPS[id]['anchors']['state'] = state


WHY = ('The existing suites need the Viper JAR (absent in this environment: none of them runs) and each test fixes one '
       'program; the guarantee quantifies over every input and program.')

prop('C01', 'Integer and boolean arithmetic is verified with Python\'s semantics',
     'Arithmetic, comparison, negation, absolute value, minimum/maximum, integer division, modulo, power and boolean '
     'operations on ints and bools have, in every verified program, exactly the value Python computes, for every sign of '
     'the operands and with bools usable as ints. An assertion about such values that is false in Python for some input is '
     'reported, and division or modulo by a possibly-zero divisor is reported.',
     PROGRAMS, 'every int/bool operand and every nesting of the operators', WHY,
     [T + 'translators/expression.py', T + 'resources/bool.sil', T + 'resources/builtins.json'],
     [('operator translation', T + 'translators/expression.py translate_BinOp/translate_Compare/translate_BoolOp/translate_UnaryOp'),
      ('integer functions', T + 'resources/bool.sil int___*__ / bool___*__')],
     cases=[r'verification/test_(operators|unary_operator|boolop|chained_comparison|conversion|builtin_functions|inplace_operators|boxing)\.py',
            r'verification/issues/(00005|00017|00048|00112|00263)\.py', r'^own/C01'])

prop('C02', 'Bit operations are exact within the configured integer width or rejected',
     'And, or, xor, invert and shifts on ints are verified with the value Python computes whenever the operands lie in the '
     'range the configured bit width supports, negative operands included where they are permitted. Operands that may lie '
     'outside this range are reported instead of being given a wrapped value.',
     ['programs', 'inputs', 'configurations'], 'every operand value and every configured bit width', WHY,
     [T + 'translators/expression.py', T + 'resources/bool.sil', T + 'resources/intbv.sil', T + 'main.py'],
     [('bit-vector bounds and conversions', T + 'resources (generated per bit width)'),
      ('operator translation', T + 'translators/expression.py')],
     cases=[r'verification/test_bitwise_op\.py', r'verification/issues/00263\.py', r'^own/C02'])

prop('C03', 'Statements and expressions take effect in Python\'s order, once, when executed',
     'Branches, conditional expressions, short-circuit operators, chained comparisons, assignments with several or nested '
     'targets, augmented assignments, break/continue/return and nested functions of these have the effect they have when '
     'the program is run. A claim about the final state of a method is accepted only if it holds on every path that Python '
     'can take, and side effects of operands happen exactly once, in Python\'s evaluation order.',
     PROGRAMS, 'every statement nesting and every input', WHY,
     [T + 'translators/statement.py', T + 'translators/expression.py'],
     [('statement translation', T + 'translators/statement.py'), ('side-effect statements of expressions', T + 'translators/expression.py')],
     cases=[r'verification/test_(assign|loop_break|loop_continue|default_return|while|starred|chained_comparison|boolop|let|print|ellipsis|field_deletion|static_calls|inplace_operators)\.py',
            r'verification/issues/(00001|00003|00007|00008|00010|00015|00016|00019|00021|00022|00023|00041|00043|00044|00118|00141|00229|00242|00261|00276|00282)\.py', r'^own/C03'])

prop('C04', 'Exceptional control flow is verified the way Python executes it',
     'Raised exceptions reach the first handler whose class matches, else/finally/with-exit code runs exactly when Python '
     'runs it, also when try blocks are left by return, break or continue, and uncaught exceptions leave the method. A '
     'method may only leave with an exception its contract declares, with the declared exceptional postcondition '
     'established; otherwise an error is reported.',
     ['programs', 'inputs', 'fault_sequences'], 'every placement of raise points in nested try/with/loop structures', WHY,
     [T + 'translators/statement.py', T + 'translators/method.py', T + 'translators/contract.py', T + 'resources/all.sil'],
     [('try/with/raise translation', T + 'translators/statement.py translate_stmt_Try/With/Raise'),
      ('exceptional postconditions', T + 'translators/method.py')],
     cases=[r'verification/test_(exception|exception_loop|raised_exception|with|behavioural_subtyping)\.py',
            r'functional/translation/test_exception', r'verification/issues/(00001|00021|00031|00052|00054|00059|00074|00161|00196)\.py', r'^own/C04'])

prop('C05', 'Calls are verified modularly against complete contracts',
     'At every call the callee\'s precondition is checked for exactly the arguments Python would pass (positional, keyword, '
     'default, variadic), and only what its postcondition promises is known afterwards, with old and result expressions '
     'referring to the states and values they name. Every method body is checked against its own contract, and a failing '
     'assertion, refutation or contract is always reported.',
     PROGRAMS, 'every caller/callee pair and argument binding', WHY,
     [T + 'translators/call.py', T + 'translators/contract.py', T + 'translators/method.py', 'src/nagini_contracts/contracts.py'],
     [('argument binding', T + 'translators/call.py'), ('contract translation', T + 'translators/contract.py, method.py')],
     cases=[r'verification/test_(method_calls|named_args|varargs|default_return|funcs_and_methods|function_basics|static_calls|classmethod|constructor|inline|refute|post_lambda|pure_assert|cast|assign)\.py',
            r'functional/translation/test_(inline|named_args|result|contract|old)', r'verification/issues/(00003|00005|00026|00027|00032|00045|00055|00065|00071|00096|00113|00115|00119|00176|00216|00218|00271|00278|00281|00285|00310)\.py', r'verification/select/', r'^own/C05'])

prop('C06', 'Loops and iteration are verified through established and preserved invariants',
     'Loop invariants are checked on entry and after every iteration, including iterations ended by continue, and after the '
     'loop only the invariant together with the exit condition is known about what the loop may change. Iterating over '
     'lists, ranges, sets, dictionaries and enumerations, and comprehensions over them, yields exactly the elements Python '
     'yields, in order where Python defines one.',
     PROGRAMS, 'every iteration count and collection content', WHY,
     [T + 'translators/statement.py', T + 'translators/expression.py', T + 'resources/iterator.sil', T + 'resources/range.sil'],
     [('loop translation', T + 'translators/statement.py translate_stmt_While/For'), ('iterator protocol', T + 'resources/iterator.sil')],
     cases=[r'verification/test_(while|loop_break|loop_continue|iterator_.*|range|range_step|enumerate|list_comprehension|list_comprehension_filter|set_comprehension|dict_comprehension|havoced_types|sum_sorted|exception_loop)\.py',
            r'verification/issues/(00033|00052|00056|00057|00074|00252|00164)\.py', r'^own/C06'])

prop('C07', 'Memory access requires permission and values survive only while it is held',
     'Reading or writing a field, or folding, unfolding or passing on a predicate, is accepted only where the needed '
     'permission is held; permission given away to a call, loop or lock is gone, together with knowledge about the values '
     'it protects, and never duplicated. Fractional, wildcard, quantified and creation/assignment permissions obey the same '
     'rules, and predicates mean exactly their bodies.',
     PROGRAMS, 'every aliasing of the references involved and every permission amount', WHY,
     [T + 'translators/permission.py', T + 'translators/predicate.py', T + 'translators/contract.py', T + 'resources/all.sil'],
     [('access assertions', T + 'translators/contract.py, permission.py'), ('predicates and families', T + 'translators/predicate.py')],
     cases=[r'verification/test_(fields|predicate.*|list_pred|set_pred|dict_pred|wildcard_permissions|dynamic_field_creation|field_deletion|identity|property|property_inherited|static_class_members)\.py',
            r'verification/examples/', r'verification/issues/(00007|00019|00043|00046|00053|00118)\.py', r'functional/translation/test_(acc|may_|predicate|abstract_pred|unfold|fold|pure_unfold)', r'^own/C07'])

prop('C08', 'Pure functions mean their bodies and stay consistent',
     'An application of a pure function equals its body evaluated in the state of the application, its precondition is '
     'checked at each use, and its postcondition holds. Opaque functions reveal their body only on request, declared '
     'termination measures must decrease, and impure or non-terminating constructs are never accepted as pure code that '
     'proves anything.',
     PROGRAMS, 'every argument, heap state and recursion depth', WHY,
     [T + 'translators/pure.py', T + 'translators/method.py', T + 'translators/contract.py'],
     [('pure body translation', T + 'translators/pure.py'), ('decreases clauses', T + 'translators/contract.py')],
     cases=[r'verification/test_(function_basics|funcs_and_methods|opaque_function|decreases|pure_.*|match_pure|let|exists|forall|behavioural_subtyping_static|inline)\.py',
            r'functional/translation/test_(pure_|purity|impure|decreases|opaque|reveal|unfolding|let|inline|missing_function)', r'functional/translation/issues/', r'^own/C08'])

prop('C09', 'Types, dispatch and overriding follow Python and behavioural subtyping',
     'The runtime type of every value is known exactly as far as Python guarantees it, type tests and casts are decided '
     'accordingly, and a call on a receiver is verified against a contract that every possible override satisfies. An '
     'override with a stronger precondition, weaker postcondition, or undeclared exceptions, and a program with static type '
     'errors, is reported.',
     PROGRAMS, 'every class hierarchy and dynamic receiver type', WHY,
     [T + 'translators/type.py', T + 'translators/type_domain_factory.py', T + 'translators/program.py', T + 'lib/typeinfo.py', T + 'analyzer.py'],
     [('type domain', T + 'translators/type_domain_factory.py'), ('override checks', T + 'translators/program.py')],
     cases=[r'verification/test_(isinstance|behavioural_subtyping.*|super|union_types|union_contracts|optional_types|cast|generic_.*|type_aliases|abc|magic_methods|operator_overloading|reflected_magic_func|builtin_subclass|havoced_types|classmethod|constructor)\.py',
            r'functional/translation/test_(behavioural_subtyping|super|optional|union|mypy|magic|multiple_inh|builtin_subclass|generic|isinstance)', r'verification/issues/(00028|00031|00047|00049|00071|00266.*|00275)\.py', r'^own/C09'])

prop('C10', 'Built-in collections, strings and bytes behave as in Python',
     'Lists, dictionaries, sets, tuples, slices, strings, bytes, byte arrays and ranges have, in every verified program, the '
     'lengths, elements, membership, ordering and error behaviour that Python gives them, including negative indices, step '
     'and slice bounds, growth and aliasing. An access that Python would reject is reported.',
     PROGRAMS, 'every collection content, length and index', WHY,
     [T + 'resources/list.sil', T + 'resources/set_dict.sil', T + 'resources/tuple.sil', T + 'resources/str.sil', T + 'resources/bytes.sil', T + 'translators/expression.py'],
     [('collection prelude', T + 'resources/*.sil'), ('literals, subscripts and slices', T + 'translators/expression.py')],
     cases=[r'verification/test_(lists|dicts|set|tuples|slicing|string|bytes|bytearray|range|range_step|list_pred|set_pred|dict_pred|starred|sum_sorted|conversion|builtin_functions|enumerate)\.py',
            r'functional/translation/test_slice', r'verification/issues/(00008|00022|00026|00112|00164|00196|00261|00275)\.py', r'^own/C10'])

prop('C12', 'Names are used only after definition, across modules, and never clash',
     'A use of a local or global variable, function or class at a point where Python could find it undefined is reported, '
     'including uses reached through calls and imports; module-level code runs once, in import order, against the values '
     'defined so far. Equal names in different scopes, classes and modules stay distinct entities.',
     PROGRAMS, 'every order of definitions, imports and calls', WHY,
     [T + 'translators/program.py', T + 'analyzer.py', T + 'lib/program_nodes.py', T + 'lib/resolver.py', T + 'translators/common.py'],
     [('definedness checks', T + 'translators/program.py, common.py'), ('scopes and fresh names', T + 'lib/program_nodes.py')],
     cases=[r'verification/test_(definedness|global_.*|import.*|namespace|relative_import|builtin_globals_.*|static_class_members)\.py',
            r'functional/translation/test_(import|global|dead|missing|undefined|local)', r'verification/issues/(00003|00096|00120|00218|00266.*)\.py', r'^own/C12'])

prop('C13', 'Obligations are never lost: every release or invocation promise is kept',
     'A method, call or loop that could drop an obligation to release a lock or perform an operation without discharging or '
     'transferring it to someone allowed to hold it is reported. Obligations carry strictly decreasing measures wherever '
     'they are passed on, and lock acquisition respects the declared order.',
     ['programs', 'inputs', 'schedules'], 'every path by which obligations are created, transferred and discharged', WHY,
     [T + 'translators/obligation/manager.py', T + 'translators/obligation/loop.py', T + 'translators/obligation/method.py', T + 'translators/obligation/measures.py', 'src/nagini_contracts/obligations.py'],
     [('leak checks', T + 'translators/obligation/*'), ('measures', T + 'translators/obligation/measures.py')],
     cases=[r'obligations/verification/', r'obligations/translation/', r'verification/test_lock\.py', r'^own/C13'])

prop('C14', 'Code that promises to terminate is only accepted with a decreasing measure',
     'A method that must terminate may only call methods that promise termination with a smaller non-negative measure, and '
     'only contain loops with an own decreasing measure; everything else is reported. A loop or call that may run forever '
     'is never accepted inside code that still owes obligations.',
     PROGRAMS, 'every recursion and loop nest, and every measure value', WHY,
     [T + 'translators/obligation/types/must_terminate.py', T + 'translators/obligation/measures.py', T + 'translators/obligation/loop.py'],
     [('termination obligation', T + 'translators/obligation/types/must_terminate.py'), ('measure maps', T + 'translators/obligation/measures.py')],
     cases=[r'obligations/verification/test_.*must_terminate', r'obligations/verification/chalice2silver/(termination|loopsAndTermination|christian/(lt|term|obl_empty).*)', r'io/verification/test_termination_check', r'io/verification/master/terminating', r'io/translation/test_termination', r'verification/test_decreases', r'^own/C14'])

prop('C15', 'Threads and locks transfer exactly the state their contracts describe',
     'Starting a thread consumes the precondition of its target, joining it yields the target\'s postcondition at most once '
     'per permission and only with evidence of which method ran, with old values taken at thread start. Acquiring a lock '
     'provides and releasing requires its invariant, so that no unprotected shared access can be verified under any '
     'interleaving.',
     ['programs', 'schedules'], 'every interleaving of threads holding the permissions the contracts hand out', WHY,
     [T + 'translators/call.py', T + 'translators/contract.py', T + 'resources/lock.sil', 'src/nagini_contracts/thread.py', 'src/nagini_contracts/lock.py'],
     [('thread fork/join', T + 'translators/call.py'), ('lock prelude', 'src/nagini_contracts/lock.py')],
     cases=[r'verification/test_(thread_.*|lock)\.py', r'functional/translation/test_thread', r'obligations/verification/(test_must_release|test_waitlevels)\.py', r'io/verification/master/(example1_fork|kernel)', r'^own/C15'])

prop('C16', 'Verified programs perform only the input/output their specification permits',
     'An I/O operation is accepted only with a token at its place and permission to perform exactly that operation on '
     'exactly those arguments; performing it moves the token to the place and yields the results the specification names. '
     'Sequencing, branching, composition and termination specified for I/O cannot be bypassed by the program.',
     PROGRAMS, 'every environment result and every order of operations', WHY,
     [T + 'translators/io_operation/use.py', T + 'translators/io_operation/definition.py', T + 'translators/io_operation/opener.py', T + 'translators/io_operation/utils.py', T + 'lib/io_context.py' ],
     [('operation predicates and getters', T + 'translators/io_operation/*'), ('place/token contracts', 'src/nagini_contracts/io_contracts.py')],
     cases=[r'io/verification/', r'io/translation/', r'verification/issues/(00047|00031)\.py', r'^own/C16'])

prop('C18', 'Every failure is reported at the right line with the right code, and only then',
     'For each obligation that fails, the report names the source line of the offending construct, the failure kind that '
     'applies to it, and, for inherited or delegated contracts, the line through which it was required. No failure of the '
     'underlying proof is dropped, merged into another or attributed to a different construct.',
     PROGRAMS, 'every failing obligation of every program', WHY,
     [T + 'lib/errors/manager.py', T + 'lib/errors/wrappers.py', T + 'lib/errors/rules.py', T + 'lib/errors/messages.py', T + 'translators/abstract.py', T + 'verifier.py'],
     [('rule-based error conversion', T + 'lib/errors/manager.py, rules.py'), ('position and node registration', T + 'translators/abstract.py')],
     cases=[r'verification/test_(behavioural_subtyping|method_calls|exception|predicate|lists|dicts|union_contracts|thread_.*|lock|while|iterator_list|classmethod|inline|static_calls)\.py',
            r'obligations/verification/test_(behavioral_subtyping|waitlevels|fresh_obligations|method_leak_check|must_invoke|loop_leak_check)', r'io/verification/test_(behavioral_subtyping|io_exists|heap_dep)', r'verification/issues/(00026|00027|00055|00065|00113|00115|00119|00271)\.py', r'^own/C18'])

prop('C19', 'Ghost code cannot influence regular code',
     'Accepted programs behave the same when all ghost code is removed: values, control flow, exceptions and heap contents '
     'of the regular program never depend on ghost variables, fields, calls or parameters. A program in which ghost state '
     'could flow into regular state, or in which ghost code could alter control flow or have regular side effects, is '
     'rejected.',
     PROGRAMS, 'every mix of ghost and regular statements', WHY,
     [T + 'ghost/ghost_checker.py', T + 'ghost/extraction.py', 'src/nagini_contracts/contracts.py'],
     [('ghost flow checking', T + 'ghost/ghost_checker.py')],
     cases=[r'functional/translation/ghost/', r'verification/test_ghost', r'^own/C19'])

prop('C20', 'Algebraic data types, data classes, enums, properties and matching are exact',
     'Constructors of algebraic data types, data classes and enumerations create values whose fields, defaults, equality, '
     'discriminators and immutability are those declared, distinct constructors are distinct, and pattern matching selects '
     'the first matching case with the bindings Python makes. Properties and their setters behave as the calls they stand '
     'for.',
     PROGRAMS, 'every declared type and every matched value', WHY,
     [T + 'translators/program.py', T + 'translators/expression.py', T + 'translators/statement.py', T + 'analyzer.py', 'src/nagini_contracts/adt.py'],
     [('ADT encoding', T + 'translators/program.py'), ('match translation', T + 'translators/statement.py')],
     cases=[r'verification/test_(adt_.*|dataclass.*|enum.*|property.*|match.*|equality)\.py', r'functional/translation/test_(adt|dataclass|enum|property|match)', r'^own/C20'])

prop('C21', 'Floating-point verification is sound for the selected encoding',
     'With the default encoding nothing about the numeric value of float operations can be proved beyond what is declared; '
     'with the real and IEEE encodings, comparisons, conversions and arithmetic have the documented meaning, with special '
     'values excluded or handled as documented. No encoding makes a false assertion about floats provable.',
     ['programs', 'inputs', 'configurations'], 'every operand including special values, and every encoding', WHY,
     [T + 'resources/float.sil', T + 'resources/float_real.sil', T + 'resources/float_ieee32.sil', T + 'translators/expression.py', T + 'main.py'],
     [('float preludes', T + 'resources/float*.sil')],
     cases=[r'verification/test_float\.py', r'verification/float_(real|ieee32)/', r'functional/translation/(float_|test_float)', r'^own/C21'])

prop('C22', 'Mathematical collections satisfy their algebra',
     'Immutable sequences, byte sequences, sets and multisets used in specifications have exactly the lengths, elements, '
     'indexing, slicing, concatenation, update, union, difference and equality of their mathematical counterparts, and agree '
     'with the program collections they are converted from. Out-of-range accesses are reported.',
     PROGRAMS, 'every content and index', WHY,
     [T + 'resources/seq.sil', T + 'resources/byteseq.sil', T + 'resources/pset.sil', T + 'translators/contract.py', 'src/nagini_contracts/contracts.py'],
     [('mathematical collection prelude', T + 'resources/*.sil')],
     cases=[r'verification/test_(pseq|pset|pmultiset|pbyteseq|list_pred|iterator_list|sum_sorted|forall|exists)\.py', r'functional/translation/ghost/test_pcoll', r'^own/C22'])


def programs(pid, tier):
    idx = json.load(open(os.path.join(HERE, 'corpus', 'cases.json')))
    pats = [re.compile(p) for p in PROPS[pid]['cases'] + (PROPS[pid]['thorough_cases'] if tier == 'thorough' else [])]
    return [r for r in sorted(idx) if any(p.search(r) for p in pats)]

NOT_APPLICABLE = {}
