"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import ast
import json
from pathlib import Path

M = 'paradigm/_core/models.py'
S = 'paradigm/_core/signatures.py'
A = 'paradigm/_core/annotated.py'
SC = 'paradigm/_core/scoping.py'
ST = 'paradigm/_core/stubs.py'
P = []
REPO = Path('/repo')


def anchor(name, where):
    """Place of a definition in the current tree of the repository (the told one if it is unnamed)."""
    file, _, line = where.partition(':')
    *classes, last = name.split('.')
    found = []

    def visit(body, path):
        for node in body:
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                here = path + [node.name]
                if here[len(here) - len(classes) - 1:] == classes + [last]:
                    found.append(node.lineno)
                visit(node.body, here)
            elif hasattr(node, 'body') and isinstance(node.body, list):
                visit(node.body + list(getattr(node, 'orelse', [])), path)
    visit(ast.parse((REPO / file).read_text()).body, [])
    if not found:
        print('not found:', name, where)
        return where
    return f'{file}:{min(found, key=lambda found: abs(found - int(line or 1)))}'


def prop(id_, title, statement, over, text, why, files, mechanism, observe):
    assert len(title) <= 80, (id_, len(title))
    P.append({'id': id_, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': anchor(n, w)} for n, w in mechanism],
                          'observe_at': observe,
                          'hook_needed': None}})


prop('C01', 'expects() accepts exactly the arguments Python call rules accept so far',
     'For every plain signature and every mix of positional and keyword arguments (under any keyword name), '
     'expects() is true exactly when a function with those parameters could take these arguments as part of a call: '
     'no surplus positionals without *args, no unknown keyword without **kwargs, no keyword for a parameter already '
     'filled positionally, and a positional-only parameter never taken by keyword. '
     'Missing arguments never make it false.',
     ['inputs'], 'all parameter lists (kinds, optionality, names), all argument counts and keyword-name sets',
     'The tests draw random signatures and only surplus arguments or non-clashing keywords; keyword/positional clashes, '
     'positional-only names under **kwargs and names such as "self" are never compared with Python call rules.',
     [M], [('PlainSignature.expects', M + ':246'), ('to_parameters_by_kind', M + ':170')],
     ['PlainSignature.expects return value'])
prop('C02', 'all_set() is true exactly when the arguments form a complete valid call',
     'For every plain signature and arguments, all_set() is true exactly when expects() would be and, in addition, every '
     'parameter still without an argument is optional, i.e. when a function with those parameters could be called with '
     'exactly these arguments.',
     ['inputs'], 'all parameter lists, argument counts and keyword-name sets',
     'Tests only check that all_set() implies expects() with no arguments and that surplus arguments are refused.',
     [M], [('PlainSignature.all_set', M + ':206')], ['PlainSignature.all_set return value'])
prop('C03', 'bind() succeeds exactly on expected arguments, else raises TypeError',
     'For every plain signature and arguments, bind() returns a plain signature if expects() is true for them and raises '
     'TypeError otherwise, never any other error; neither call changes the signature it is made on or the arguments.',
     ['inputs'], 'all parameter lists, argument counts and keyword-name sets',
     'Tests bind only arguments drawn to be expected, or surplus positionals; clashing names are never generated.',
     [M], [('PlainSignature.bind', M + ':270'), ('_bind_positionals', M + ':571'), ('_bind_keywords', M + ':599')],
     ['PlainSignature.bind result or exception'])
prop('C04', 'bind() leaves exactly the parameters a partial application would leave',
     'The bound signature drops the positionally filled parameters, turns each keyword-filled parameter into an optional '
     'keyword-only one whose default is the bound value, makes the named parameters after it keyword-only and drops '
     '*args if it comes after it, as functools.partial does. Everything else (order, names, '
     'annotations, other defaults, absence of a default, **kwargs, the return annotation) is preserved.',
     ['inputs'], 'all parameter lists, accepted argument counts and keyword-name sets, all argument and default values',
     'Tests check only that something changed and that bound names have some default.',
     [M], [('_bind_positionals', M + ':571'), ('_bind_keywords', M + ':599')], ['parameters of the bound signature'])
prop('C05', 'Overloaded signatures act as the union of their alternatives, in order',
     'For an overloaded signature, expects() and all_set() are true exactly when they are for at least one alternative; '
     'bind() returns the bound forms of exactly the alternatives that expect the arguments, in their original order '
     '(a plain signature when only one remains) and raises TypeError when none does. It can only be built from two or '
     'more plain signatures, which it reports in the given order.',
     ['inputs'], 'all pairs/triples of alternatives and all arguments',
     'Tests build overloads but compare results only through the has-a-default predicate.',
     [M], [('OverloadedSignature', M + ':452'), ('from_signatures', M + ':560')],
     ['OverloadedSignature methods'])
prop('C06', 'A plain signature can be built exactly from lists Python itself allows',
     'Building a plain signature succeeds exactly when names are distinct, kinds appear in the order positional-only, '
     'positional-or-keyword, *args, keyword-only, **kwargs with at most one of each variadic, and no required positional '
     'parameter follows an optional one; otherwise it raises ValueError. A built signature reports the given parameters, '
     'in order, and the given return annotation.',
     ['inputs'], 'all parameter sequences',
     'Every test goes through a strategy that normalises parameters into a valid order first; no rejection is ever tested.',
     [M], [('PlainSignature.__new__', M + ':292')], ['PlainSignature construction outcome'])
prop('C07', 'Parameters accept only legal kinds/defaults and report what they were given',
     'A required parameter can be built for exactly the three non-variadic kinds, an optional one for every kind, but with a '
     'default only if non-variadic; a kind that is not a parameter kind is a TypeError, an illegal combination a ValueError. '
     'The built parameter reports exactly the given annotation, kind and name, and tells an absent default from any given '
     'one (None and other false values included).',
     ['inputs'], 'all kinds (and non-kinds), all annotations, names and defaults',
     'Tests only build legal parameters and never look at has_default for unusual values.',
     [M], [('RequiredParameter.__new__', M + ':83'), ('OptionalParameter.__new__', M + ':163'), ('_validate_kind', M + ':655')],
     ['parameter construction outcome and properties'])
prop('C08', 'Equality of parameters and signatures is field-by-field identity of meaning',
     'Two parameters are equal exactly when both are required or both optional and they agree on name, kind, annotation, '
     'presence of a default and (if present) the default; two plain signatures exactly when parameters (in order) and '
     'returns agree; two overloaded ones exactly when their alternatives agree in order. Objects of different sorts are '
     'never equal, and equality is therefore reflexive, symmetric and transitive.',
     ['inputs'], 'all pairs of parameters/signatures with arbitrary fields',
     'Tests check reflexivity/symmetry/transitivity on independently drawn random signatures, which are almost never equal.',
     [M], [('RequiredParameter.__eq__', M + ':113'), ('OptionalParameter.__eq__', M + ':197'),
           ('PlainSignature.__eq__', M + ':347'), ('OverloadedSignature.__eq__', M + ':522')], ['== and !='])
prop('C09', 'Equal parameters and signatures have equal hashes',
     'Whenever two parameters or two signatures compare equal their hashes are equal, whatever the annotations, defaults and '
     'names (type variables, unions in another order and bare or parameterised typing aliases included). '
     'Hashing the same object twice gives the same value.',
     ['inputs'], 'all pairs of equal parameters/signatures',
     'Tests hash independently drawn signatures, so equal-but-distinct pairs are practically never seen, and type variables never.',
     [M, A], [('RequiredParameter.__hash__', M + ':131'), ('OptionalParameter.__hash__', M + ':223'),
              ('PlainSignature.__hash__', M + ':361')], ['hash()'])
prop('C10', 'Annotation equality is an equivalence that respects typing structure',
     'Annotations inside signatures compare equal exactly when they have the same structure: same origin and pairwise equal '
     'arguments in order, except that members of a union or literal (told apart by type, too) compare as a set; type variables and parameter specifications compare by name, bound, '
     'variance and constraints. The comparison gives the same answer in either direction and is transitive.',
     ['inputs'], 'all pairs of annotations up to a nesting depth',
     'Random annotations are almost never equal, so symmetric, order-insensitive or nested cases are not reached.',
     [A], [('are_equal', A + ':19')], ['equality of parameters that differ only in annotation'])
prop('C11', 'repr() of any parameter or signature evaluates back to an equal object',
     'Evaluating the repr of a parameter or signature in a namespace that offers the library classes and the annotation '
     'modules rebuilds the same parameters: same class, kind, name, annotation, presence and value of the default, same '
     'order and returns.',
     ['inputs'], 'all parameters/signatures with annotations and defaults whose own reprs evaluate back',
     'Random examples are finite; presence of defaults, one-element/empty tuples and nesting are sampled only.',
     [M, A], [('__repr__', M + ':134'), ('to_repr', A + ':128')], ['repr()'])
prop('C12', 'str() of a signature is a parameter list that determines the signature',
     'The text of a plain signature lists its parameters in order in Python parameter syntax with "/" right after the last '
     'positional-only one, "*" exactly when keyword-only parameters exist without *args, "*"/"**" prefixes on the variadic '
     'ones, each with its annotation and its default if it has one, followed by the return annotation; overloaded '
     'signatures are the alternatives joined by " | ".',
     ['inputs'], 'all signatures',
     'The tests only check that str() of nested objects occurs within str() of the whole.',
     [M], [('PlainSignature.__str__', M + ':372'), ('OptionalParameter.__str__', M + ':240')], ['str()'])
prop('C13', 'Pickling and copying preserve parameters and signatures',
     'pickle (protocol 2 and later), copy.copy and copy.deepcopy of a parameter or signature give an object of the same class with the same '
     'fields, including an absent default staying absent and a false or None default staying present, that equals the '
     'original.',
     ['inputs'], 'all parameters/signatures whose field values can be pickled',
     'Sampled; only the default protocol and only equality of the round trip are checked.',
     [M], [('__getnewargs_ex__', M + ':126'), ('__getnewargs__', M + ':528')], ['pickle/copy round trip'])
prop('C14', 'User-defined callables get the signature that inspection reports',
     'For a function, method, class or built-in that no stub describes, the result mirrors inspect.signature: same parameters in order, '
     'same kinds and names, a default exactly where one exists (with that very value), variadic parameters optional, and Any '
     'for missing annotations; the returns are the return annotation, Any if missing, or Self for a class.',
     ['inputs'], 'all raw signatures: parameter kinds, defaults, annotations, for functions, bound methods and classes',
     'The stdlib sampling test only asserts the type of the result.',
     [S], [('_from_raw_signature', S + ':558'), ('_parameter_from_raw', S + ':540'), ('from_callable', S + ':36')],
     ['signature_from_callable result'])
prop('C15', 'A stub definition is turned into the parameters it declares',
     'For a callable described by a stub, each stub parameter becomes one parameter with its declared name, '
     'annotation (Any if missing) and default (defaults belong to the last positional parameters; "..." means optional '
     'without a known default), in declared order: positional, *args, keyword-only, **kwargs. A class drops the receiver of its initializer '
     'and returns Self from __init__; a method of a class gets a required positional-only receiver annotated Self, a class method '
     'one annotated Type[Self], and a static method none.',
     ['inputs', 'programs'], 'all stub definitions within size bounds',
     'The sampled stdlib test only asserts the type of the result; README shows a handful of results.',
     [S], [('_parameters_from', S + ':310'), ('_to_positional_parameters', S + ':613'),
           ('_parameter_from_ast_node', S + ':571'), ('_returns_annotation_from', S + ':342')],
     ['signature_from_callable result'])
prop('C16', 'A stub parameter may be passed by keyword exactly when the stub says so',
     'A positional parameter declared in a stub is positional-only exactly when it is declared before "/", or it or a later positional '
     'parameter has a leading (and no trailing) double underscore, or it is the implicit receiver; any other one can be passed by position or keyword. '
     'No declared positional-only parameter is lost.',
     ['inputs', 'programs'], 'all stub definitions within size bounds',
     'Tests never query a stub-derived signature with keyword arguments.',
     [S], [('_to_positional_parameters', S + ':613')], ['kinds of the parameters of signature_from_callable results'])
prop('C17', 'Bound callables and partials are the unbound signature with arguments bound',
     'The signature of a bound method (user-defined, built-in or slot wrapper, bound to an instance or, for class methods, to a class) is the '
     'signature of the underlying function without its receiver, and the signature of functools.partial(f, *args, **kwargs) '
     'equals the signature of f bound to those arguments. Overloads declared in a stub all appear, in declared order.',
     ['inputs', 'programs'], 'all stub definitions of methods and all partial arguments within bounds',
     'Tests only build partial(f) without arguments and assert the type of the result.',
     [S], [('from_callable for bound callables', S + ':41'), ('from_callable for partial', S + ':116')],
     ['signature_from_callable result'])
prop('C18', 'A class is described by its nearest initializer or constructor',
     'The signature of a class described by stubs comes from the first class in its method resolution order (as declared in the stubs) that '
     'declares __init__ or __new__, preferring __init__ when both are declared there, with all the overloads declared there; '
     'if none declares one the class takes no arguments. The order is the linearization (C3) Python itself uses.',
     ['programs'], 'all class hierarchies within bounds and all placements of __init__/__new__',
     'The sampled stdlib test only asserts the type of the result.',
     [S], [('_to_class_builder_qualified_path', S + ':486'), ('to_superclasses_paths', SC + ':1'),
           ('_resolve_builder_qualified_path', S + ':413')], ['signature_from_callable(class)'])
prop('C19', 'Names in stubs resolve to the definition Python scoping would pick',
     'A dotted name used in a stub module resolves to the definition in the enclosing class if there is one, else in the '
     'module, else in a star-imported module (first match in import order), else to the target of an explicit import '
     '(followed through re-exports), else to a builtin; attributes of classes are searched in the class, then its bases in method resolution order, then object. '
     'The answer is an existing definition or module, an unknown name is reported as not found and never as another kind of error, and star imports that form cycles do not '
     'loop.',
     ['programs'], 'all symbol tables within bounds and all queried names',
     'Resolution is exercised only by the one concrete set of stubs bundled with mypy.',
     [SC], [('resolve_object_path', SC + ':50'), ('contains_object_path', SC + ':29')], ['resolve_object_path result'])
prop('C20', 'Relative imports in stubs resolve to the module Python would import',
     'For every importing module (package or not), import level and optional module name that stay inside the top-level package, '
     'the resolved module path equals the one the import system computes.',
     ['inputs'], 'all module depths, levels and module names',
     'Only the relative imports that occur in the bundled stubs are exercised.',
     ['paradigm/_core/arboreal/utils.py', 'paradigm/_core/sources.py'],
     [('to_parent_module_path', 'paradigm/_core/arboreal/utils.py:22'), ('is_package', 'paradigm/_core/sources.py:30')],
     ['to_parent_module_path result'])
prop('C21', 'Parsing a stub module records exactly the names it binds',
     'After parsing a stub module, a name is defined in a scope exactly when a statement that is active there (class, function, '
     'assignment; only the taken branch of an if) defines it, with all its definitions kept in order and its sort recorded; '
     'imports and aliases become references to what they name, star imports are recorded in order, and base classes keep their order.',
     ['programs'], 'all stub modules built from the supported statements within bounds',
     'Only the one concrete set of bundled stubs is parsed, and the result is never inspected.',
     [ST], [('_StateParser', ST + ':160'), ('_parse_stub_scope', ST + ':533')], ['tables produced by the stub parser'])
prop('C22', 'Specialising a generic base substitutes its type parameters and nothing else',
     'When a stub class derives from a specialised generic class, the inherited members are those of the generic with each type '
     'parameter replaced, simultaneously and everywhere it occurs, by the corresponding argument; other names are unchanged and '
     'the generic itself is left intact. The type parameters of a generic class are those its Generic or Protocol base declares, in '
     'that order, and otherwise those of its bases in order of first appearance.',
     ['programs'], 'all member annotations and type-parameter tables within bounds',
     'No test inspects specialised members.',
     [ST], [('_SpecializeGeneric', ST + ':608'), ('_collect_type_args', ST + ':590'),
            ('_register_generic_specialization', ST + ':880')], ['specialised member definitions'])
prop('C23', 'Evaluating a stub expression gives what Python would compute',
     'Evaluating an annotation or default expression of a stub (constants, names, attributes, tuples, lists, dicts, unary and '
     'binary operators, subscripts and calls, arbitrarily nested) gives the value of the same expression in Python, where "|" '
     'of operands that do not support it means a union and a subscript the value does not support leaves the value as is. A name '
     'that only stubs define has the value its definition there gives, and a class that only stubs define is evaluated to one '
     'class with the bases, annotations, attributes and methods written there.',
     ['programs', 'inputs'], 'all expression trees within bounds over arbitrary operand values',
     'Only expressions occurring in sampled stdlib stubs are evaluated and the values are not checked.',
     ['paradigm/_core/arboreal/evaluation.py'],
     [('evaluate_expression_node', 'paradigm/_core/arboreal/evaluation.py:37')], ['annotations/defaults of results'])
prop('C24', 'Cached data reads back exactly as it was saved',
     'Data written to the on-disk cache (nested dictionaries, lists, tuples and sets of strings and numbers, and syntax trees '
     'in textual form) evaluates back to an equal value of the same types, including empty and one-element containers; loading '
     'a cache gives what was saved last, however soon after an earlier save.',
     ['inputs'], 'all nested values within size and depth bounds; all syntax trees of the supported node kinds',
     'The cache is only written and read for one data set and the two are never compared.',
     ['paradigm/_core/pretty.py', 'paradigm/_core/caching.py', 'paradigm/_core/arboreal/conversion.py',
      'paradigm/_core/arboreal/construction.py'],
     [('repr_from', 'paradigm/_core/pretty.py:12'), ('save', 'paradigm/_core/caching.py:27'),
      ('to_raw', 'paradigm/_core/arboreal/conversion.py:133'), ('from_raw', 'paradigm/_core/arboreal/construction.py:16')],
     ['caching.save output'])
prop('C25', 'A stale, missing or damaged cache is rebuilt and never trusted',
     'On import, cached tables are used exactly when they load completely and carry the current package version; otherwise '
     'the main process recomputes them and saves them with the current version, and a helper process continues with empty tables without writing. '
     'A crash or error while saving never makes a later import use incomplete data, and neither that nor a damaged cache (missing, cut '
     'off, empty, not Python, raising, without a field or with unknown kinds of nodes) makes an import fail.',
     ['crash_points', 'fault_sequences', 'histories'], 'all load outcomes, cached versions, process roles and points at which saving stops',
     'Tests run with one fresh cache; staleness, truncation and write errors never occur.',
     ['paradigm/_core/caching.py', 'paradigm/_core/modules.py', 'paradigm/_core/stubs.py'],
     [('cache decision', 'paradigm/_core/stubs.py:45'), ('cache decision', 'paradigm/_core/modules.py:24'),
      ('save', 'paradigm/_core/caching.py:27')], ['module tables after import', 'cache file contents'])
prop('C26', 'Work delegated to a helper process returns its outcome and leaves no trace',
     'Calling a function in a helper process returns exactly what the function returned or raises exactly what it raised, passes '
     'all arguments through, and restores the main module entry whatever happens, including when the process cannot be started, and when several threads '
     'delegate at once. It never waits for ever for a function that ends, by whatever exception or with whatever result.',
     ['fault_sequences', 'inputs'], 'all results, exceptions, arguments and start-up failures',
     'Tests only trigger two successful calls at import time.',
     ['paradigm/_core/execution.py'], [('call_in_process', 'paradigm/_core/execution.py:13'),
                                       ('_put_result_in_queue', 'paradigm/_core/execution.py:44')],
     ['call_in_process outcome', "sys.modules['__main__']"])
prop('C27', 'The module index lists every place an object can be found, and only those',
     'For every indexed module, each class and function reachable through module and class attributes is listed under its own '
     'qualified path together with every module and attribute path (entering no class twice) at which it is bound, and every listed location leads to '
     'that object; recursion through self-referential classes ends, and a module that fails to import only causes a warning.',
     ['programs'], 'all module namespaces within bounds',
     'The index is built once for the standard library and never inspected.',
     ['paradigm/_core/index.py', 'paradigm/_core/catalog.py'],
     [('from_modules', 'paradigm/_core/index.py:13'), ('qualified_path_from', 'paradigm/_core/catalog.py:27')],
     ['index.from_modules result'])
prop('C28', 'Stdlib signatures accept exactly the calls the real callables accept',
     'For every supported standard-library callable and arguments, the reported signature accepts the argument shape exactly when '
     'the callable itself does.',
     ['inputs', 'programs'], 'all stdlib callables and argument shapes',
     'Tests assert only that some signature is produced for sampled callables.',
     [S], [('from_callable', S + ':36')], ['signature_from_callable result vs. real call'])
prop('C29', 'A callable is described by the stub of the very object it is',
     'Of the places a library object is listed at, only those where it is found now, or whose module is not loaded, count. '
     'A function is described by the stub of a function at such a place, otherwise by that of a variable annotated with a '
     'signature, otherwise by what calling the class declared there takes, without the receiver; a class is described by the '
     'builder of the places declaring it as a class, those of object only without others. Nothing else describes it: not a '
     'built-in object of the same name, not another object found at the place; without such a stub the object is inspected. '
     'The index keeps exactly the places stubs define.',
     ['programs', 'histories'], 'all kinds of stub definitions and states of the modules at several places within bounds',
     'The tests only require some signature for sampled callables; which of several same-named definitions it comes from is '
     'never looked at.',
     [S], [('resolve_qualified_paths', S + ':340'), ('_from_callable', S + ':415'),
           ('_from_classes_qualified_paths', S + ':437'),
           ('_resolve_builder_qualified_path', S + ':460'), ('_try_resolve_object_path', S + ':395')],
     ['signature_from_callable result'])
prop('C30', 'Signatures do not depend on what was asked before',
     'With the same modules loaded, signature_from_callable gives every callable the signature it would get in a fresh process, '
     'whichever callables were asked about before, in whichever order, however their names, classes or modules coincide; asking '
     'again gives an equal signature whose annotations are the same objects, signatures given out earlier stay as they were, and '
     'the tables of stubs are not changed.',
     ['histories', 'programs'], 'all histories of queries within bounds over all coincidences of names',
     'Tests never compare answers of different orders; caches keyed by too little and mutated tables need particular pairs of '
     'callables in a particular order.',
     [S, 'paradigm/_core/arboreal/evaluation.py'],
     [('from_callable', S + ':36'), ('_load_ast_nodes', S + ':481'),
      ('evaluate_qualified_path', 'paradigm/_core/arboreal/evaluation.py:296')],
     ['signature_from_callable results in a row'])
prop('C31', 'A variable of a stub is called as its type tells',
     'A callable that stubs only know as a variable is described by what the value of the variable tells or, without a value, its '
     'annotation: Callable[[A, ...], R] by required positional-only parameters of these annotations, Callable[..., R] by *args and '
     '**kwargs of Any, both returning R; a class by its own __call__ without the receiver, overload by overload; a type variable by '
     'its bound, otherwise by its constraints in order; an alias, import or member by what it stands for, names being looked up '
     'where they are written; several declarations by their alternatives in order. Where any of these tells nothing (an unbound '
     'type variable, a name assigned twice, a class without __call__, any other expression), the callable is inspected.',
     ['stubs', 'inputs'], 'all variables of the described shapes over all names and annotations',
     'Two library callables are described so; tests see neither type variables with constraints, nor names that mean other things '
     'in other scopes, nor annotations of other shapes.',
     [S], [('_from_expression_node', S + ':123'), ('_from_statement_node', S + ':256'), ('_load_ast_nodes', S + ':481')],
     ['signature_from_callable result'])

path = Path(__file__).resolve().parent.parent / 'properties.jsonl'
path.write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P), 'properties')
