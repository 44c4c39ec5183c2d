"""The properties: single source of properties.jsonl and MANIFEST.json (generated by tools/manifest.py)."""

def P(id, title, statement, over, quant, why, files, mech, state, observe, note):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, state=state, observe=observe, note=note)

AST, DOM, TAG, RT, GR, ST = ['src/hypertag/core/%s.py' % f for f in ('ast', 'dom', 'tag', 'runtime', 'grammar', 'structs')]
ERR, HTML, STD, STDHTML, DJ, FI, PARS = ['src/hypertag/' + f for f in ('core/errors.py', 'html.py', 'std/builtins.py', 'std/html.py', 'django/backend.py', 'django/filters.py', 'nifty/parsing.py')]
RENDER = 'HyperHTML().render(script, **context): returned text or exception'

PROPS = [

P('C01', 'Data embedded in markup can never create or break out of HTML elements',
  "Whatever string (or object converted to a string) reaches a plain-text or markup position of a script - as a literal, an embedded expression, a value of a context variable, an attribute of a tag or a parameter of a hypertag - the rendered HTML, read back by an HTML tokenizer, contains exactly the elements and attributes written in the script, and the text and attribute values decode back to the original data. Only a verbatim or markup block (! and /) and its literal text may contribute raw HTML, and expressions embedded in a markup block are inserted raw only where the language says so.",
  ['inputs', 'programs'], 'every string (quotes, angle brackets, ampersands, entities, control characters, any Unicode) at every kind of position (| and / blocks, headlines, attributes by keyword, shortcut or parameter, through hypertags, loops and filters) of every script',
  'Tests escape a couple of fixed strings in one position; the guarantee is over all strings and all positions, including compositions (a value passed through nested hypertags must be escaped exactly once).',
  [AST, STDHTML, TAG, 'src/hypertag/core/run_html.py'],
  [('escape of text blocks', AST + ' xblock_normal / xblock_markup translation'), ('attribute quoting', TAG + ' Markup._render_attr'), ('html_escape', STDHTML)],
  [('embedded values', 'strings that come from context, expressions and literals')], [RENDER + ', read back by a tokenizer'],
  'Observes the output with an independent HTML tokenizer that must recover exactly the planned elements, attributes and data.'),

P('C02', 'Attributes of a tag come out exactly once, in order, with their exact values',
  "Every attribute of a regular tag is printed in the order written, with a value that decodes to the string form of the passed value; True prints a bare name, False omits it, values of a repeated attribute are joined with a space, and void tags have no closing tag and accept no body. No attribute is lost, duplicated, renamed or moved to another tag of a chain, whatever combination of keyword, shortcut (.class, #id) and positional forms is used.",
  ['inputs', 'programs'], 'every list of attributes (names, types of values, order, shortcuts, whitespace) on every regular, void and custom tag, alone or in a chain',
  'Unit tests use a handful of fixed attribute lists; interactions of forms, types and chain positions are combinatorial.',
  [TAG, AST, STDHTML, 'src/hypertag/core/xml_chars.py'],
  [('Markup._expand / _render_attr', TAG), ('xattr parsing and evaluation of attributes', AST)], [('attribute list', 'ordered name-value pairs of a tag occurrence')],
  [RENDER + ', tokenized'], 'Independent tokenizer plus a reference evaluation of the attribute list.'),

P('C03', 'Nesting of elements in the output is the nesting of blocks in the script',
  "The tree of elements recovered from the rendered HTML equals the tree of tags expressed by indentation, chains (a : b : c), headlines and inlined bodies in the script, with every element opened and closed exactly once and in the right order. Text belongs to the element under which it is written.",
  ['programs'], 'every tree of tags written in any mixture of outlined, inlined, chained and null-tag forms, with any indentation units, blank lines and margins',
  'Tests compare a few fixed documents; the parser of indentation and the tree builder must be right for all shapes and mixtures of indentation.',
  [AST, DOM, PARS], [('indentation preprocessing', AST + ' Grammar.preprocess, ' + PARS), ('tags_expand', AST)], [('stack of indentation', 'current indentation during preprocessing')],
  [RENDER + ', parsed into a tree'], 'Tree of the output vs tree of the generated document.'),

P('C04', 'Layout of the output (indentation, blank lines, inlining) follows the script',
  "The output has the indentation of the blocks in the script relative to their parents, keeps vertical margins before blocks, puts a headline inline with its tag and outlined bodies on their own lines, and honours the dedent (<) and append (...) markers. Wrapping a document in an outlined tag yields the same output shifted by one level of indentation.",
  ['programs'], 'every document: indentation unit (spaces, tabs), margins, headlines, multi-line text tails, inlined and dedented blocks, loops and hypertags in between',
  'Tests fix a few layouts; whitespace handling is spread over parsing, translation, DOM and hypertags, and interacts with each feature.',
  [AST, DOM], [('margins and indentation of nodes', DOM + ' node.set_indent, add_indent'), ('block modifiers', AST)], [('indent of a node', 'whitespace put before the lines of the node')],
  [RENDER], 'Character-exact comparison with an independent reference interpreter, plus a metamorphic nesting law.'),

P('C05', 'Expressions evaluate to the value the same expression has in Python',
  "Every expression built of the supported operators, comparisons, literals, collections, slices, conditional expressions, calls, attribute access and filters has the value and type that Python gives to it, with the documented exceptions (precedence of unary minus, inline if without else, string conversions), and raises an exception of the same class when Python does. Operands are evaluated in the same order and the same short-circuiting as in Python.",
  ['inputs', 'programs'], 'all expressions over the grammar of Hypertag with arbitrary nesting, whitespace and parenthesization, and operands of any types',
  'Tests evaluate some dozens of expressions; precedence, associativity and short-circuit rules are relations over all pairs and triples of operators.',
  [AST, GR], [('evaluation of expression nodes', AST + ' NODES.x*expr classes'), ('precedence levels of the grammar', GR)], [('operand values', 'Python objects of the variables')],
  [RENDER, 'values passed to a probe function called from the script'], 'Compared with CPython semantics: reference evaluator and the host eval() for the common subset; probes log evaluation order.'),

P('C06', 'Variables follow lexical scoping; assignments act only where they should',
  "A variable reference yields the value most recently assigned to the variable visible at that position, where bodies of tags and hypertags open a nested scope, control blocks do not, and assignments inside a tag's body never change what is seen outside of it. Unpacking assigns each target the right element (or raises ValueError), an in-place operator equals the plain one followed by an assignment, and a variable that was not assigned on the executed path is reported when used.",
  ['programs', 'inputs'], 'all arrangements of assignments (plain, in-place, unpacking, loops), references and scopes at any nesting, and all control paths taken through them',
  'Tests contain a few scoping examples; the outcome depends on the sequence of assignments along the executed path and on nesting.',
  [AST, ST], [('slots and context of symbols', ST + ' Context, Slot, State'), ('assignment blocks', AST + ' xblock_assign')], [('State', 'current values of variables during translation')],
  [RENDER], 'Reference interpreter of scopes; enumerated branch coverage; one known finding recorded.'),

P('C07', 'Control blocks run exactly the branches and iterations Python would run',
  "An if/elif/else renders exactly one branch, the first whose condition is true, evaluating conditions in order and none after it; a for block renders its body once per element, in order, for any iterable; a while block repeats while its condition holds; else of a loop renders exactly when documented. Loops see and keep modifications of variables of the enclosing scope between iterations.",
  ['programs', 'inputs'], 'all conditions, iterables (lists, generators, iterators, dicts, strings, custom objects), nesting of control blocks, empty and body-less variants',
  'Tests run single fixed loops and conditions; branch combinations, iterator protocols and nesting are unbounded.',
  [AST], [('control blocks', AST + ' xblock_if, xblock_for, xblock_while')], [('loop variables', 'values in the state during iteration')],
  [RENDER, 'log of probe calls'], 'Event log of probes is compared with the log of the reference interpreter.'),

P('C08', 'A failed try branch or ?-qualified block leaves no trace',
  "A try block renders the first branch that translates without an exception and nothing else of the others, the qualifier ? turns an error or false value into an empty result and ! turns a false value into an error, exactly for the expression or block they are attached to. The output of the document is the same as if the failed branches were not there: no text, element, attribute, margin or change of indentation of a failed branch survives (variables assigned before the failure keep their values, as in Python), and exceptions that are not Exception subclasses are never contained.",
  ['programs', 'fault_sequences', 'inputs'], 'all fault positions (every k-th evaluation fails) in any nesting of try, ? and ! with tags, loops, hypertags, assignments',
  'Tests check a few fixed failing expressions; a partial effect surviving from a failed branch depends on where the fault strikes.',
  [AST, ST], [('restore of the state after a failed branch', AST + ' xblock_try, State.copy'), ('qualifiers', AST + ' xtail/qualifier nodes')], [('State', 'values before the branch started')],
  [RENDER, 'log of probe calls, with faults injected at chosen calls'], 'Faults injected at every probe position; result compared with the reference and with the document without failed branches.'),

P('C09', 'Hypertags bind arguments like functions and expand in their own lexical scope',
  "An occurrence of a hypertag (positional, keyword, default arguments, missing and surplus ones) binds parameters exactly like a Python function does and raises TypeError in the same situations; defaults are evaluated in the scope of the definition. The body of the definition sees the variables visible at the definition and its own parameters only, and an expansion never changes variables of the caller or of other expansions.",
  ['programs', 'inputs'], 'all signatures and argument lists, nested and mutually using hypertags, redefinitions and shadowing, repeated and nested occurrences',
  'Tests have a few fixed hypertags; binding rules and isolation hold over all combinations of parameters, arguments and scopes.',
  [AST, ST], [('xblock_def.expand / _bind_attrs', AST), ('own copy of the state', AST + ' Hypertag.expand')], [('State of an expansion', 'parameters and local variables of the hypertag')],
  [RENDER], 'Binding is compared with a Python function of the same signature; documents with the reference interpreter.'),

P('C10', 'The body passed to a hypertag is embedded whole, in order, exactly where asked',
  "An @ block inserts the nodes it is given at its place, with indentation of that place, in order and unmodified; the same body can be embedded any number of times, in parts (indices, slices, select, skip) and passed on to other hypertags, each time with the same content. Values that are not DOM nodes (or sequences of them) are refused and None or empty ones insert nothing.",
  ['programs', 'inputs'], 'all bodies, numbers and places of embeddings, chains of selections, nesting of hypertags that pass bodies on',
  'Tests embed a fixed body once; aliasing between several embeddings and correctness of selections need many shapes.',
  [AST, DOM], [('xblock_embed', AST), ('DOM.copy, select, skip, __getitem__', DOM)], [('DOM of the body', 'nodes translated from the actual body')],
  [RENDER + ', parsed into a tree'], 'Independent selection over random element forests with unique ids; reference interpreter for layout.'),

P('C11', 'Imports deliver exactly the symbols of the addressed module, loaded once',
  "An import block binds exactly the requested symbols ($ variables, % tags, renamed with 'as', or all public ones with *) of the Python or Hypertag module that its path denotes - absolute, relative (. and ..), package or plain folder - to the same values and behaviour they have in that module. Each script is executed once per runtime however many times and by whatever path it is imported; a missing module, missing symbol or circular import is reported with its own error, and symbols not imported stay undefined.",
  ['configurations', 'programs', 'histories'], 'all file trees of scripts and Python modules, import graphs (diamonds, chains, cycles), path forms and lists of symbols; repeated renderings with one runtime',
  'Tests import from two fixed sample files; resolution depends on the layout of files, the referrer, and what was loaded before.',
  [RT, AST], [('PyLoader, HyLoader path resolution', RT), ('module cache', RT + ' Runtime.modules'), ('import block', AST + ' xblock_import, ximport')], [('cache of modules', 'modules loaded so far by a runtime')],
  [RENDER + ' with __file__/__package__ on generated file trees', 'log of calls made by imported scripts while loading'], 'Random file trees generated in a scratch folder; an independent model of resolution predicts values, loads and errors.'),

P('C12', 'A context block binds what the caller passes, and only that',
  "A script gets from the caller exactly the variables and tags declared in its context block: a declared and passed one has the passed object as its value, a declared but missing one is reported, and an undeclared one is not visible nor able to replace built-ins or local names. The caller's objects, dictionaries and tags are not modified by rendering unless the script itself calls a mutating method.",
  ['inputs', 'programs', 'configurations'], 'all sets of declared/passed/used names ($ and %, renamed with as), any values, repeated rendering of the same script with different contexts',
  'Tests pass one or two variables; the guarantee ranges over all subsets of declared, passed and used names.',
  [AST, RT], [('xblock_context / make_context', AST), ('Runtime.translate', RT)], [('context', 'names passed by the caller')],
  [RENDER, 'deep comparison of the caller\'s objects before and after'], 'Independent computation of the visible names; snapshots of passed objects.'),

P('C13', 'DOM operations (walk, select, skip, alter, copy, slices) mean what they say',
  "For every document tree: walk yields each node once in the documented order (skipping subtrees when asked), select returns exactly the matching nodes in that order and skip a copy without the matching ones, indexing and slicing follow Python's rules, and alter applies the transformation to every node in the documented order. Read-only operations leave the DOM unchanged, copies share no nodes with the original, and rendering equals the concatenation of rendered top-level nodes.",
  ['inputs', 'histories'], 'all trees of nodes, constraints (tag, attribute present, attribute value, any combination), orders, skip functions, sequences of operations',
  'Tests call select and skip on one document; operations over trees must be right for every shape, order and constraint combination.',
  [DOM], [('DOM.walk, alter, select, skip, copy, _constraint, _test', DOM)], [('DOM.nodes, node.body', 'tree of nodes')],
  ['HyperHTML().translate(...) and methods of its result'], 'Random trees translated from scripts; every result compared with an independent tree of unique elements.'),

P('C14', 'Renderings are independent: in sequence, reentrantly and in threads',
  "The result of a rendering depends only on the script, its context and imported files: never on scripts rendered before, on failed ones, on the runtime instance used, on renderings that run at the same time in other threads or that are started inside a running one. The same input gives the same result every time.",
  ['schedules', 'histories', 'programs'], 'all sequences of renderings (also failing ones) with one or many runtimes, all interleavings of threads, nested renderings from functions called by a script',
  'Tests render scripts one after another in a fixed order in one thread; no test starts two threads or reuses a runtime after a failure.',
  [AST, RT, ST, TAG, STD], [('no global mutable state during translation', AST + ' HypertagAST'), ('built-ins of a runtime', RT + ' import_builtins'), ('parser cache', AST + ' Grammar.get_parser')], [('class-level and module-level caches', 'anything shared between renderings')],
  [RENDER + ' from many threads with injected context switches'], 'Each result compared with the result in a fresh process/runtime; switches injected from probe functions and a small switch interval.'),

P('C15', 'Standard functions and tags do what their documentation says, for every input',
  "Built-in text functions and tags (upper, lower, merge, inline, unique, dedent, crop/truncate, cycle, changes, doctype, comment, custom, HTML tags) return the documented result for every argument, as a function, as a filter and as a tag around any body. Python built-ins are available under their own names with their own behaviour, and no name is missing or shadowed.",
  ['inputs', 'programs'], 'all strings (any whitespace, Unicode, empty), parameters at and around their limits, sequences of any kind and length; all standard tag names in both cases',
  'Tests call each function on one or two strings.',
  [STD, STDHTML, HTML], [('functions', STD), ('tags', STDHTML)], [], [RENDER, 'direct calls of the functions exported to scripts'], 'Independent implementations written from the documentation, and laws (length bounds, idempotence, order).'),

P('C16', 'Errors are reported with the right class and the exact position of their cause',
  "Every mistake in a script surfaces as one exception of the documented class (also a subclass of the matching Python one), whose message names the file, line and column of the construct at fault - in the script where it is written - whatever precedes or surrounds it; a syntax error names the first line that cannot be parsed, an indentation error the first line with inconsistent indentation, while errors that appear only when tags are rendered (after translation) need not carry a position. Exceptions raised by the user's own functions, objects and tags come out as the same object, those which are not Exception subclasses also through try blocks. No error is swallowed or replaced by another one, and a correct part of a script does not alter the report.",
  ['programs', 'inputs', 'fault_sequences'], 'all kinds of mistakes planted at any position of any otherwise correct document: syntax, undefined names, wrong arguments, failing calls, inside loops, hypertags, chains, after blank lines, comments, tabs, multi-line text and Unicode',
  'Tests assert messages for a dozen fixed scripts; positions depend on everything before the failing construct.',
  [ERR, AST, PARS], [('HError.make_msg, _locate_error', ERR + ', ' + AST), ('positions of nodes in preprocessed text', PARS)], [('position of a node', 'line and column in the original script')],
  ['the exception raised by render(): class, message, line and column'], 'Errors of known class planted at known positions in generated documents.'),

P('C17', 'Any Unicode text is handled exactly; internal markers never leak nor clash',
  "Scripts and values made of any Unicode characters (also the characters the parser itself uses as special markers, control characters, line separators, non-breaking spaces, astral and combining characters) are parsed and rendered exactly: identifiers, literals and values come out with the same characters, and none of them is taken for indentation, structure or an end of line. Internal marker characters never appear in outputs or error messages unless they are in the data.",
  ['inputs', 'programs'], 'all Unicode strings in text, literals, names, attribute values, comments and context values, alone and mixed with structure',
  'Tests use a few Polish letters; special characters are chosen at run time depending on the script.',
  [AST, PARS, GR], [('choice of special characters', AST + ' Grammar.get_parser, ' + PARS), ('preprocessing of indentation', AST)], [('special characters', 'markers inserted in the script during preprocessing')],
  [RENDER], 'Character-exact comparison of the output, with every character class at every position.'),

P('C18', 'Insignificant variations of the source never change the result',
  "Comments, blank lines inside or after blocks, trailing whitespace, the width and kind of indentation, spacing inside expressions and tag headers, redundant parentheses, equivalent literals, line continuation and quote style do not change the result of a document (beyond the indentation of the output itself).",
  ['programs', 'inputs'], 'all pairs of sources of the same document',
  'Tests have one source per document; equivalence is a relation between pairs of programs.',
  [GR, AST, PARS], [('grammar of whitespace and comments', GR), ('preprocessing', AST)], [], [RENDER + ' of both sources'], 'Metamorphic: the same abstract document serialized in two random ways must render identically.'),

P('C19', 'No input can hang or crash the library: it renders or raises its own error',
  "For every string given as a script - random, truncated, mutated or hostile - and every context, translation ends in bounded time with either a result or an exception of the library's documented classes (or one raised by a Python operation of the script), never an internal failure such as AttributeError, KeyError, IndexError or AssertionError from the library itself, an endless loop or a process crash. Accepted mutants are well-formed documents whose output is again accepted by an HTML tokenizer when they contain no raw blocks.",
  ['inputs', 'programs'], 'all strings: mutations of valid scripts at character, token, line and indentation level, random text, deep repetition',
  'Tests give only well-formed scripts and a dozen of ill-formed ones.',
  [AST, GR, PARS, DOM], [('parsing', GR + ', ' + AST), ('semantic analysis', AST)], [], [RENDER + ', traceback of the exception', 'CPU time per script'], 'Fuzzing with mutation operators; monitors classify every exception by class and origin, and time.'),

P('C20', 'Shortcuts and repeated attributes are equivalent to their explicit forms',
  "A .class or #id shortcut (literal or with an expression) equals the explicit class= or id= attribute; several occurrences of an attribute merge into one space-separated value in the order written. Inlined, chained, headline and null-tag forms of a block equal their documented longhand.",
  ['programs', 'inputs'], 'all mixtures of shortcuts and explicit attributes, on regular tags, hypertags and custom tags, with any values',
  'Tests check single shortcuts on single tags.',
  [AST, TAG], [('xattr short forms, merging of class', AST)], [], [RENDER + ' of both forms'], 'Metamorphic pairs: shorthand and longhand must render identically; explicit oracle for merging.'),

P('C21', 'Translating then rendering equals rendering; a DOM renders the same every time',
  "translate() followed by render() of its result gives the same text as render() with the same arguments; rendering a DOM any number of times, its copy, or its nodes separately gives the same text, and does not change the DOM. Symbols returned by translate are the ones assigned at the top level, and every imported hypertag or tag called as a Python function gives the text that its occurrence in a script would give.",
  ['programs', 'histories'], 'all documents, sequences of translate/render/copy calls, hypertags called from Python with any body and arguments',
  'Tests use render() nearly exclusively, once per script.',
  [RT, DOM, AST], [('Runtime.translate/render', RT), ('EmbeddedHypertag.__call__', AST), ('DOM.render', DOM)], [('DOM nodes', 'cached or lazily rendered content')],
  ['results of translate(), render(), DOM.render(), calls of tags'], 'Agreement of all public ways to obtain the output.'),

P('C22', 'Django backend renders the right template and context; filters work',
  "A template obtained through the Django backend - by name from template folders or from a string - renders to the same text as the same script rendered directly with the same context plus the request, CSRF helpers and context of the backend; missing templates raise TemplateDoesNotExist and broken ones TemplateSyntaxError or the script's error. The caller's context is not modified, templates are independent and reusable, and Django filters imported into a script give the result Django gives.",
  ['inputs', 'histories', 'configurations'], 'all template trees, contexts, sequences of renderings with one engine, all filters with any arguments',
  'The repository has no Django tests at all.',
  [DJ, FI], [('Hypertag engine, Template.render', DJ), ('filters module', FI)], [('engine', 'runtime shared by templates')],
  ['django.template.backends API: engine.get_template/from_string, Template.render'], 'Direct rendering and Django\'s own filter functions are the oracle.'),

P('C23', 'Size and depth of a document change nothing but time',
  "Deeply nested, very long or very wide documents, expressions and DOMs give the same result as their small counterparts extended by the same rule; when nesting exceeds what the interpreter can take, a RecursionError or syntax error is raised - not a crash or a wrong result - and later renderings work. Time stays within a small factor of proportional to the size of the script and its output.",
  ['inputs', 'programs'], 'documents with growing depth of tags, loops, hypertags, expressions, parentheses, chains; with growing length of text, lists and numbers of blocks',
  'All tests are tiny.',
  [AST, PARS, DOM, RT], [('recursion limit', RT), ('tree translation', AST)], [], [RENDER, 'CPU time'], 'Outputs are predicted by rule; ratio of CPU times at doubled sizes is monitored with generous bounds.'),

P('C24', 'Plain text and values are preserved verbatim, down to whitespace and newlines',
  "Text of a block appears in the output character by character as written (after removal of the block's own indentation and marker, and after escaping in | blocks), for every line of a multi-line block, including inner spaces, blank lines, backslashes, dollars, braces by their escapes and entity-like text (spaces at the end of a line of the script are not a part of the text). Values embedded in text keep every character, including newlines, whose following lines are only shifted by the indentation of the block.",
  ['inputs', 'programs'], 'all texts and values in |, / and ! blocks, headlines, tails at any indentation and column of the marker',
  'Tests embed short single-line strings.',
  [AST, DOM, GR], [('text blocks', AST + ' xblock_*, xline_*'), ('escape sequences {{ }} $$', GR), ('add_indent', DOM)], [], [RENDER], 'Output is predicted directly from the lines of text by a few lines of independent code.'),

P('C25', 'Every expression is evaluated exactly when and as many times as written',
  "During one rendering each expression in an executed block is evaluated exactly once per execution, in a fixed order: blocks from top to bottom, the body of a tag before its attributes, chained tags from the last to the first, attributes left to right, default values at each expansion that omits the attribute; expressions in blocks that are not executed are never evaluated. No side effect of user functions is repeated, skipped or reordered by rendering, by the layout, or by embedding a body several times.",
  ['programs', 'histories'], 'all documents with side-effecting function calls at every position where an expression may stand, under any control flow, chains and hypertags',
  'No test counts evaluations.',
  [AST], [('lazy translation of bodies', AST + ' tags_expand'), ('order of attributes', AST)], [('log of calls', 'events of probe functions')],
  ['calls of a logging function passed as context'], 'Trace of probe events compared with the trace of the reference interpreter; conservation and exactly-once checks.'),

P('C26', 'Tags written in Python receive and return exactly what the interface promises',
  "A Python tag used in a script is called exactly once per occurrence with the rendered body (or DOM when it asks for it), and the positional and keyword attributes exactly as written, with their Python values; the string it returns is inserted at the place of the tag, laid out like any block, in chains in the right order. Exceptions it raises propagate unchanged, and results other than strings and objects that are not tags are refused with an error.",
  ['programs', 'inputs'], 'all Tag subclasses (text or DOM), bodies, attribute lists, chains with other tags, faults raised inside, tags passed by context, imported from modules, or produced from functions',
  'Tests have no custom tag with attributes or a DOM-receiving one.',
  [TAG, AST, RT], [('Tag.expand protocol, TagFunction', TAG), ('ExternalTag expansion', AST)], [('arguments', 'body, attrs, kwattrs passed to expand')],
  ['arguments recorded by the tag itself; ' + RENDER], 'Recording tags log what they receive; compared with the reference.'),
P('C27', 'Runtimes behave as configured: escape, built-ins, loaders, modules',
  "A subclass of Runtime, or one with own loaders, behaves as configured: its escape function is applied once to every plain-text block and to nothing else (not at all when None), and scripts see the symbols of the modules in BUILTINS, of the last one that has the name, and no others. An import asks the loaders in order, with the path as written, the importing module and the runtime, up to the first that has the module; a loader that caches reads each location once, and a file returned by the resolve function of HyLoader, which is asked for every absolute path, is the module if it exists. Objects are delivered by identity, exceptions of loaders unchanged, and the Module returned by translate() tells the script, file, package, symbols and DOM of that very rendering.",
  ['configurations', 'programs', 'histories'], 'all escape functions, lists of built-in modules, orders and kinds of loaders, import paths, file trees with resolve functions, sequences of registrations; repeated use of one runtime',
  'Tests use the standard HTML runtime with default loaders only.',
  [RT, AST, 'src/hypertag/std/registry.py'], [('Runtime.import_builtins, import_module, translate', RT), ('Loader, HyLoader.resolve, PyLoader', RT), ('escape of plain text', AST)], [('caches of loaders and of built-in symbols', 'what a runtime remembers between renderings')],
  ['calls recorded by the configured functions and loaders; ' + RENDER], 'Recording loaders, resolve functions and escapes are attached to a runtime; what they were asked for and what scripts received is compared with the reference.'),

P('C28', 'A rendering leaves nothing behind in the process',
  "Rendering, translating or parsing a script, successfully or not, changes nothing outside its result: it writes no file, prints nothing, leaves no file open, reads only the modules it imports, and leaves the process-wide settings (current directory, environment, search path, recursion limit, random state, threads, warnings, locale, streams) and the namespaces of Python modules as they were. Once the result or the exception is dropped, nothing that was passed to the rendering or created by it is alive any more, even if the runtime or the Django template is. So neither objects nor memory accumulate with the number of renderings, of whatever scripts and values; only modules that were imported stay with their runtime, while an import that failed is not remembered and succeeds as soon as the module is there.",
  ['programs', 'histories', 'fault_sequences'], 'all scripts, also failing ones and ones with syntax errors, imports, external tags and Django contexts; any number of renderings by one long-lived runtime',
  'A leak or a side effect does not change the text that a test compares, and shows only in the history of a process.',
  [RT, AST, GR, DOM, PARS, DJ], [('Runtime.translate, render, import_module', RT), ('HyLoader.load', RT), ('HypertagAST', AST), ('Template.render', DJ)], [('module cache of a runtime', 'the only thing that may outlive a rendering')],
  ['weak references, audit events, descriptors, garbage collector statistics; ' + RENDER], 'Settings, descriptors and folders are compared before and after, audit events recorded, and weak references, object counts and memory are monitored over histories of renderings.'),
]
