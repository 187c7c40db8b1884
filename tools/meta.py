NA = []
NAP = []

prop('C01', 'Interpolated values are escaped in element content',
     'Whatever text an expression evaluates to, showing it in element content by any form of interpolation outputs that '
     'text with &, <, > and double quotes replaced by entities and everything else unchanged, exactly once. '
     'None shows nothing and other objects show their string form, escaped the same way. '
     'This holds inside every construct, in every output mode and at any nesting of template functions.',
     ['inputs', 'programs', 'configurations'],
     'every string value (any code points), every interpolation form, every surrounding construct, every mode',
     'Tests show a handful of fixed strings in one or two forms; injection bugs hide in particular characters, lengths, '
     'constructs and modes.',
     [T, I, X, U],
     [('escaping of values', 'kajiki/template.py:_Template._escape'),
      ('code emitted for expressions', 'kajiki/ir.py:ExprNode'),
      ('scripts, CDATA, py:content, py:replace', 'kajiki/xml_template.py:_Compiler._compile_xml'),
      ('flattening of nested output', 'kajiki/util.py:flattener')])

prop('C02', 'Attribute values: escaped, complete, and omitted only when empty of parts',
     'An attribute written in a template is output as its static text and interpolated values concatenated, values '
     'escaped so that they can never end the attribute or start a tag. An attribute whose parts all evaluate to None is '
     'omitted; otherwise it is present once, and no other attribute is affected.',
     ['inputs', 'programs', 'configurations'],
     'every value of every interpolated part, every static text around it, every set and order of attributes, modes, '
     'guards and nesting',
     'Tests fix the strings and try one attribute at a time; None combined with text, empty strings, and '
     'quotes next to entities are not sampled.',
     [T, I, X],
     [('attribute compilation', 'kajiki/xml_template.py:_Compiler._compile_xml'),
      ('attribute code', 'kajiki/ir.py:AttrNode'),
      ('collecting the parts', 'kajiki/template.py:_Template._collect'),
      ('output', 'kajiki/template.py:_Template._render_attrs')])

prop('C03', 'Markup declared trusted is output verbatim, and only that',
     'Text marked as trusted markup (literal, Markup, or an object with an HTML form) is output unchanged wherever it is '
     'shown and however often, while any other text shown beside it is still escaped. '
     'Output of template functions is never escaped a second time in content, however deeply functions call each other.',
     ['inputs', 'programs'],
     'every markup text and plain text, each way of marking, each place of use, repeated use, nested calls',
     'Tests mark one fixed string once; double escaping, one-shot markup and leaks of trust to neighbours need other '
     'histories and values.',
     [T, U, I],
     [('recognising trusted values', 'kajiki/template.py:_Template._escape'),
      ('markup objects', 'kajiki/util.py:literal, flattener')])

prop('C04', 'py:attrs and boolean attributes',
     'py:attrs adds exactly the given names and values, escaped, sorted by name, leaving out those that are None, for '
     'mappings, pair lists and iterators alike. Boolean HTML attributes given True, False, a number equal to one of them, or text follow the '
     'output mode: minimised in HTML, name="name" in XML, absent when false. Static attributes of the same element are unaffected.',
     ['inputs', 'configurations'],
     'every mapping of up to three names to values, every boolean attribute name, every mode',
     'Tests use one dictionary; sorting, None, booleans and modes combine in ways they do not sample.',
     [T, I, X, H],
     [('rendering of attributes', 'kajiki/template.py:_Template._render_attrs'),
      ('boolean names', 'kajiki/html_utils.py:HTML_EMPTY_ATTRS'),
      ('code for py:attrs', 'kajiki/ir.py:AttrsNode')])

prop('C05', 'Static template text is reproduced exactly',
     'Text, entities, character references, comments and CDATA sections of a template appear in the output '
     'with the same characters in the same order, re-escaped where XML needs it, with no character lost, added, moved '
     'or escaped twice, whatever constructs surround them. With text stripping enabled only white space at the '
     'edges of text pieces disappears.',
     ['inputs', 'programs', 'configurations'],
     'every static text (any XML characters, any entity name) at every position between constructs, every mode',
     'Tests contain a few literal documents; boundary merging, white-space splitting, dollar signs and rare characters '
     'are per-character and per-position facts.',
     [X, I, E],
     [('parsing and entities', 'kajiki/xml_template.py:_Parser'),
      ('merging and splitting text', 'kajiki/xml_template.py:_DomTransformer'),
      ('text around expressions', 'kajiki/xml_template.py:_TextCompiler'),
      ('merging of output pieces', 'kajiki/ir.py:optimize')])

prop('C06', 'Expressions end exactly where their syntax says',
     'In text and attributes a braced expression extends to its matching brace whatever braces, quotes, dollars or line '
     'breaks its Python code contains, a $name expression covers exactly the dotted name, $$ is one dollar, and all '
     'other text around them is left alone. Code that is not a valid expression is refused when the template is compiled.',
     ['inputs', 'programs'],
     'every text before and after an expression, every expression shape, every name',
     'Tests use short fixed expressions; the delimiting depends on every character that follows.',
     [X, TX],
     [('finding expressions', 'kajiki/xml_template.py:_TextCompiler'),
      ('braced expressions', 'kajiki/xml_template.py:_TextCompiler._get_braced_expr')])

prop('C07', 'Control flow directives follow Python semantics in any nesting',
     'py:if/py:else, py:for, py:switch/py:case/py:else, py:with, py:strip and py:def, as attributes or elements, nested '
     'in any way, output exactly what the corresponding Python statements would: the branch chosen by truth value, '
     'every item once in order, the first equal case only. Each tested expression is evaluated once per execution of its construct.',
     ['inputs', 'programs'],
     'every nesting of directives within the bound, every condition, sequence and switch value',
     'Tests nest two directives in a few fixed ways with fixed data.',
     [X, I, T],
     [('directive expansion', 'kajiki/xml_template.py:_DomTransformer._expand_directives'),
      ('code generation', 'kajiki/ir.py:IfNode, ElseNode, ForNode, SwitchNode, CaseNode, WithNode, HierNode'),
      ('switch state', 'kajiki/template.py:_Template._push_switch, _pop_switch, _case')])

prop('C08', 'py:with binds for its block only and restores afterwards',
     'The assignments of a py:with take effect left to right, each seeing the ones before, for exactly the enclosed '
     'content. After the block a variable that had a value before (from an enclosing py:with, loop, function '
     'parameter or Python block) has that value again, however blocks nest, repeat or recurse.',
     ['inputs', 'programs'],
     'every assignment list within the bound, every value, every nesting with loops, functions, conditions and blocks',
     'Tests check two fixed templates; restoring depends on nesting and on what the body does.',
     [I, T, X],
     [('assignment splitting', 'kajiki/ir.py:WithNode'),
      ('saving and restoring', 'kajiki/template.py:_Template._push_with, _pop_with')],
     'Known findings: context variables rebound by py:with in the same function; literals containing ;name= .')

prop('C09', 'Elements are serialised as the output mode requires',
     'In every mode each element is written once with its attributes: in XML an element with nothing in it as an empty '
     'tag, in HTML modes void elements without end tag and all others with both tags. Script and style content is '
     'output unescaped, wrapped in CDATA in XML mode unless disabled. py:strip removes exactly the two tags, '
     'py:content and py:replace exactly the content or the element.',
     ['inputs', 'programs', 'configurations'],
     'every element name, content kind, nesting, text inside scripts, mode and option within the bounds',
     'Tests check a few names in one mode; the cross product of names, emptiness, modes, options and text is what users rely on.',
     [X, I, H, D],
     [('start and end tags', 'kajiki/xml_template.py:_Compiler._compile_xml'),
      ('py:content, py:replace', 'kajiki/xml_template.py:_Compiler._compile_content'),
      ('void elements', 'kajiki/html_utils.py:HTML_OPTIONAL_END_TAGS, HTML_REQUIRED_END_TAGS'),
      ('CDATA', 'kajiki/xml_template.py:_Compiler._compile_xml')])

prop('C10', 'Template functions and py:call behave as Python functions and closures',
     'A template function called with any arguments binds its parameters as Python does, sees the variables of its '
     'place of definition, may recurse and call functions defined before or after it, and shows its body '
     'exactly where it is called. py:call gives the function its body, which may be shown any number of times '
     'with any arguments and sees the variables of the caller.',
     ['inputs', 'programs'],
     'every signature and call form, call graph, recursion depth, nesting and argument within the bounds',
     'Tests have three fixed functions; scoping, order of definition and repetition combine freely.',
     [I, X, T],
     [('functions', 'kajiki/ir.py:DefNode, InnerDefNode'),
      ('py:call', 'kajiki/ir.py:CallNode'),
      ('template functions', 'kajiki/template.py:TplFunc'),
      ('placing functions', 'kajiki/xml_template.py:_Compiler.compile')])

prop('C11', 'Inheritance picks the right definition at every level',
     'In any chain of templates extending one another a call f() or self.f() reaches the definition nearest the most '
     'derived template, local.f(), parent.f() and child.f() the nearest one at or above that level, and a block shows its '
     'most derived override, with parent_block() the next one up. What is not overridden comes from the '
     'ancestors; rendering one template never changes what another renders to.',
     ['inputs', 'programs', 'histories'],
     'every set of overrides at every level of chains up to four, every way and place of calling, every value, every order of renders',
     'Tests have chains of two with one override; the rules are about all combinations and depths.',
     [T, I, X],
     [('linking parent and child', 'kajiki/template.py:_Template._extend'),
      ('py:extends', 'kajiki/ir.py:ExtendNode'),
      ('py:block', 'kajiki/ir.py:DefNode, kajiki/xml_template.py:_Compiler._compile_block'),
      ('autoblocks', 'kajiki/xml_template.py:_DomTransformer')])

prop('C12', 'Composition: includes and imports behave as if written in place',
     'A py:include shows, exactly where it stands and as often as it is executed, what the included template renders to with the '
     'context of the page; py:import makes the functions of another template callable under its name or alias, and they '
     'output what they output at home. Each template keeps its own functions and blocks: equal names in '
     'the including page and in its parts do not disturb each other, at any depth and for XML and text templates in each other.',
     ['inputs', 'programs', 'configurations'],
     'every place of an include or import, nesting up to four templates, every choice of equal names, every value and static text around',
     'Tests include one file in one place; scoping and repetition only show in other compositions.',
     [T, I, X, L, TX],
     [('including', 'kajiki/ir.py:IncludeNode'),
      ('importing', 'kajiki/ir.py:ImportNode'),
      ('linking at run time', 'kajiki/template.py:_Template._include, _import'),
      ('loading', 'kajiki/loader.py:Loader.import_')])

prop('C13', 'Loaders find the right template, cache it, and notice every newer file',
     'A FileLoader returns the template of the first directory of its path that has it, of the kind its extension or '
     'the forced mode says, with the options given, read in the given encoding. Loading again gives the '
     'same template while the file is unchanged and, with reload on, the current content as soon as the file is newer, for pages and for their '
     'parents and parts. A missing or removed template is an IOError, never a stale or wrong page.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'every history of edits, removals and loads up to four steps with every order of modification times; every subset of directories '
     'having the file; every extension, option and mode; edits between looking at a file and reading it',
     'Tests do one edit with a fixed time stamp; staleness depends on the order of times and events.',
     [L],
     [('searching and caching', 'kajiki/loader.py:FileLoader'),
      ('packages', 'kajiki/loader.py:PackageLoader'),
      ('in-memory', 'kajiki/loader.py:MockLoader')])

prop('C14', 'Renders are independent of one another',
     'What a template renders to depends only on the template and the context it is given: not on earlier renders of it or of '
     'others, renders in progress at the same time, renders abandoned half-way or ended by an exception, or '
     'templates compiled in between. A render does not change the mapping it was given, and streaming gives the same text as render().',
     ['inputs', 'histories', 'schedules', 'fault_sequences'],
     'every construct, every pair of contexts, every interleaving point of two streams, every point of abandonment and of failure',
     'Tests render a fresh template once; leaked state needs a second render after a particular first one.',
     [T, U, I],
     [('state per render', 'kajiki/template.py:_Template.__init__'),
      ('streaming', 'kajiki/template.py:_Template.__iter__, kajiki/util.py:flattener'),
      ('switch and with stacks', 'kajiki/template.py:_Template._push_switch, _push_with')])

prop('C15', 'Tracebacks of rendering errors point at the template line',
     'When an expression or directive raises while a template is rendered, the innermost template frame of the traceback names the file of '
     'the template it was written in and the line it stands on (one of its lines if it spans several), wherever it '
     'is: content, attributes, directives, functions, call bodies, blocks, Python blocks, parents, included and imported templates, at any '
     'distance from other code. No frame shows generated code in place of the template.',
     ['inputs', 'programs', 'histories'],
     'every construct, every number and position of line breaks before it within the bounds, every one of several candidates failing, every '
     'iteration, every composition of files',
     'Tests only check that some frame mentions the file; lines are encoded as byte deltas that go wrong at particular distances and orders.',
     [N, T, I, X, TX],
     [('line tables', 'kajiki/lnotab.py'),
      ('mapping generated lines', 'kajiki/template.py:from_ir, TplFunc.annotate_lnotab'),
      ('lines of nodes', 'kajiki/xml_template.py:_TextCompiler, _Compiler._anno'),
      ('lines of tokens', 'kajiki/text.py:_Scanner')])

prop('C16', 'Text templates: text, expressions and directives mean what is documented',
     'A text template outputs its text unchanged (a backslash joins lines or quotes the next character, $$ is a dollar), each '
     'expression as the text of its value (None as nothing; escaped if autoescape is on), and its directives as the corresponding '
     'Python statements, nested in any way and written inline or on lines of their own. Directive lines leave nothing behind, {%- and -%} '
     'remove the spaces beside them and nothing else. Malformed directives and expressions are refused.',
     ['inputs', 'programs', 'configurations'],
     'every text, every value, every nesting of directives within the bound, every white space beside directives, every condition and sequence',
     'Tests have one or two fixed templates per directive; delimiting and white space depend on each neighbouring character.',
     [TX, I, T],
     [('scanning', 'kajiki/text.py:_Scanner, _pattern'),
      ('directives', 'kajiki/text.py:_Parser'),
      ('line joining', 'kajiki/text.py:_unescape_newlines')])

prop('C18', 'The doctype is kept, chooses the mode, and stays first',
     'A template\'s doctype is output once, first, as written; a known one selects the matching output mode '
     'unless a mode is given, an unknown one means XML, and none means XML with no doctype (HTML5 mode adds its own). '
     'Fragments and included or parent templates never put a second doctype in the page. Doctype-like text '
     'elsewhere is plain text.',
     ['inputs', 'programs', 'configurations'],
     'every spelling and spacing of the doctype, everything that may precede or follow it, every mode, every composition',
     'Tests use two doctypes written one way; a regular expression decides and depends on each character.',
     [X, D, T],
     [('finding the doctype', 'kajiki/doctype.py:extract'),
      ('writing it', 'kajiki/xml_template.py:_Compiler.compile'),
      ('modes', 'kajiki/doctype.py:DocumentTypeDeclaration')])

prop('C21', 'Invalid templates are refused with their file, line and source',
     'A template that is not well-formed, contains an invalid expression or a misplaced directive is refused when it is compiled, '
     'with an error that carries the file name and the line where the mistake is and quotes that line with its neighbours as they '
     'are written in the template, whatever doctype, comments, constructs and lines precede it. '
     'Nothing invalid is rendered as if it were text.',
     ['inputs', 'programs'],
     'every kind of mistake listed, every place and line within the bounds, every text on the quoted lines',
     'Tests try a handful of one-line templates; line numbers and quotes depend on all that precedes the mistake.',
     [X, T, TX],
     [('parse errors', 'kajiki/xml_template.py:_Parser.parse'),
      ('compile errors', 'kajiki/xml_template.py:XMLTemplateCompileError, _TextCompiler'),
      ('quoting', 'kajiki/xml_template.py:XMLTemplateError, kajiki/template.py:KajikiSyntaxError')])

prop('C17', 'Extracted messages are exactly the ones looked up when rendering',
     'The messages that extraction finds in an XML template are exactly the static texts that rendering passes to gettext, character for '
     'character, each with the line where it starts: every static text that is not blank, without the white space at its edges, and nothing '
     'else (no scripts, styles, comments, attributes or values). A translation is output in the place of its message as it is, whichever '
     'way gettext was provided and in whichever template of a page the text stands. Literal gettext calls in expressions are found on request.',
     ['inputs', 'programs', 'configurations'],
     'every static text and translation, all positions and constructs listed, all options, every way of providing gettext',
     'Tests translate three fixed words; a message that differs by one space or entity between extraction and rendering is silently '
     'left untranslated.',
     [N, X, I, T],
     [('extraction', 'kajiki/i18n.py:extract'),
      ('splitting of white space', 'kajiki/xml_template.py:_DomTransformer._extract_nodes_leading_and_trailing_spaces'),
      ('messages', 'kajiki/ir.py:TranslatableTextNode, kajiki/xml_template.py:make_text_node'),
      ('lookup', 'kajiki/template.py:_Template._gettext')])

prop('C20', 'Expressions are evaluated in document order, once, and only when reached',
     'Rendering evaluates every expression and directive of a template exactly once each time control reaches it, in document order, and nothing that '
     'is not reached; compiling evaluates nothing. Output is produced as it is taken: what precedes an expression has been delivered before it is evaluated, '
     'sequences are fetched item by item, and when an evaluation fails exactly what precedes it has been delivered. A value is asked for its '
     'text once, where it is shown.',
     ['programs', 'inputs', 'fault_sequences'],
     'all nestings of the constructs, all outcomes of conditions, every evaluation as the one that fails, every number of chunks taken',
     'Tests look at the final text of templates whose expressions have no effects, so evaluating twice, early or not at all goes unseen.',
     [I, X, T, U],
     [('order of the generated code', 'kajiki/ir.py'),
      ('compilation of directives', 'kajiki/xml_template.py:_Compiler'),
      ('streaming', 'kajiki/util.py:flattener, kajiki/template.py:_Template.__iter__')])

prop('C19', 'Templates written as Python functions render what their functions yield',
     'A template made of exposed Python functions outputs exactly the texts its functions yield, in order, however deeply functions yield the results of '
     'other functions, omitting None; rendering, iterating and calling a single function agree, and can be repeated. Arguments reach functions as in Python, functions find '
     'each other, the context and the built-ins by name, instances of one template do not share variables, and hand-written and compiled '
     'templates extend, include and import each other with the same results.',
     ['programs', 'inputs', 'schedules'],
     'all trees of yielded pieces within the bounds, every text, every way of passing arguments, every point of interleaving of two instances',
     'Tests use three fixed hand-written templates; the flattening of nested generators is only seen on one shape each.',
     [T, U],
     [('templates', 'kajiki/template.py:Template, _Template'),
      ('exposed functions', 'kajiki/util.py:expose, kajiki/util.py:flattener, kajiki/template.py:TplFunc'),
      ('inheritance', 'kajiki/template.py:_Template._extend')])

prop('C22', 'Python blocks, built-ins and names work in templates as they do in Python',
     'Python code in a template does what the same code does in a Python function, whatever its indentation, blank lines and comments and wherever in the template '
     'it stands; it outputs nothing but what it yields, and its variables are visible after it in the same function or page only. Module-level code (<?py %) is visible in the whole template. '
     'Names come from the context first, then the base globals, then the Python built-ins; an unknown name raises NameError. defined() tells whether a name is '
     'there, whatever its value; value_of() gives its value or the default.',
     ['programs', 'inputs', 'configurations'],
     'every value, all shapes of code and places listed, every indentation and blank line within the bounds, all combinations of where a name is defined and what it holds',
     'Tests contain two Python blocks with one indentation, and defined and value_of with one variable each.',
     [X, I, T, U],
     [('blocks', 'kajiki/xml_template.py:_Compiler._compile_pi, kajiki/ir.py:PythonNode'),
      ('indentation', 'kajiki/ir.py:PythonNode, PyLine'),
      ('built-ins', 'kajiki/template.py:_Template')])

prop('C23', 'Directives mean the same as attributes and as elements, in a fixed order',
     'A directive written as an attribute of an element means the same as the element wrapped in the directive, and several directives on '
     'one element nest in the fixed order def, call, case, else, for, if, with, replace, with strip, attrs and content acting on the element itself, in whatever '
     'order the attributes are written, wherever the element stands (root, child, after comments, inside other directives), and also on a directive element.',
     ['programs', 'inputs'],
     'all sets of up to three directives, all placements listed, every value, condition and sequence within the bounds',
     'Tests combine two directives on an element a few times; the order is decided by a table that each pair depends on.',
     [X, I],
     [('expansion', 'kajiki/xml_template.py:_DomTransformer._expand_directives'),
      ('order', 'kajiki/markup_template.py:QDIRECTIVES'),
      ('element directives', 'kajiki/xml_template.py:_Compiler')])
