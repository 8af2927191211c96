"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
T = "src/zope/tal/"
INT, GEN, HTM, XMLP, DEFS, DUM = (T + n for n in (
    "talinterpreter.py", "talgenerator.py", "htmltalparser.py", "talparser.py", "taldefs.py", "dummyengine.py"))


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))


prop("C01", "Static markup passes through compilation and rendering unchanged",
     "A template without any control markup renders to its own text: every character of text, comment, declaration, marked section, "
     "processing instruction and character reference is reproduced verbatim and every tag is reproduced with its attributes in "
     "source order and with the same values. The only permitted differences are normalisations: attribute values are "
     "double-quoted and escaped (an entity-like '&name;' in a value is kept), end tags that HTML lets authors omit are "
     "written out (before, not after, the trailing white space of the paragraph, list or table element they close), and in XML an element with no content is written as "
     "an empty-element tag and the namespace declarations of a tag come before its other attributes.",
     ["inputs", "configurations"], "every directive-free HTML or XML document (outside raw-text HTML elements), any element nesting, any attribute values",
     "The ~35 file tests compare a few fixed documents; the space of texts, attribute values and nestings that go through the text-merging optimizer is unbounded.",
     [GEN, HTM, XMLP, DEFS, INT],
     [("optimize/optimizeStartTag merge static runs into raw text", GEN + " TALGenerator.optimize"),
      ("unEmitWhitespace + implied end tags", GEN + " unEmitWhitespace, " + HTM + " implied_endtag"),
      ("attrEscape", DEFS)],
     observe=["text written to the output stream"])

prop("C02", "HTML nesting: implied end tags are inserted and misnesting is rejected",
     "For every HTML tag sequence the parser either produces output whose start and end tags are properly nested, "
     "inserting implied end tags exactly where the HTML rules for paragraph, list, definition-list and table elements "
     "call for them and closing what is still open inside an element when that is ended, or it raises a nesting error that carries and names the offending tag's position. End tags with no open element, end tags for "
     "empty elements, and block elements inside headings are always rejected, and an element carrying control "
     "attributes is never closed implicitly (except an empty element): that is a TAL or METAL error.",
     ["inputs"], "every sequence of start, end and self-closing tags over the HTML tag classes, with or without control attributes",
     "Tests fix about 20 tag sequences; the rule is a pushdown machine over seven tag classes whose decisions depend on the whole open-element stack.",
     [HTM],
     [("tag stack discipline", HTM + " handle_starttag/handle_endtag/close_para_tags/close_enclosed_tags/implied_endtag")],
     state=[("tagstack", "open elements, outermost first", HTM + " HTMLTALParser.tagstack")],
     observe=["rendered output", "exception class and position from parseString"])

prop("C03", "Control markup is recognised by namespace and never leaks to the output",
     "An attribute or element is control markup exactly when its prefix is bound, at that point of the document, to the "
     "TAL, METAL or I18N namespace (in HTML the three usual prefixes start out bound), or when it is an unprefixed "
     "attribute of an element in one of those namespaces. In a normal rendering no control attribute, no declaration of "
     "those namespaces and no tag of an element in those namespaces appears in the output, while "
     "attributes, declarations and elements of all other namespaces are reproduced with their own prefixes.",
     ["inputs"], "every HTML/XML document with arbitrarily nested (re)declarations of prefixes, including rebinding the usual prefixes",
     "Tests always use the conventional prefixes declared once; scoping and rebinding of prefixes across nesting levels is untested.",
     [HTM, XMLP, INT],
     [("namespace stacks", HTM + " scan_xmlns/pop_xmlns/fixname/process_ns; " + XMLP + " StartNamespaceDeclHandler/EndNamespaceDeclHandler/fixname/process_ns/xmlnsattrs"),
      ("suppression of control attributes at render time", INT + " do_startTag, do_optTag")],
     state=[("nsdict/nsstack", "prefix bindings in scope", HTM), ("nsDict/nsStack/nsNew", "URI bindings in scope", XMLP)],
     observe=["rendered output", "expressions evaluated"])

prop("C04", "Ill-formed control markup is rejected at compile time, with its position",
     "Compilation raises a TAL, METAL or I18N error for every unknown or duplicated control attribute, missing required value, "
     "forbidden combination of statements on one element, statement outside its required context (slot outside macro, "
     "fill-slot outside use-macro, i18n:name outside a translation unit), duplicate macro or slot name, malformed name, malformed argument and "
     "expression that the expression compiler rejects; the error carries the position of the offending element, and its text names it. Documents with none of "
     "these faults compile, and their compiled form can be rendered without an internal failure.",
     ["inputs"], "every combination of control statements per element and every nesting of the elements carrying them",
     "There are thousands of statement combinations per element and context-dependent rules; tests check about 30.",
     [GEN, DEFS, HTM, XMLP],
     [("emitStartElement/emitEndElement validation", GEN), ("compileExpression error translation", GEN), ("parseAttributeReplacements, _parseI18nAttributes", DEFS)],
     state=[("inMacroUse/inMacroDef/i18nLevel", "compile-time context", GEN)],
     observe=["exception class, lineno, offset from parseString"])

prop("C05", "Statement arguments are split and parsed the same way for every string",
     "The argument of define and attributes is split at single semicolons, a doubled semicolon stands for one literal semicolon, and "
     "a trailing semicolon adds no statement; each part yields exactly the scope keyword, name and expression text written in it. "
     "The argument of content, replace and on-error yields the text/structure mode and the remaining expression text, and repeat yields a name and an expression. "
     "Any argument not of the required form is rejected with a TAL error, and no character of an expression is lost or altered otherwise.",
     ["inputs"], "every argument string over names, keywords, white space, semicolons and expression characters",
     "String grammar over unbounded inputs (runs of semicolons, keyword-like names, newlines); tests use a handful of literals.",
     [DEFS, GEN],
     [("splitParts, parseAttributeReplacements, parseSubstitution", DEFS), ("emitDefines, emitRepeat, _parseI18nAttributes", GEN)],
     observe=["expressions handed to the expression compiler", "variable names set", "exceptions"])

prop("C06", "Statements on an element run in the fixed order, each exactly once",
     "For each visit to an element, its expressions are evaluated in the order define (left to right), condition, repeat, and then per "
     "iteration omit-tag, attributes (in the order they are written out) and content or replace, each exactly once. When the condition is false, the repetition is "
     "empty, or content/replace supplies a value, nothing inside the suppressed part is evaluated. Sibling elements are "
     "processed in document order.",
     ["inputs", "programs"], "every template and every sequence of values returned by the expression engine",
     "Tests compare final text with a side-effect free engine, so evaluation order, repetition of evaluation and evaluation in suppressed regions are invisible to them.",
     [GEN, INT],
     [("program nesting order in emitStartElement/emitEndElement", GEN), ("do_condition/do_loop_tal/do_optTag_tal/attrAction_tal/do_insertText_tal", INT)],
     observe=["sequence of evaluate* calls on the expression engine"])

prop("C07", "'nothing' and 'default' have their TAL meaning in every statement",
     "When an expression yields nothing, content and replace produce no text and an attribute is removed; when it yields default, "
     "content and replace leave the element's own content in place (still processed as a template), an existing attribute keeps its source value, an attribute not in the source is not "
     "added, and use-macro leaves the element itself in place. A boolean HTML attribute is written as name=\"name\" for a true value and omitted for a false one.",
     ["inputs", "programs"], "every statement kind, text or structure mode, HTML or XML, translated or not, at any nesting",
     "The value kinds x statement kinds x modes matrix is only sampled by the file tests.",
     [INT],
     [("Default/None tests in attrAction_tal, do_insertText_tal, do_insertI18nText_tal, do_insertStructure_tal, do_insertI18nStructure_tal, do_useMacro", INT)],
     observe=["rendered output"])

prop("C08", "Inserted values cannot inject markup and are recovered exactly",
     "Whatever string an expression yields, text inserted by content, replace or on-error and values of attributes set by attributes "
     "appear in the output with &, <, > (and the double quote in attribute values) escaped exactly once, so that a browser or XML parser reads back precisely the string that was "
     "supplied (up to an XML parser's own white-space normalisation) and never sees new markup. Static attribute values written back are escaped so that they too cannot end the "
     "attribute or the tag.",
     ["inputs"], "every string value, in text and attribute position, HTML and XML, with or without default/translated alternatives",
     "Universally quantified over strings and insertion points; tests insert a few fixed strings.",
     [INT, DEFS, GEN],
     [("_writeText", INT), ("quote, attrEscape", DEFS), ("optimizeStartTag", GEN)],
     observe=["rendered output"])

prop("C09", "Variable scopes nest with elements and are always unwound",
     "A local variable, repeat variable or attrs dictionary set for an element is visible from that statement on in the element and everything rendered inside it "
     "(including macros it uses and slots it fills) and nowhere else; when the element ends, normally or through a handled error, "
     "every variable has again the value it had before, except global definitions, which persist. Every scope opened on the engine during a "
     "rendering is closed again exactly once.",
     ["programs", "histories", "fault_sequences"], "every nesting of defines, repeats, macros, slots, translations and error handlers, with an error raised at any evaluation",
     "Tests never inspect the engine's scopes at intermediate points nor after errors raised at depth.",
     [INT, GEN],
     [("beginScope/endScope emission", GEN), ("scopeLevel, saveState/restoreState", INT)],
     state=[("scopeLevel", "number of scopes opened by the interpreter", INT), ("engine scope stack", "variables visible to expressions", "ITALExpressionEngine implementation")],
     observe=["variables visible at each evaluate* call", "engine scope depth at the end"])

prop("C10", "on-error replaces the failed element atomically and rendering continues",
     "If anything raises while an element with on-error is rendered, none of the element's partial output appears, its start tag with the original static "
     "attributes, the handler's value and its end tag are output instead, the handler sees the error object, "
     "and everything after the element renders exactly as if the element had not failed; if nothing raises the handler "
     "is not evaluated. The innermost enclosing on-error handles an error; an error in a handler goes to the next one out; an "
     "error outside every on-error reaches the caller unchanged.",
     ["fault_sequences", "programs"], "every template, every evaluation at which an error is raised (including inside macros, slots, loops, translations and captured output), every sequence of such errors",
     "Fault points multiply with nesting; tests raise in one or two fixed places and look only at simple output.",
     [INT, GEN],
     [("do_onError_tal, saveState/restoreState/restoreOutputState", INT), ("emitOnError", GEN), ("exception safety of useMacro/insertTranslation/i18nVariable/evaluateCode/defineSlot", INT)],
     state=[("stream/_stream_stack", "where output currently goes", INT), ("macroStack, i18nStack, i18nContext, inUseDirective, sourceFile", "interpreter context to be unwound", INT)],
     observe=["rendered output", "engine call sequence", "exception reaching the caller"])

prop("C11", "use-macro expands the macro and fills its slots",
     "use-macro replaces the element by the macro's element; each define-slot in the macro is replaced by the fill-slot element of the same name given by the use, or else renders its own "
     "content, and fill-slots for unknown slots are ignored. Through extend-macro, a slot takes the filler of the extending macro nearest to "
     "the defining one, else of the next use outward, and fillers never reach slots of unrelated macros used inside; a filler is itself rendered with the slots of the template that "
     "wrote it. Everything else inside the use-macro element has no effect, and a macro rendered in place renders like ordinary markup.",
     ["programs", "inputs"], "every system of macros, uses, extensions, slots and fillers, nested to any depth, in HTML and XML",
     "The slot lookup walks a mutable stack whose shape depends on nesting, extension and fillers that use further macros; tests cover a few 2-level systems.",
     [INT, GEN],
     [("do_useMacro/do_extendMacro/do_defineSlot/pushMacro/popMacro", INT), ("emitUseMacro/emitExtendMacro/emitFillSlot/emitDefineSlot", GEN)],
     state=[("macroStack", "active macro uses with their fillers", INT), ("slots/slotStack, inMacroUse", "compile-time filler collection", GEN)],
     observe=["rendered output", "engine call sequence"])

prop("C12", "Macro-expansion-only rendering keeps TAL intact and evaluates nothing",
     "With TAL disabled, rendering expands macros but evaluates no TAL expression, sets no variable, translates nothing, and writes all TAL attributes "
     "and TAL elements back unchanged; repeats, conditions and contents appear once in source form. With TAL enabled and showing requested, control attributes are kept "
     "in the output but still take effect. A first-level use keeps the METAL attributes needed "
     "to re-expand it (use-macro for the macro element, fill-slot for its slots) while deeper METAL attributes are dropped.",
     ["programs", "configurations"], "every template and macro system under the tal/metal/showtal options",
     "One file comparison test exists; the attribute rewriting depends on a mutable per-use flag and stack depth.",
     [INT],
     [("attrAction, do_optTag, non-TAL handler table", INT)],
     state=[("macroStack[..].entering", "whether the macro's own element is still to be written", INT)],
     observe=["rendered output", "engine call sequence"])

prop("C13", "Translation units send the right message and insert its translation",
     "For each translation unit the engine is asked exactly once to translate: the message id is the explicit one or else the unit's rendered content with "
     "white space collapsed (kept verbatim in HTML pre), in which every named sub-element is replaced by ${name}; the default is the unit's rendered content; the mapping "
     "holds exactly the rendered text (with the same treatment of white space) of that unit's own named sub-elements plus i18n:data. The result replaces the unit's content verbatim. Translated attributes and Message values are "
     "translated likewise, and attribute translations are quoted; with interpolation off, the message id itself is output.",
     ["inputs", "programs", "fault_sequences"], "every nesting of translation units, named parts, dynamic content, conditions, repeats and handled errors",
     "Nested units share a stack of dictionaries and captured streams; tests use fixed one- or two-level examples and an upper-casing translator.",
     [INT, GEN],
     [("do_insertTranslation, do_i18nVariable, translate, normalize", INT), ("emitTranslation, emitI18nVariable", GEN)],
     state=[("i18nStack", "mapping under construction per open unit", INT)],
     observe=["engine.translate(msgid, domain, mapping, default) calls", "rendered output"])

prop("C14", "The translation domain in effect follows i18n:domain scoping",
     "Every translation request made for markup carrying i18n statements uses the domain of the innermost enclosing i18n:domain in its own template source when there is one, "
     "also when that markup is rendered as a slot filler or macro inside another template; markup under no i18n:domain uses the "
     "domain in effect where it is rendered, initially 'default' (markup that only states the source or target language counts as stating the domain 'default'). When the element ends, normally or by a handled error, the previous domain is in effect again.",
     ["programs", "fault_sequences"], "every nesting of i18n:domain with macros, slots, units and error handlers",
     "Tests use single-domain templates without macro boundaries or errors.",
     [GEN, INT, T + "translationcontext.py"],
     [("beginI18nContext emission rule", GEN + " emitStartElement"), ("do_beginI18nContext/do_endI18nContext, restoreState", INT), ("TranslationContext inheritance", T + "translationcontext.py")],
     state=[("i18nContext", "current translation context", INT)],
     observe=["domain argument of engine.translate"])

prop("C15", "Structure insertion inserts exactly the given markup, or fails",
     "With strict insertion, text inserted as structure is parsed as HTML or XML according to the template's mode: malformed markup raises an error, well-formed markup appears with the "
     "same normalisations as template source, control markup inside it is never executed, and attributes given with replace are applied to its first "
     "element only. With lenient insertion and no such attributes it is written verbatim. Insertion never changes how the rest of the template is rendered.",
     ["inputs", "programs", "configurations"], "every fragment, in HTML and XML templates, strict or lenient, with or without attribute replacement, followed by any further template content",
     "Tests insert a few well-formed strings at the end of templates; mode leakage, first-element rule and repeated insertion are untested.",
     [INT],
     [("do_insertStructure_tal, do_insertI18nStructure_tal, insertHTMLStructure, insertXMLStructure, AltTALGenerator", INT)],
     state=[("html/endsep", "current output mode", INT), ("AltTALGenerator.repldict", "attribute replacements still to apply", INT)],
     observe=["rendered output", "exceptions"])

prop("C16", "A compiled template can be rendered repeatedly and concurrently",
     "Rendering never modifies a compiled program or its macros: any sequence of renderings of one compiled template, successful or failing, "
     "with any engines and options, and any interleaving of concurrent renderings of it, gives each rendering exactly the result it would have if it were "
     "the only one. In particular every iteration of a loop and every use of a macro sees the same compiled form.",
     ["histories", "schedules"], "every finite sequence and every interleaving (at engine-call granularity) of renderings sharing compiled programs",
     "Every test compiles anew and renders once.",
     [INT, GEN],
     [("programs are plain shared lists/dicts, copied nowhere", GEN + " getCode"), ("handlers must not mutate their arguments", INT)],
     state=[("program, macros, compiled slots, attribute dictionaries", "shared compiled form", GEN)],
     observe=["outputs and engine calls of each rendering", "deep comparison of program and macros before and after"])

prop("C17", "Expressions are evaluated with the right source file and position",
     "For templates compiled with a source file name, whenever an expression is evaluated the engine has been told the file that contains the statement, and, "
     "for the first evaluation of each statement of an element in a visit (or in the first iteration of a repeated element), the line and column of "
     "that element's start tag, also inside macros, slot fillers and after macros, slots, translations and handled errors have ended. The error object passed to on-error carries the position current when the error occurred.",
     ["programs", "fault_sequences"], "every template system with macros, slots, extensions, loops and errors",
     "One test checks four positions in one fixed template system.",
     [GEN, INT],
     [("setPosition/setSourceFile emission", GEN), ("do_setSourceFile/do_setPosition, do_useMacro restore, restoreState, do_onError_tal", INT)],
     state=[("position, sourceFile", "what the engine was last told", INT)],
     observe=["engine.setPosition/setSourceFile state at each evaluate* call", "createErrorInfo position"])

prop("C18", "Source annotations only add comments, and name the right source",
     "With source annotations on and wrapping off, the output with the annotation comments removed equals the output with annotations off, and the same messages are translated and the same code is run. "
     "No annotation precedes the XML declaration, the first non-blank output of the template is annotated, and whenever output changes to "
     "another source file's markup (entering a macro or filler, returning from a slot or macro) the next non-blank text that is output is preceded by one annotation naming that file and the current line.",
     ["programs", "configurations"], "every template system with macros and slots, HTML and XML, with on-error, omitted tags, translation units and inline code",
     "Nine file tests; the pending flag interacts with every place that swaps the output stream.",
     [INT],
     [("_annotated_stream_write, pending flag handling in push/pop/restore", INT), ("setSourceFile emission", GEN)],
     state=[("_pending_source_annotation/_stream_write", "annotation due before next text", INT)],
     observe=["rendered output with sourceAnnotations on and off"])

prop("C19", "Attribute wrapping changes only white space between attributes",
     "For every wrap width the output differs from the unwrapped output only in that some single spaces between attributes of one tag are replaced by a newline and "
     "indentation; a break is made before an attribute exactly when it would otherwise extend past the width (counting columns from the last newline written) and the break gains room, and with wrapping off no break is ever made. "
     "Tags without dynamic attributes are never broken.",
     ["inputs", "configurations"], "every template, attribute list, starting column and wrap width",
     "One test with one width; column tracking runs through every output operation.",
     [INT, GEN],
     [("do_startTag column arithmetic", INT), ("column operands of raw text instructions", GEN + " optimize")],
     state=[("col", "current output column", INT)],
     observe=["rendered output for different wrap values"])

prop("C20", "Message extraction records every translatable message of a template",
     "Extracting messages from a template records, under the domain in effect, every message id that its translation units and translated attributes contain, regardless of conditions, repetitions and macro use "
     "in the template, with one location per occurrence in document order giving the position of the element, and the default text when it differs from the id. Dynamic parts appear as ${DYNAMIC_CONTENT}, and "
     "conflicting defaults for one id produce a warning, never a failure.",
     ["inputs"], "every template with static i18n markup; content replaced by an expression and macro definitions in other files are not visited",
     "Four tests on fixed snippets.",
     [T + "talgettext.py", INT],
     [("POTALInterpreter.translate, POEngine.translate/evaluate*", T + "talgettext.py")],
     state=[("catalog", "domain -> message -> locations", T + "talgettext.py")],
     observe=["POEngine.catalog after interpretation", "warnings"])

prop("C21", "The bundled engine keeps variables and loops straight over any history",
     "In the bundled expression engine, after any history of scope, assignment and loop operations, evaluating a variable gives the value of the innermost open local assignment, else the global "
     "one, else an error; closing a scope restores exactly the locals at its opening and keeps globals; closing more scopes than were opened is refused. A loop visits each item of its "
     "sequence once, in order, binding it locally, and the other expression types (not, exists, string, python, position, alternatives) are computed from those values. Translations substitute the mapping into the (upper-cased or domain-transformed) message.",
     ["histories"], "every finite sequence of beginScope/endScope/setLocal/setGlobal/setRepeat/next/evaluate operations",
     "The engine is exercised only incidentally by template tests; its copy-on-first-write scope merging is history dependent.",
     [DUM],
     [("locals/stack copy-on-write", DUM + " DummyEngine.beginScope/endScope/setLocal"), ("Iterator", DUM), ("DummyTranslationDomain.translate", DUM)],
     state=[("locals, globals, stack", "variable environment", DUM)],
     observe=["return values of evaluate/getValue/next/translate"])

prop("C22", "attributes statements change the named attributes and nothing else",
     "An element's output attributes are its source attributes in source order, each replaced in place if a tal:attributes or i18n:attributes statement "
     "names it, followed by attributes only named in the statements, in alphabetical order; every other attribute is reproduced unchanged. Names are matched case-insensitively in HTML and exactly in XML. "
     "An attribute named in i18n:attributes is translated once, from its message id if given or else from its value after any replacement.",
     ["inputs", "programs"], "every element, attribute list, statement list and value kind",
     "Combinations of source attributes, replaced, inserted, translated and suppressed ones are unbounded; tests have a few.",
     [GEN, INT, DEFS],
     [("replaceAttrs, emitStartElement repldict construction", GEN), ("attrAction_tal", INT)],
     observe=["rendered output", "order of evaluate*/translate calls"])

prop("C23", "repeat renders the element once per item, in order, with its leading newline",
     "A repeated element is output once for every item the engine's iterator yields, in order, each copy "
     "preceded by the newline and indentation that preceded the element in the source and seeing its own item in the loop variable; with no items (or a false condition) "
     "neither the element nor that newline and indentation appears, and text around the element is otherwise unaffected. Nested and repeated-inside-macro loops are independent.",
     ["inputs", "programs"], "every template and every sequence length at each loop entry",
     "White-space motion at compile time depends on the preceding text and neighbouring constructs; tests fix a handful.",
     [GEN, INT],
     [("unEmitNewlineWhitespace, emitRepeat", GEN), ("do_loop_tal", INT)],
     observe=["rendered output", "loop variable at each evaluation"])

prop("C24", "Macro use is guarded by version, mode and nesting limit",
     "A macro compiled by another language version or for the other output mode, or something that is not a compiled macro, is refused with a METAL error instead of "
     "being rendered, while a current macro of the same mode is always accepted. Macro uses nested deeper than the stack limit raise a METAL error and uses up to the limit do "
     "not, and completed or failed uses do not count towards the limit afterwards.",
     ["programs", "histories", "fault_sequences"], "every nesting depth and limit, every sequence of completed and failed uses, every malformed program header",
     "Tests check one wrong version and one wrong mode; limits and leaks over histories are untested.",
     [INT, DEFS],
     [("pushMacro/popMacro, do_useMacro", INT), ("isCurrentVersion/getProgramMode/getProgramVersion", DEFS)],
     state=[("macroStack", "active macro uses", INT)],
     observe=["exceptions", "rendered output"])

prop("C25", "A template compiles the same however it is supplied",
     "An XML template given as text, as bytes in its declared encoding, as a stream read in pieces, by file name or by URL, and an HTML template given as text or by file name, compile to a "
     "template that renders identically with the same reported positions, or are refused with the same error at the same position. The bundled driver and the bundled engine's macro lookup "
     "give that same template, choosing HTML or XML by the file's extension unless told otherwise. An error in the statements of an HTML file names that file.",
     ["inputs", "configurations"], "every template, every declared encoding able to hold it, every way of supplying it and every size of the pieces read",
     "Tests parse small ASCII strings or read one file in one way.",
     [T + "xmlparser.py", HTM, XMLP, T + "driver.py", DUM],
     [("parseString/parseFile/parseURL/parseStream", T + "xmlparser.py"), ("parseFile", HTM), ("compilefile", T + "driver.py"), ("findMacroFile/evaluateMacro", DUM)],
     observe=["rendered output", "expression engine calls", "source positions", "compile errors"])

prop("C26", "The driver's command prints what its options ask for",
     "For every template file whose expressions the bundled engine understands and every combination of options, the driver's command prints exactly the rendering of that file with the bundled "
     "engine: with macro expansion only, shown TAL, lenient insertion, shown placeholders and annotations each switched on just when its option is given, and never with wrapped tags. "
     "Asked to show the program, it prints the compiled program and renders nothing. Rendering through the driver with an engine and a stream of the caller's asks that engine and writes to that stream, with "
     "the same meaning of the options.",
     ["inputs", "configurations"], "every template file, every combination of the driver's options in every order and spelling, and macros from the same and from another file",
     "Tests run a handful of fixed files with one or two options.",
     [T + "driver.py", INT, DUM],
     [("main/interpretit/showit", T + "driver.py"), ("__init__", INT), ("evaluateMacro", DUM)],
     observe=["standard output of the command", "rendered output", "expression engine calls"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
