"""Writes properties.jsonl (kept as code so that the texts stay reviewable)."""
import json, pathlib
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ["BicepParser.parse return value"],hook_needed=None)))
T="pycep/transformer.py"; G="pycep/bicep.lark"; F="pycep/rules/functions.py"; D="pycep/rules/decorators.py"; M="pycep/main.py"; U="pycep/utils.py"; Y="pycep/typing.py"; MO="pycep/models.py"; V="pycep/validator.py"

p("C01","Parse results contain only plain data",
 "A successful parse returns a tree made only of dicts with string keys, lists, strings, integers, booleans and None, where the only permitted string subtype is the published identifier marker. No parser token, syntax tree, tuple or internal bookkeeping entry is ever reachable from the result, whatever constructs the file combines.",
 ["inputs"],"every combination of language constructs, nested to any depth",
 "Parser tokens are str subclasses that compare equal to plain strings, so the equality-based golden tests cannot see one leaking; and a golden file samples one nesting per construct.",
 [T,G,F,D,U],[("conversion of every grammar production to plain values",T+": all callbacks"),("function/decorator builders",F+", "+D)])
p("C02","Identifiers are distinguishable from literals everywhere",
 "Wherever an expression is a bare identifier the result holds the published identifier type, and wherever it is a string literal (quoted, interpolated or multi-line) the result holds a plain string that is not of that type; an integer becomes the int of the same value, true, false and null become True, False and None. This holds in every position an expression can occur: defaults, values, array items, object values, function and decorator arguments, operands, loop sources, conditions and lambda bodies.",
 ["inputs"],"every expression position x every literal/identifier form, with arbitrary spelling",
 "The identifier type compares equal to a plain string, so golden comparisons pass with either; tests sample only a few spellings per position.",
 [U,MO,T,G],[("token-kind based conversion",U+": transform_string_token"),("string/int/true/false/null callbacks",T)])
p("C03","String literals keep their exact content",
 "A string literal's value in the result is exactly the source text between its delimiters: a single-quoted literal (including escapes and ${...} interpolation) loses only its two quotes, and a multi-line literal loses only its triple quotes and a line break directly after the opening ones. No other character is added, dropped, trimmed or altered, for any content, including empty strings, quotes, backslashes, comment markers and non-ASCII text. An object key is recorded as it is written, a quoted one with its quotes.",
 ["inputs"],"every literal content, every kind of literal, in every expression position and as object key, type, path or scope",
 "The set of contents is infinite; tests use a few dozen benign strings, without leading/trailing quotes, blanks, comment markers, escapes at the end or CRLF.",
 [U,G,T],[("quote removal",U),("string terminals",G+": QUOTED_STRING, QUOTED_INTERPOLATION, MULTI_LINE_STRING")])
p("C04","Every declaration is recorded in its own section with all its parts",
 "Each target scope, metadata, parameter, variable, output, resource, module, type, function, extension and import statement appears under its own section, keyed by its declared name, with every part the author wrote (decorators, data type, default, value, existing flag, alias, configuration, arguments) stored unchanged under its own field. Parts that were not written get the documented empty value, and a part that is merely falsy (0, false, '', null, {} or []) is never treated as not written.",
 ["inputs"],"every statement kind x every subset of optional parts x every value of each part",
 "Optional-part combinations and falsy values are sampled only sparsely by the golden files; a part swapped or dropped for one combination passes the suite.",
 [T,G],[("statement callbacks",T+": scope, custom_import, extension, metadata, param, var, output, resource, module, custom_type, custom_func")])
p("C05","No statement of a file is lost, merged or moved",
 "The result contains exactly one entry per declaration of the file, in the section of its kind, independent of how many declarations there are, of their order and of the other declarations present; declarations of different kinds may share a name without affecting each other. Nothing that is not declared appears, except the default resource-group scope, which is present exactly when the file sets no scope itself.",
 ["inputs"],"every sequence of declarations of every kind and length",
 "Orders, counts and cross-kind combinations are unbounded; tests fix one order per file.",
 [T],[("document aggregation",T+": start"),("import/child accumulators",T+": __init__, custom_import, process_child_resource")])
p("C06","Decorators are attached completely, in order, with their argument",
 "Every decorator written on a declaration appears exactly once in that declaration's decorator list, in source order, and on no other declaration, with the argument it was given, whatever that value is. A decorator written with the sys. prefix gives the same entry as without it, the numeric bounds keep the sign they were written with, and a decorator unknown to the library is kept under its own name with its argument.",
 ["inputs"],"every decorator name x argument value x number of decorators x declaration kind",
 "Tests use each decorator once, with a typical argument; negative bounds, falsy arguments, long stacks and sys. aliases are not combined.",
 [D,T,G],[("decorator table",D+": DECORATORS"),("decorator callbacks",T+": decorator, decorators")])
p("C07","Every built-in function argument is bound to its documented parameter",
 "For every built-in function and every permitted number of arguments, each argument appears exactly once, unchanged, under the parameter its position stands for, and optional parameters that were not given are None or absent as documented. Which parameter an argument is bound to depends only on the function and the number of arguments, never on the argument's value.",
 ["inputs"],"every built-in function x every permitted argument count x every argument value",
 "Each function is tested with one or two calls and non-empty arguments; branches on argument count or truthiness are only sampled.",
 [F,T,G],[("function builders and table",F),("function callback",T+": function")])
p("C08","Namespaced, unknown and user-defined calls are recorded faithfully",
 "A built-in called through its namespace (sys. or az.) yields the same result as the plain call. A call to any other function name, built-in namespace or not, is recorded under exactly the name as written with all arguments in order, and never as some other function.",
 ["inputs"],"every function name, with and without namespace, x every argument count and value",
 "Names are unbounded and only about a dozen namespaced calls are tested.",
 [F,T,G],[("FUNCTIONS table and UNKNOWN_FUNCTION",F),("FUNCTION terminal",G)])
p("C09","Operators are recorded with the right kind and operands",
 "Each operator of the language yields its own documented operator kind, with its operands unchanged in source order under the documented operand names, for any operand values. Operands that are zero, false, null or empty are kept like any other, and accessor calls keep their function name and all arguments.",
 ["inputs"],"every operator x every operand value and kind",
 "Tests fix operands per operator; operand kinds and falsy operands are not crossed with operators.",
 [T,G],[("operator callbacks",T+": operator ... property_accessor"),("operator productions",G)])
p("C10","Grouping of operators follows parentheses and Bicep precedence",
 "An operand written in parentheses is grouped exactly as written. Without parentheses operators group by Bicep's precedence and associativity, so that the recorded operand tree is the one the Bicep compiler would evaluate.",
 ["inputs"],"every ordered pair of operators, parenthesised and not",
 "There are several hundred operator pairs; tests contain a handful.",
 [G],[("operator productions and their resolution in the LALR table",G)])
p("C11","Nested child resources are lifted out with the right parentage",
 "A resource declared inside another resource becomes an entry of its own whose name is prefixed with its parent's, whose type extends the parent's type, whose API version is inherited, and which depends on its parent; this holds at every nesting depth and whether or not parent or child is conditional. The parent's own configuration keeps all its other content and no trace of the child, and an existing dependency list of the child keeps its entries.",
 ["inputs"],"every nesting depth, position and combination of conditional/looped/existing parents and children",
 "Golden files nest at most two levels with unconditional resources.",
 [T,G],[("child extraction",T+": process_child_resource, child_resource, resource"),("child_resource production",G)])
p("C12","Loops, conditions and lambdas keep all their components",
 "A loop is recorded with its item name, index name, source expression, filter condition and body; a conditional deployment with its condition and configuration; and a lambda with its variables and body, each unchanged and in its own field. This holds for every expression used as source, condition or body and in every place loops, conditions and lambdas are allowed.",
 ["inputs"],"every loop form x every place x every source/condition/body expression",
 "Tests use identifier or call sources and a single body form per place.",
 [T,G],[("loop, deploy_condition, lambda_expression callbacks",T),("loop productions",G)])
p("C13","Line numbers point at the statement that was written",
 "With line numbers enabled every recorded declaration carries the 1-based first and last line of its own source text, counting decorators as part of the declaration, independent of blank lines, comments and statements around it; the implicit default scope carries 0. With line numbers disabled no line information appears, and the rest of the result is identical in both modes.",
 ["inputs","configurations"],"every declaration kind x layout (any number of lines before, inside and after) x both modes",
 "Golden files check one layout per construct; offsets from blank lines or comments after child resources or imports are not varied.",
 [T,G],[("meta based line assignment",T),("propagate_positions",M),("trailing newline handling",G+": child_resource")])
p("C14","Module and resource references are classified and split exactly",
 "A module reference is classified by its prefix as public or private registry, registry alias, template spec, template spec alias or local path, and a well-formed one is split so that its recorded pieces are exactly the corresponding pieces of the text; a reference with a registry or template-spec prefix that is malformed is rejected with an error instead of being recorded with pieces missing. A resource type is split at its @ into type and API version, both complete.",
 ["inputs"],"every reference text",
 "The set of references is infinite; tests use one well-formed example per class and none that is malformed.",
 [T],[("module_path patterns",T+": module_path and *_PATTERN constants"),("type_api_pair",T)])
p("C15","Entry points accept one source, validate it first and surface errors",
 "Both entry points require exactly one of text and file path, read the file as UTF-8, and reject a source with unbalanced triple quotes or a text the grammar has no reading for by raising, as parsing does for an unknown target scope; they never return a partial or empty result instead. For the same content (with plain line feeds) both ways of supplying it give the same result, an empty document included.",
 ["inputs","configurations"],"every combination of the entry arguments and every content",
 "Tests try two wrong-argument combinations and one invalid file per entry point.",
 [M,V,T],[("_create_tree",M),("BicepValidator.is_valid",V),("VALID_TARGET_SCOPES",T)])
p("C16","Parses are independent of each other",
 "The result of a parse depends only on the source and the parser's options, never on what the same or another parser instance parsed before, including parses that failed, nor on what other threads parse at the same time. Results share no mutable state with each other, with the library or between their own parts, so changing a returned result affects nothing else.",
 ["histories"],"every sequence of parses on any parser instances and every later mutation of a returned result",
 "Tests parse once per assertion with a shared parser and never mutate or re-parse.",
 [T,M,F,D],[("fresh transformer per parse",M+": parse"),("no module-level mutable state written",T+", "+F+", "+D)])
p("C17","Parsing has no side effects besides reading its input",
 "Parsing reads nothing but the given file and the library's own grammar, and writes, deletes or executes nothing, changes no environment or interpreter setting and opens no connection; names, paths and code inside the Bicep source are never opened, imported or evaluated. The only file the library may write is the parser cache its cache option stands for.",
 ["inputs","configurations"],"every source content and option, over all code reachable from the entry points",
 "A test cannot observe the absence of effects for all inputs; Bicep sources name files, modules and functions that must never be followed.",
 [M,T,F,D,U,V],[("pure conversion code reachable from the entry points","pycep/*")])
p("C18","Results conform to the published result types",
 "Every dict in the result has the keys, literal tags and value types that the library's published typed dictionaries promise for that construct: required keys are always present and no undeclared key appears, for every statement, function, operator, decorator, module path and data type. The numbered parameters of functions with any number of arguments, and the kinds of values an expression-valued field can hold, are not part of the promise.",
 ["inputs"],"every construct x every optional-part combination and argument count",
 "Typed dicts are not enforced at run time, and tests compare values with golden files written from the code's own output.",
 [Y,T,F,D],[("published TypedDicts",Y),("result construction",T+", "+F+", "+D)])
p("C19","Scanning time cannot blow up exponentially",
 "No pattern used to scan or split source text can take time exponential in the length of the input on any text, whether or not the text matches; a malformed or hostile file is rejected in reasonable time.",
 ["inputs"],"every text, over every terminal and module-path pattern",
 "Exponential backtracking only shows on adversarial texts, which the suite lacks; a timing test samples texts, the ambiguity argument covers all.",
 [G,T],[("terminal regular expressions",G),("module path patterns",T)])
p("C20","Data types are recorded exactly",
 "A declared data type is recorded as its name, as an array wrapper once per array suffix around its item type, or as a union listing every member in source order, for any nesting of these and in every place a type can be written. A union of literals in a type statement keeps every alternative in order.",
 ["inputs"],"every nesting of names, unions and array suffixes in every typed position",
 "Tests contain a few shallow types in two positions.",
 [T,G],[("data_type, base_type, union_type, array_suffix, type_value callbacks",T),("data type productions",G)])
p("C21","Comments and layout do not change the result",
 "Adding, removing or rewording comments, blank lines, indentation or trailing blanks at places where the parser accepts them leaves the result unchanged (apart from line numbers), for any comment text, including one that looks like code, strings or quotes. Every place the parser accepts a comment or line break today keeps accepting it in the amounts it accepts today: any number in most places, exactly one in some. A line break between two items of an array separates them, and a comment whose triple quotes make the text unbalanced is outside of this property.",
 ["inputs"],"every accepted layout position x every comment text x any number of repetitions",
 "Comment texts, positions and counts are unbounded; golden files carry few comments.",
 [G],[("ignored terminals and newline handling",G+": %ignore, _CPP_COMMENT_NL")])
p("C22","Every Bicep identifier can be used wherever a name is expected",
 "Any Bicep identifier (letter or underscore, then letters, digits and underscores) that is not a reserved word (null, true, false; for directly behind the opening bracket of an array; sys and az directly in front of a dot, where they are namespaces) is accepted and recorded letter for letter as the name of every kind of declaration, as alias, loop variable, lambda variable, function parameter, object key, property, data type and expression. In particular identifiers that start with or contain a keyword, a namespace prefix or a function name are not split or reinterpreted.",
 ["inputs"],"every identifier spelling x every name position",
 "Identifier spellings are infinite; only the common ones occur in tests.",
 [G,T],[("STRING terminal, keyword terminals and contextual lexing",G)])
p("C23","Every accepted file converts without an internal error",
 "Once a text is accepted by the grammar its conversion succeeds, for every construct, nesting and argument value the grammar lets through; the only errors conversion may raise are the documented rejections of an unknown target scope, a malformed module reference or resource type, and a call or decorator that has an argument count its name does not permit. Limits of the interpreter (recursion depth, integers of more than 4300 digits) are outside of this property.",
 ["inputs"],"every derivation of the grammar",
 "The grammar accepts far more shapes than the examples contain; a missing or too narrow conversion step only shows on the shape nobody sampled.",
 [T,G,F,D],[("one conversion step per production",T),("argument unpacking",T+", "+F+", "+D)])
pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(x)+"\n" for x in P))
