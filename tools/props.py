#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})

T = "src/token.cpp"
prop("C01", "Tokenizing covers the whole text, in order, or reports an error",
     "For every byte string, tokenizing either fails with a runtime error or returns tokens whose [begin,end) ranges are non-empty, in text order and disjoint, followed by exactly one end marker. Every byte outside the ranges is white space or the r/R/re/RE prefix of the string literal that follows, so no input (including NUL and non-ASCII bytes) is silently dropped. Tokenizing always terminates and never reads outside the text.",
     ["inputs"], "all byte strings of every length", "the tests tokenize a few dozen fixed ASCII strings and look at types and values, at locations only for one",
     [T, "include/simfil/token.h"], [("scanner advances through the text", T + ": Scanner, tokenize"), ("scan functions", T + ": scanWord, scanStringLiteral, scanNumber, scanSyntax")], observe=["tokenize()"])
prop("C02", "Every piece of text gets the one token type the language defines",
     "Operators and punctuation are recognised by longest match and each spelling yields its own operator ('<<' left shift, '>>' right shift, '=' same as '=='). Keywords are recognised in any letter case and only as whole words; every other identifier is a word with exactly its characters after removing escapes. The textual name of an operator or keyword token type tokenizes back to that type.",
     ["inputs"], "all texts, all token types", "the tests list some spellings, not prefixes, letter cases, neighbours or the inverse mapping",
     [T], [("operator table", T + ": scanSyntax"), ("keyword table", T + ": scanWord"), ("names", T + ": Token::toString")], observe=["tokenize()", "Token::toString"])
prop("C03", "String and regexp literals denote exactly the quoted characters",
     "A quoted literal yields the characters between its quotes with escapes decoded: \\n, \\r, \\t are control characters and any other escaped character stands for itself. In raw (r/R) and regexp (re/RE) literals a backslash is kept as it is, except before the closing quote character which it makes part of the text. A literal without closing quote is an error, never a shortened string.",
     ["inputs"], "all literal contents, both quote characters, all prefixes", "the tests use a handful of literals",
     [T], [("literal scanner", T + ": scanStringLiteral")], observe=["tokenize()"])
prop("C04", "Integer literals have their exact value or are rejected",
     "A decimal, hexadecimal (0x) or binary (0b) integer literal yields its exact mathematical value. A literal whose value does not fit into a signed 64-bit integer, a base prefix without digits and a digit outside the base are errors. Exponent or fraction make a decimal literal a float, except that an exponent of zero keeps it an integer.",
     ["inputs"], "all digit strings of every length", "the tests sample small values and never reach the 64-bit limit",
     [T], [("number scanner", T + ": scanNumber")], observe=["tokenize()"])
O = "include/simfil/operator.h"
prop("C05", "Comparison operators behave consistently for every pair of values",
     "Comparing any two scalar values never fails: == of values of different, non-numeric kinds is false and != is true, ordering comparisons of incompatible kinds are false, and null equals only null. For the same operands != is the negation of ==, > is < and >= is <= with the operands swapped, and for numbers, strings and null <= is (< or ==); an integer and a float compare as floats. For two integers, two floats (not NaN) or two strings exactly one of <, ==, > holds. Booleans have equality but no order.",
     ["inputs"], "all pairs of values of every scalar kind", "the tests compare a few pairs of small numbers and strings",
     [O, "include/simfil/value.h"], [("operator structs and dispatchers", O + ": OperatorEq .. OperatorGtEq, BinaryOperatorDispatcher"), ("value holder", "include/simfil/value.h: Value")], observe=["query results"])
prop("C06", "Arithmetic on values never crashes and gives the mathematical result",
     "Integer +, -, *, /, %, unary minus, shifts and bit operations give the exact result when it is representable and otherwise wrap modulo 2^64; nothing about the operands is undefined behaviour, including division of the smallest integer by -1 and shift counts outside 0..63 (which yield 0; right shift is logical). Division or remainder by zero is reported as an error, never a crash. Mixed integer and float arithmetic is float arithmetic. A cast to int, float or string yields a value of that kind; a float outside the integers' range is clamped and NaN becomes 0. An operand kind an operator does not support yields an error naming the operator, and an undefined operand yields undefined.",
     ["inputs"], "all operand values of every kind and every operator", "the tests divide by zero once and use small operands",
     [O, "src/value.cpp"], [("operator structs", O), ("dispatchers", O + ": UnaryOperatorDispatcher, BinaryOperatorDispatcher")], observe=["query results"])
prop("C07", "Truth values follow one rule in not, and, or, ? and filters",
     "A value is true exactly if it is the boolean true or any integer, float, string, object, array or user-defined value; null, undefined and false are not true. Logical not is the negation of that rule. 'a and b' delivers, for each value of a, that value if it is undefined or not true, and otherwise every value of b; 'a or b' delivers it if it is undefined or true, and otherwise every value of b, in both cases unchanged, and b is not evaluated where it is not needed.",
     ["inputs"], "all values of every kind", "the tests use a few constants",
     [O, "src/simfil.cpp"], [("bool conversion", O + ": OperatorBool, OperatorNot"), ("and/or", "src/simfil.cpp: AndExpr, OrExpr")], observe=["query results"])
prop("C08", "Operator precedence and associativity are those of the language",
     "Every expression parses into the tree given by one table of binding strengths, for any combination and nesting of operators: path (.) binds tightest, then {..}, then [..], postfix ? and ..., then prefix - ~ not # typeof, then as and custom word operators, then * / %, then + -, then << >> & | ^, then < <= > >=, then == = !=, then and/or. Operators of equal strength group to the left; an operand read after an operator is everything that binds tighter, and brackets and argument lists enclose whole expressions, in their order. The operator at a token makes the expression class and operation of that token with its operands in their places. After a '.', a name is a field; elsewhere an upper-case word is a string constant. All text of the language is accepted.",
     ["inputs"], "all token sequences, all operator combinations and nesting depths", "the tests parse a dozen operator combinations",
     ["src/simfil.cpp", "src/parser.cpp", "include/simfil/parser.h"], [("precedence climbing", "src/parser.cpp: Parser::parsePrecedence, parseInfix"), ("parselets and their tables", "src/simfil.cpp: *Parser classes, compile()")], observe=["compile() and Expr::toString"])
prop("C09", "A query delivers results until its consumer stops it, and none after",
     "While an expression is evaluated, its consumer is never called again after it asked to stop, and the evaluation reports a stop if and only if its consumer asked for one. Every expression that completes without error delivers at least one value. Each result is delivered in the context (environment and phase) of the evaluation. This holds for every expression class and built-in function, whatever the number of values of its subexpressions and arguments.",
     ["inputs", "programs"], "all expressions, all data, all points at which the consumer stops", "the tests always consume all results",
     ["src/simfil.cpp", "src/function.cpp", "include/simfil/result.h"], [("evaluation callback protocol", "src/simfil.cpp: *Expr::ieval"), ("function protocol", "src/function.cpp")], observe=["Expr::eval"])
prop("C10", "Constant folding does not change what a query returns",
     "For every expression and data, compiling with constant subexpressions folded returns the same values, in the same order, or the same error outcome, as evaluating the unfolded expression. In particular a subexpression that depends on the data or is undefined without it is never replaced by a constant.",
     ["programs", "inputs"], "all expressions and data", "the tests only see folded expressions",
     ["src/simfil.cpp"], [("folding", "src/simfil.cpp: simplifyOrForward")], observe=["compile(), eval()"])
prop("C11", "Built-in functions compute their definition over streams of values",
     "any and each report whether some / every value of their arguments is true, looking at no value after the answer is known; count counts the true ones; arr yields its arguments' values in order; sum folds all values of its first argument in order, starting with the last value of its third argument or 0, with '+' or with its second argument evaluated on the value with $sum, $val and $idx defined; keys yields every field name of every node in order; range yields an interval; re a regular expression; split the pieces between separators in order; select the values of its first argument from position index on, at most limit of them (1 by default, all if limit is not positive), looking at none after the window; trace yields its first argument's values. An error is reported exactly for a wrong number of arguments, an argument that is not a single value of the required type, or an error of an argument.",
     ["inputs", "programs"], "all argument streams", "the tests call each function with a few constants",
     ["src/function.cpp"], [("functions", "src/function.cpp: CountFn, AnyFn, EachFn, SumFn, SplitFn, SelectFn, ArrFn, KeysFn, RangeFn")], observe=["query results"])
SP = "src/model/string-pool.cpp"
prop("C12", "String interning is a stable one-to-one mapping up to letter case",
     "Interning a string gives an id that resolves back to the string as first interned; interning the same string again, in any letter case, gives the same id, and different strings (ignoring case) never share an id. Looking a string up never inserts it, and ids and texts already handed out stay valid and unchanged for the pool's lifetime. When the ids are used up an error is reported and the pool stays intact.",
     ["histories", "inputs"], "all sequences of interning, lookup and static key additions", "the tests intern a few short strings and never exhaust the ids",
     [SP, "include/simfil/model/string-pool.h"], [("pool", SP + ": StringPool::emplace, get, resolve, addStaticKey")], state=[("idForString_", "lower-cased text to id", SP), ("stringForId_", "id to text", SP), ("nextId_", "next free id", SP)], observe=["StringPool"])
prop("C13", "Copying or reloading a string pool preserves every id",
     "A copy of a pool and a pool read back from its serialized form resolve every id to the same text and find every string under the same id as the original, and stay valid after the original is changed or destroyed. Serializing from an offset writes exactly the strings with ids from that offset on, and always terminates.",
     ["histories", "inputs"], "all pools, all offsets", "the tests round-trip one small pool",
     [SP], [("copy", SP + ": StringPool copy constructor"), ("serialization", SP + ": write, read")], observe=["StringPool"])
AR = "include/simfil/model/arena.h"
prop("C14", "Array arena arrays are independent append-only sequences",
     "Each array created in an arena behaves as its own sequence: appending returns and stores the element at the end, the size is the number of appended elements, and reading index i gives the i-th appended element. Appending to, creating or iterating one array never changes or moves any element of another, whatever the interleaving. Access outside the size of an array is reported as an error.",
     ["histories", "inputs"], "all sequences of operations on all arrays, all initial capacities", "the tests append to three arrays in one order",
     [AR], [("chunk chains", AR + ": new_array, push_back, emplace_back, at, size, begin/end, iterate, get_or_extend")], state=[("heads_/continuations_", "chunk descriptors", AR), ("data_", "element storage", AR)], observe=["ArrayArena API"])
N = "include/simfil/model/nodes.h"
prop("C15", "Values stored in a model read back unchanged",
     "A boolean, integer, float or string stored in a model pool reads back with the same type and exactly the same value, for every 64-bit integer and regardless of whether it is stored inline or in a column. The address of a node encodes its column and index without loss, and distinct nodes never share an address.",
     ["inputs"], "all values, all column and index numbers in range", "the tests store a few small numbers",
     [N, "src/model/model.cpp", "src/model/nodes.cpp"], [("address packing", N + ": ModelNodeAddress"), ("value creation", "src/model/model.cpp: ModelPool::newValue, newSmallValue, resolve")], observe=["ModelPool::resolve, ModelNode::value"])
prop("C16", "All views of an object or array agree",
     "For an object, its size, positional access, key at position, name lookup, member iteration and range iteration describe the same sequence of members in insertion order; a name lookup returns the first member of that name and nothing for absent names. For an array, size, positional access and iteration agree, and out-of-range access yields nothing.",
     ["inputs", "histories"], "all objects and arrays, all names and positions", "the tests build three or four small documents",
     [N, "src/model/nodes.cpp"], [("object and array views", "src/model/nodes.cpp: Object::get, at, keyAt, size, iterate; Array::at, size, iterate")], observe=["ModelNode API"])
prop("C17", "A model survives serialization",
     "Writing a model and reading it back yields the same roots, the same objects, arrays and values in the same order, and the same field names. Field name ids keep their meaning in the reloaded model.",
     ["inputs", "histories"], "all models", "one small document is written and read back",
     ["src/model/model.cpp", "include/simfil/model/bitsery-traits.h"], [("serialization", "src/model/model.cpp: ModelPool::write, read, Impl::readWrite")], observe=["ModelPool::write/read"])
TR = "include/simfil/transient.h"
prop("C18", "Copies of user-defined values are owned exactly once",
     "Through any sequence of constructing, copying, moving, assigning (including to itself) and destroying user-defined values, each underlying object is initialised once, destroyed exactly once and never used afterwards, and a copy is independent of its source. A moved-from value can be destroyed, copied and assigned to.",
     ["histories"], "all sequences of operations", "the tests copy a few values",
     [TR, "include/simfil/typed-meta-type.h"], [("value semantics", TR + ": TransientObject")], observe=["TransientObject"])
TY = "src/types.cpp"
prop("C19", "A range contains exactly the integers between its bounds",
     "For every pair of bounds, unpacking a range yields each integer between the two bounds (both included) exactly once, ascending if the first bound is not larger and descending otherwise, and an integer equals the range exactly if it is one of them. Two ranges are equal exactly if their bounds are; nothing overflows for bounds near the integer limits.",
     ["inputs"], "all pairs of 64-bit bounds and all values", "the tests use bounds below 20",
     [TY, "include/simfil/types.h"], [("range type", TY + ": IRangeType::unaryOp, binaryOp, unpack")], observe=["query results"])
EH = "include/simfil/exception-handler.h"
prop("C20", "Errors are announced once to the handler and then thrown",
     "Raising an error calls the installed handler exactly once, before the exception propagates, with the type name of the exception and its message, and then throws exactly that exception; the handler is one for the whole process, whichever thread installs it or raises. Without a handler the exception is thrown and nothing else happens; installing a handler replaces the previous one.",
     ["inputs", "histories"], "all exception types, messages and handler histories", "no test installs a handler",
     [EH, "src/exception-handler.cpp"], [("raise", EH + ": raise"), ("handler registry", "src/exception-handler.cpp: ThrowHandler")], observe=["raise<>()", "ThrowHandler"])
prop("C21", "Paths, wildcards and operators yield all their values once and in order",
     "'*' yields every direct child of a node once, in document order, and '**' the node and all its descendants once, in pre-order, leaving out null nodes; a field name yields the member of that name or null. 'a.b' yields, for each value of a that is not null-without-a-node, every value of b evaluated on it, leaving out nulls without a node; 'a{b}' yields each value of a once for every value of b on it that is true; 'a[i]' the indexed member or character for each combination. Operators yield their result for every combination of operand values, the left operand's values being the outer order. Paths, filters, wildcards and subscripts with no value yield a single null; '...' replaces each range by its integers.",
     ["inputs", "programs"], "all trees", "the tests count matches in two documents",
     ["src/simfil.cpp"], [("wildcards and paths", "src/simfil.cpp: WildcardExpr, AnyChildExpr, FieldExpr, PathExpr, SubExpr")], observe=["query results"])
prop("C22", "Model validation finds every dangling reference",
     "After the checks for errors succeed, every object member, array element and root of the model refers to an existing node and every member name to an existing string, so evaluation cannot fail on a broken reference. Every model that contains such a dangling reference is reported.",
     ["inputs"], "all models, valid or corrupted", "no test validates a corrupted model",
     ["src/model/model.cpp"], [("validation", "src/model/model.cpp: ModelPool::checkForErrors, Model::...")], observe=["ModelPool::checkForErrors"])
prop("C23", "Overlays shadow the fields they define and nothing else",
     "A value wrapped in an overlay behaves as an object. It returns the overlaid value for every overlaid name (a node if that value is one, otherwise a node showing the scalar) and the wrapped node's field for every other name; a wrapped value which is no node has no other fields. Setting an overlaid name again replaces its value, and setting one name changes no other. Value, size, names and children of the wrapped node, by index and by iteration, show through unchanged.",
     ["inputs", "histories"], "all overlay histories", "one test sets one field",
     ["src/overlay.cpp", "include/simfil/overlay.h"], [("overlay", "src/overlay.cpp: OverlayNode")], observe=["OverlayNode"])
prop("C24", "A JSON document and its model describe the same data",
     "Loading a JSON document into a model (from a string or a stream, into a new or an existing pool) adds one root which describes the document: every object, array, member, element, name, string (with any bytes), boolean, null, integer and float, nothing dropped, added, reordered or changed in kind; integers that fit 64 bits signed stay integers, larger ones become the nearest float. Converting a model node back to JSON gives the same document: for every document, the conversion of its model equals it. (Object members are ordered by name, as the JSON library does. Names are those of a string pool: a document must spell a name in one way, and an object has each name once, up to letter case.)",
     ["inputs"], "all JSON documents", "the tests parse two documents",
     ["src/model/json.cpp", "src/model/nodes.cpp"], [("json", "src/model/json.cpp: build, parse"), ("json", "src/model/nodes.cpp: ModelNode::toJson")], observe=["json::parse", "ModelNode::toJson"])
prop("C25", "Compiling any text ends in an expression or an error",
     "Compiling any text terminates (given the stack its nesting needs and the time its constant parts take to evaluate), without crashing or reading outside the token list, either with an expression whose operands all exist or with an error. A text is accepted only as a whole: no text makes the compiler accept a prefix and ignore the rest, and no operator or closing bracket may be missing or be left over.",
     ["inputs"], "all texts", "the tests compile well-formed expressions and few malformed ones",
     ["src/parser.cpp", "src/simfil.cpp"], [("parser", "src/parser.cpp: Parser::current, consume, match, parse, parseList"), ("parselets", "src/simfil.cpp")], observe=["compile()"])
prop("C26", "Concurrent use of a string pool is race free and acts as if sequential",
     "Any number of threads may use one pool at once: interning, lookup, resolve, highest, size, statistics, copy, comparison, write and read, in any interleaving. There is no data race and no deadlock, and every call gives what it could have given in some single-threaded order of the calls: two threads interning the same string (in any letter case) get the same id, different strings never share one, an id once handed out keeps resolving to its text, and no thread sees a half-done insertion.",
     ["schedules", "histories"], "all interleavings of any number of threads and all operation sequences", "the tests are single threaded",
     [SP, "include/simfil/model/string-pool.h"], [("pool mutex and double-checked insertion", SP + ": stringStoreMutex_, emplace"), ("lock order of two pools", SP + ": copy constructor, operator==")], observe=["StringPool"])
prop("C27", "Float literals have the nearest double value",
     "A float literal yields the double nearest to its decimal value, within the accuracy the language promises.",
     ["inputs"], "all float literals", "the tests compare with a tolerance for a few literals",
     [T], [("number scanner", T + ": scanNumber")], observe=["tokenize()"])
prop("C28", "Regular expressions match as the regular expression engine defines",
     "Comparing a string with a regexp value is true exactly if the regular expression matches the string.",
     ["inputs"], "all patterns and strings", "the tests use three patterns",
     [TY], [("regexp type", TY + ": ReType")], observe=["query results"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
