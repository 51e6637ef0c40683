import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or ["return values of Pack, Unpack, SizeOf and BitSize"],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)

p("C01","Pack followed by Unpack returns the same value",
 "For every supported structure definition and every value that fits its wire types, packing the value and unpacking the result with the same byte order into a fresh destination succeeds and yields an equal value. This holds for any nesting of structs, arrays, counted or fixed slices, strings, pointers, booleans, floats, complex numbers and bit fields, at any bit offset.",
 ["programs","inputs"],"all structure definitions built from the documented field types and tags; all values whose fields fit their wire width and whose counted slices fit their counters; both byte orders",
 "TestUnpack round-trips about 30 fixed type/value pairs; encoder and decoder are two independent recursive walks that must agree for every combination of type, tag, offset and value.",
 ["packing.go","encoder.go","decoder.go","structstack.go","field.go"],
 [("mirrored recursive walks","encoder.go write / decoder.go read"),("shared field table","field.go fieldsFromStruct")])
p("C02","Packed bytes are exactly the declared flat layout",
 "Packing writes each exported, non-ignored field in declaration order, immediately after the previous one, in its declared wire type, width and byte order, with no gaps other than declared skips and padding fields. Skipped bytes, padding fields and trailing unused bits are zero; ignored and unexported fields contribute nothing. For structures of plain fixed-size types the output is identical to the standard library's binary encoding.",
 ["programs","inputs"],"all structure definitions and values; compared with an independent reference encoder and, on plain types, with encoding/binary",
 "Tests pin the bytes of a few dozen values; a symmetric error in encoder and decoder survives any round trip, and layout interactions (skip + bits + nesting + order) are combinatorial.",
 ["encoder.go","structstack.go","field.go","tag.go","typestr.go"],
 [("sequential field emission","encoder.go write"),("bit writer","encoder.go writeBits/writeBit/skipBits")])
p("C03","Unpack reads each field from its own position in arbitrary bytes",
 "Unpacking any byte string long enough for the structure gives each field exactly the value its layout position denotes, whatever the padding and skipped bytes contain, and ignores bytes after the structure. A byte string too short to hold some field's content is reported as an error.",
 ["programs","inputs"],"all structure definitions; arbitrary byte strings including truncated and over-long ones",
 "Tests only unpack bytes that are images of Pack with zero padding and exact length; arbitrary contents, dirty padding, every truncation point and trailing data are not exercised.",
 ["decoder.go","structstack.go","field.go"],
 [("sequential field extraction","decoder.go read"),("bit reader","decoder.go readBits/readBit/readBytes/skipBits")])
p("C04","Reported sizes equal the bytes actually produced and consumed",
 "For every packable value, the reported byte size equals the number of bytes packing produces, and equals the reported bit size rounded up to whole bytes. The reported bit size is the exact number of bits the declared layout needs for that value, including skips, padding, bit fields, conditional fields, nil pointers and values of custom types. Sizes are the same for a value and for a pointer to it, and unpacking needs exactly that many bits of content.",
 ["programs","inputs"],"all structure definitions and values, including value-dependent sizes inside arrays and slices",
 "TestSizeOf checks fixed types; the size computation is a third, separately written walk with shortcuts (constant-size element multiplication, bit-size shortcut) that only agree with the encoder on the sampled types.",
 ["structstack.go","packing.go","field.go","encoder.go"],
 [("size walk","structstack.go fieldbits/switcbits"),("constant-size shortcut","field.go isTypeTrivial")])
p("C05","A byte order applies to its field's whole subtree and nothing else",
 "A byte order declared on a field governs that field and everything nested inside it unless a nested field declares its own; a field without one uses the innermost enclosing declaration, and finally the order given by the caller. After a field with its own order, the previous order is in force again. Custom codecs receive the order in force at their position.",
 ["programs","inputs"],"all nestings of order declarations over structs, arrays, slices, pointers and custom codecs, for both caller orders, in both directions",
 "Two test cases place order tags one level deep; restoration after nested, conditional or failing subtrees is not exercised.",
 ["encoder.go","decoder.go","tag.go"],
 [("save/restore of current order","encoder.go write, decoder.go read")])
p("C06","Bit fields pack contiguously, most significant bit first, at any offset",
 "Bit fields and the fields after them occupy consecutive bits from the most significant bit of each byte, with no alignment inserted, so that neighbouring fields, padding, strings and nested structs never disturb each other's bits. A bit field of width n stores the low n bits of its value; reading a signed one sign-extends from its top bit and reading an unsigned one zero-extends. Little-endian bit fields wider than a byte store their low-order bytes first and lose no bits.",
 ["programs","inputs"],"all sequences of bit fields of widths 1..63 over all integer wire types, mixed with whole-byte fields, byte strings, skips and padding at every bit offset; all values",
 "Tests contain a handful of bit layouts, mostly unsigned and all-ones; slow-path/fast-path selection and bit-counter arithmetic depend on offset modulo 8 and width.",
 ["encoder.go","decoder.go","structstack.go"],
 [("bit-level reader/writer with byte-aligned fast path","encoder.go writeBits, decoder.go readBits"),("sign extension","decoder.go extend8..64")],
 state=[("bit counter","bits already used in the current byte","encoder.bitCounter, decoder.bitCounter")])
p("C07","Linked counters always equal the number of elements on the wire",
 "When a field is declared as the element count of a slice or string (from either side), packing stores the actual element count in it and unpacking creates exactly that many elements, wherever the two fields stand and whatever ignored or unexported fields surround them. Packing a value whose element count does not fit the counter, or whose slices sharing one counter have different lengths, is reported as an error rather than producing bytes that do not decode back.",
 ["programs","inputs"],"all placements of counter and counted field, all counter widths (including bit fields), all lengths around the counter's limits",
 "Tests link adjacent fields with tiny lengths; counter overflow, shared counters with differing lengths and interleaved skipped fields are not tried.",
 ["field.go","encoder.go","decoder.go"],
 [("counter/target index links","field.go fieldsFromStruct (SIndex, TIndex)"),("counter update on write","encoder.go write"),("element count on read","decoder.go read")])
p("C08","Hostile input bytes cause an error, never a crash, hang or memory blow-up",
 "Unpacking any byte string, of any length and content, into any supported destination returns normally with either success or an error; it never panics or loops without consuming input. Memory allocated is bounded by a constant factor of the input length plus the destination's fixed size, even when counters in the data claim huge or negative element counts.",
 ["inputs","programs"],"all byte strings (random, truncated, bit-flipped, extreme counters) for all destination types whose repeated elements occupy at least one bit",
 "Tests feed only well-formed data; the failure space is every truncation and every corrupt counter of every type.",
 ["decoder.go","packing.go"],
 [("bounds-checked slicing and recovery at the API boundary","packing.go Unpack"),("element allocation","decoder.go read")])
p("C09","Bad definitions and unpackable values give errors, never panics",
 "Packing or unpacking with an invalid tag, unknown or unsuitable wire type, broken link, ill-typed or failing expression, expressions not enabled, nil argument, unaddressable destination, over-long value, value without end or failing custom codec returns an error, and so does sizing where it meets the fault. None of these operations panics or hangs, and a failed operation leaves later operations on the same or other types unaffected.",
 ["programs","inputs","histories"],"arbitrary tag strings on arbitrary field types, arbitrary Go values as argument, histories that interleave failing and valid operations",
 "About ten hand-picked bad tags are tested; the tag language, type language and expression language compose into an unbounded space of bad definitions.",
 ["packing.go","tag.go","typestr.go","field.go","structstack.go"],
 [("recovery at the API boundary","packing.go"),("tag and type parsing","tag.go, typestr.go"),("definition validation","field.go fieldsFromStruct")])
p("C10","Packing and unpacking leave everything else the caller owns untouched",
 "Unpacking never modifies the input bytes and never changes ignored or unexported destination fields. Packing and sizing change nothing reachable from the value except linked counters (set to the actual count) and parent/root links, and produce the same result whether the value is passed directly or by pointer. Packing the same value twice gives the same bytes, in memory not shared with the value or with the other result.",
 ["programs","inputs"],"all definitions and values; input slices with spare capacity; values passed directly and by pointer",
 "No test checks inputs after the call, compares two calls, or passes a plain struct by value.",
 ["packing.go","encoder.go","decoder.go","structstack.go"],
 [("in-place slicing of the input","decoder.go readBytes"),("argument unwrapping","packing.go fieldFromIntf")])
p("C11","Unpacked content does not depend on what the destination held before",
 "Every field that unpacking reads has a value determined only by the input bytes, byte order and definition, no matter what the destination contained or how often it was reused: slices are replaced rather than extended, unselected alternatives are cleared and pointers get fresh targets. Decoded slices do not overlap one another, so growing or changing one never changes another field.",
 ["programs","inputs","histories"],"all definitions; destinations pre-filled with arbitrary content or by earlier unpacks of other data; appends to decoded slices",
 "Every test unpacks into a zero value once.",
 ["decoder.go"],
 [("destination (re)initialisation","decoder.go read, switc")])
p("C12","Concurrent use on separate values is race-free and gives sequential results",
 "Any number of goroutines may pack, unpack, size and evaluate expressions at the same time on separate values, including values of the same type used for the first time by all of them. There is no data race and each call returns exactly what it returns when run alone.",
 ["schedules"],"all interleavings of concurrent calls over shared and fresh types, including expression evaluation over pointer, slice and recursive types",
 "All tests are single-goroutine; CI's -race therefore never sees two accesses.",
 ["field.go","expr/type.go","expr.go","structstack.go"],
 [("read-write locked field cache","field.go cachedFieldsFromStruct"),("locked expression type cache","expr/type.go fromreflecttype")],
 state=[("field cache","type -> field table","field.go fieldCache"),("type cache","Go type -> expression type","expr/type.go typemap")])
p("C13","A call's result does not depend on the calls that came before it",
 "Packing, unpacking, sizing and evaluating are functions of their arguments alone: repeating a call, or interleaving it with successful or failing calls on any other types, values, byte orders or expressions, never changes its result. Distinct types are never confused with one another, even when their names or printed forms coincide.",
 ["histories"],"all sequences of calls over a population of types, including same-named types, types differing only in tags, and calls that fail half-way",
 "Each test runs one call on one type; cache contents and leftovers of failed calls never influence a later tested call.",
 ["field.go","expr/type.go","packing.go"],
 [("type-keyed caches","field.go fieldCache, expr/type.go typemap"),("per-call encoder/decoder state","packing.go")])
p("C14","Custom codecs are honoured wherever they occur",
 "A value whose type (by value or pointer receiver) supplies its own pack, unpack or size methods is encoded, decoded and sized through them wherever it occurs: at top level, as a field, behind a pointer, or as an array or slice element. Each is called in layout order on the not yet consumed remainder of the buffer with the byte order in force, once per value; exactly what it consumes is consumed, the field's own skip, order and condition still apply, and an error it returns is returned to the caller.",
 ["programs","inputs","fault_sequences"],"all placements of custom-codec values in byte-aligned positions, all byte orders, codecs of varying length, codecs failing at any call",
 "Two tests use a codec at top level only; containers, pointer receivers in elements, order and error paths are not tested.",
 ["encoder.go","decoder.go","field.go","structstack.go"],
 [("interface detection on value and address","encoder.go packer, decoder.go unpacker, field.go sizer/bitSizer")])
p("C15","Conditional and switched fields are present exactly when selected",
 "A conditional field occupies space and is read, written and sized exactly when its condition holds for the enclosing value, and otherwise occupies nothing and is left alone. A switch reads, writes and sizes exactly the first alternative whose case equals the switch value (compared by value, for integers, strings and booleans of any type, named or not), else the default, else nothing; alternatives not chosen are zero after unpacking.",
 ["programs","inputs"],"all conditions and switches over preceding fields of any type, nested, in arrays and slices, in both directions",
 "TestIfExpr covers one boolean condition and the PNG sample one string switch; numeric and named-type switches, conditions in elements and on bit fields are never exercised.",
 ["structstack.go","encoder.go","decoder.go"],
 [("condition and switch evaluation","structstack.go evalIf/switcbits, encoder.go switc, decoder.go switc")])
p("C16","Computed sizes, widths, repetitions and value mappings follow their expression",
 "A size expression fixes how many elements are read, and packing a slice of any other length is an error. A bits expression fixes a field's width for sizing, reading and writing alike; a while expression reads elements as long as it holds before each one; in and out expressions replace the value after reading and before writing. All are evaluated on the enclosing structure's current field values.",
 ["programs","inputs"],"all size, bits, while, in and out expressions over preceding fields of all integer types",
 "One test per expression kind, each with a single value.",
 ["structstack.go","encoder.go","decoder.go"],
 [("expression-driven attributes","structstack.go evalSize/evalBits/evalWhile, decoder.go read, encoder.go write")])
p("C17","Parent and root links point at the enclosing structure",
 "After unpacking or packing, every parent link points to the nearest enclosing structure its type can refer to, and every root link to the outermost structure, including inside slices, arrays, pointers and switch alternatives. Links occupy no space, and changes made through a link are visible in the structure itself.",
 ["programs","inputs"],"all nestings of structs, pointers, arrays, counted slices and repeated slices with parent and root links",
 "Only the PNG sample uses a parent link, and only through the value it reads.",
 ["structstack.go","encoder.go","decoder.go"],
 [("stack of enclosing structs","structstack.go push/pop/ancestor/setancestor")])
p("C18","Expression operators compute what the same Go expression computes",
 "For operands of any integer, float, boolean, string, struct, slice, array, map or pointer type, named types counting as their underlying type, evaluating an expression gives the value and type that Go gives for the same operands and operators, including wrap-around, truncated division, shifts past the width and comparison. Untyped constants adopt the type of the other operand, and two integer constants combine as int.",
 ["inputs","programs"],"all operator and operand-type combinations the language accepts, boundary values, nested expressions",
 "TestEvalSimple has 16 expressions; each of about 20 operators has 11-14 separately written type cases.",
 ["expr/value.go","expr/eval.go","expr/type.go"],
 [("per-type operator tables","expr/value.go"),("constant promotion","expr/value.go promote/coerce")],obs=["return values of expr.Eval, expr.EvalProgram and expr.Value methods"])
p("C19","Expressions parse with Go's precedence, grouping and literals",
 "Binary operators bind with Go's precedence levels and associate to the left, unary operators and member, index and call postfixes bind tighter, the conditional operator binds loosest, and parentheses override. White space never changes meaning, and integer, float, rune and string literals, including every escape form, denote what they denote in Go. Text that is not a complete, well-bracketed expression is rejected.",
 ["inputs"],"all expression texts generated from the grammar with arbitrary spacing and redundant or minimal parentheses; all literal forms; corrupted texts",
 "Seven parse samples and nine token samples; precedence is a 22-operator matrix and literals are an infinite set.",
 ["expr/parse.go","expr/lex.go","expr/ast.go"],
 [("recursive descent with depth","expr/parse.go parseexpr"),("scanner","expr/lex.go")],obs=["expr.Eval and expr.ParseString+EvalProgram"])
p("C20","Evaluating any expression text terminates with a value or an error",
 "Evaluating any text against any resolver returns a value or an error: it never hangs, crashes or exhausts memory, whether the text is malformed, ill-typed, refers to unknown names, divides by zero, indexes out of range or follows nil pointers. Evaluation never modifies the values it refers to, and evaluating the same program again gives the same result.",
 ["inputs","histories"],"arbitrary strings, mutated valid expressions and well-formed but failing expressions over all operand types",
 "Five error samples, all type mismatches.",
 ["expr/eval.go","expr/lex.go","expr/parse.go","expr/value.go"],
 [("recovery in evaluation","expr/eval.go EvalProgram"),("error tokens","expr/lex.go scan")],obs=["expr.Eval, expr.EvalProgram"])
p("C21","Name resolution, packages and the type model mirror the Go values",
 "Resolving a name yields the named field, map entry or package symbol with its current value and Go type, or nothing when absent; combined resolvers answer from the first that knows the name, and type resolvers agree with value resolvers. The expression type of any value mirrors its Go type in kind, element, key, length, fields and signature, also for recursive types, and type equality holds exactly when the types have the same structure. The bit-manipulation functions available to struct expressions compute what Go's math/bits functions of that name compute.",
 ["inputs","programs"],"all Go values and types representable in the expression language, all names, all resolver stacks, all library functions on all arguments",
 "Resolver tests use two names; library functions and composite or recursive types are not tested.",
 ["expr/env.go","expr/type.go","expr/package.go","expr_19.go","structstack.go"],
 [("resolvers","expr/env.go"),("type conversion with cache","expr/type.go fromreflecttype"),("function table","expr_19.go")],obs=["expr resolvers, expr.TypeOf, expr.TypeEqual, expr.Package, and struct expressions"])
p("C22","Tag options mean the same in any order and combination",
 "The effect of a tag is determined by its set of options: reordering options of different kinds, or writing an expression option in its own tag key instead, changes nothing, and every documented synonym (byte-order names, byte/uint8, rune/int32) is equivalent. Each documented option has its documented effect when combined with any others, a field tagged as ignored takes no part at all, and a malformed tag is always rejected with an error.",
 ["programs"],"all combinations and permutations of documented options on all field types; all single-character corruptions that leave the tag grammar",
 "TestParseTag checks parsed structures of single options and one composite.",
 ["tag.go","typestr.go","field.go"],
 [("tag scanner","tag.go parse"),("type expressions","typestr.go")])
p("C23","The PNG format round-trips every chunk sequence exactly",
 "Unpacking any byte string that is a signature, a header chunk and a sequence of chunks, known or unknown, and packing the result reproduces the input byte for byte, and each chunk's length, type, data and checksum appear in the decoded structure. Chunk data is as long as the length field says and chunks are read until the input ends; truncated files are errors.",
 ["inputs"],"all sequences of chunks with arbitrary types, lengths and contents; all truncation points",
 "One 1 kB sample image with three chunks.",
 ["formats/png/png.go","structstack.go","decoder.go","encoder.go"],
 [("switch on chunk type, size from parent","formats/png/png.go")])
p("C24","Native values convert to and from their wire types as documented",
 "A boolean is written as 1 or 0 (all ones for true with variantbool, swapped with invertedbool) in any wire integer or bit width, and any non-zero wire value reads as true before inversion. Strings in fixed-size wire fields are zero-filled when shorter, end at the first zero byte when read, and are an error when longer than the field; integers, floats, complex numbers, arrays and slices declared with a different wire type convert element by element without changing any value that fits.",
 ["programs","inputs"],"all native/wire type pairs, all flag combinations, all lengths and contents",
 "TestUnpack covers 16 boolean cases and a few casts with one value each.",
 ["encoder.go","decoder.go"],
 [("boolean and numeric conversion","encoder.go intFromField/uintFromField, decoder.go setInt/setUint"),("fixed-size sequences","encoder.go write, decoder.go read")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
