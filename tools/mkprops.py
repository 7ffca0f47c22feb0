#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so it can be edited readably)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

JS="json/src/serialize/text.rs"; JD="json/src/deserialize/text.rs"; JM="json/src/deserialize/mod.rs"
JN="json/src/deserialize/number.rs"; JH="json/src/helper.rs"; CH="core/src/helper.rs"
CD="core/src/deserialize.rs"; CS="core/src/serialize.rs"; TR="core/src/text_reader.rs"; TW="core/src/text_writer.rs"
NM="core/src/name_map.rs"; DD="derive/src/deserialize.rs"; DS="derive/src/serialize.rs"; DL="derive/src/lib.rs"

p("C01","JSON output is always well formed",
  "For every sequence of serializer calls that follows the documented stack protocol, every string, number and key, and every formatting configuration, the text sent to the writer is one well-formed JSON value: brackets balance, commas stand exactly between siblings, every key is quoted and followed by a colon, strings are quoted with quotes, backslashes and control characters escaped, and numbers that JSON cannot express are written as null. This holds with and without indentation, for empty and nested containers alike.",
  ["histories","inputs","configurations"],"every protocol-conforming call history on the JSON text serializer, every payload, indent on or off",
  "The ten serialization tests sample a dozen documents; separators and escapes depend on hidden state carried across arbitrary call histories.",
  [JS,"json/src/serialize/mod.rs"],[("at_first / in_key / depth bookkeeping","TextSerializer methods in "+JS),("character escaping","append_char in "+JS),("float special cases","put_f32/put_f64 in "+JS)],
  ["text handed to the TextWriter"])
p("C02","String escaping and unescaping are inverse",
  "Every character written inside a JSON string or key is read back as that same character, by every way of reading string content (streamed value, iterated key, skipped or looked-up key). The reader accepts exactly the JSON string grammar: the eight short escapes and \\u escapes (surrogate pairs combined, lone surrogates rejected) decode to the character JSON assigns them, any other escape, an unescaped control character or a missing end quote is an error, and every other character stands for itself.",
  ["inputs"],"every Unicode scalar value and every string literal text",
  "Tests use two escapes; there are 1.1 million characters and several separate code paths that decode strings.",
  [JS,JD],[("escape writer","append_char in "+JS),("escape reader","read_escape_sequence, next_char, read_str_bytes_into* in "+JD)],["string returned by from_str","text written by to_str"])
p("C03","Number literals follow exactly the JSON grammar",
  "A number is accepted exactly when its text is a JSON number (optional minus, no leading zeros, digits after a point, digits after an exponent mark with optional sign), and reading stops right after it; anything else is an error, never a different value. A syntactically valid number may be refused only as a numeric overflow, and the answer is the same grammar for every numeric type and for numbers that are skipped over before being read.",
  ["inputs"],"every text in number position, every numeric target type, streamed or looked back",
  "Tests list a dozen literals out of infinitely many.",
  [JD,JN],[("number scanner","read_number_into_builder in "+JD)],["Ok/Err of from_str for numeric types"])
p("C04","Documents are accepted exactly per the JSON structure grammar",
  "Arrays, tuples, objects and literals are accepted exactly when punctuation is right: values separated by single commas with none leading or trailing, every key a string followed by one colon, brackets closed by their own kind, literals spelled exactly. Whitespace (space, tab, CR, LF) is allowed between any two tokens and nowhere else; JavaScript comments are allowed in exactly those places when the configuration allows comments, and are an error when it does not.",
  ["inputs","configurations"],"every input text, both comment settings, for values read in document order",
  "Tests cover a handful of hand-written documents, nearly all valid.",
  [JD],[("token skipping","skip_whitespace, skip_comment, skip_to_first/next_entry/item, skip_past_colon in "+JD),("state machine","next_item, next_entry in "+JD)],["Ok/Err of reading a document"])
p("C05","Skipped-over entries are parsed with the same grammar",
  "When an object is searched for a key, the entries passed over are validated by the same grammar as values read in order: the same literals, numbers, strings, nesting, whitespace and comments are accepted, and malformed text is rejected rather than mis-stored. The entry that is finally returned starts exactly at its value.",
  ["inputs","configurations"],"every text of the passed-over entries, both comment settings",
  "The out-of-order tests use five well-formed documents without comments.",
  [JD],[("lookback scanner","read_lookback_value, read_str_bytes_into_or_match, try_push_entry in "+JD)],["Ok/Err of looking up a key"])
p("C06","No input text makes deserialization panic",
  "Whatever characters the input consists of, reading it as any supported type ends in a value or an error, never in a panic: no unimplemented branch, unchecked lookup result or arithmetic overflow is reachable from the input alone.",
  ["inputs"],"every input text and byte stream, every built-in target type",
  "Only inputs somebody thought of are tested; a panic needs one unusual character.",
  [JD,JM,JN,TR,CD],[("error returns instead of panics","TextDeserializer methods and TextReaderExt in "+JD),("byte decoding","read_utf8 in "+TR)],["panic vs Err"])
p("C07","Nesting depth of the input does not consume call stack",
  "Skipping or scanning a value uses an amount of call stack that does not depend on how deeply the input nests. Only a recursive target type chosen by the program can make reading recurse.",
  ["inputs"],"every nesting depth",
  "Overflow needs inputs nested tens of thousands deep; no test does that.",
  [JM,JD],[("iterative scanning","skip_value, skip_object in "+JM+", read_lookback_value in "+JD)],["process survives"])
p("C08","Value, struct, tuple and list wrappers enforce the stack protocol",
  "A wrapper never touches the underlying serializer or deserializer once its item has been consumed or while a child obtained from it is unfinished: it panics instead. An item is marked finished exactly when the call that pops it succeeded, never after an error, so scoped use (`with`, `validate_with`) returns normally exactly when its item was fully consumed. A list of known length refuses to go past or stop short of that length and always reports how many items remain.",
  ["histories"],"every order of wrapper calls, every outcome of the underlying calls",
  "Tests only use the wrappers correctly; misuse and error outcomes are not sampled.",
  [CH],[("done_flag / ready_flag assertions","Value, Struct, Tuple, List in "+CH)],["panic vs normal return","calls on the underlying Outliner"])
p("C09","JSON object, entry and collection wrappers enforce the protocol",
  "The JSON-specific wrappers (object, entry, collection and the extension methods on values) touch the deserializer or serializer only while it is their turn and panic otherwise. An entry's key can be read at most once and is skipped if unread, a failed optional lookup leaves the object usable, and an item is marked finished exactly when the call that pops it succeeded.",
  ["histories"],"every order of wrapper calls, every outcome of the underlying calls",
  "Tests only use the wrappers correctly.",
  [JH],[("ready_flag / key_read_flag handling","Object, Entry, Collection, Value*Ext in "+JH)],["panic vs normal return","calls on the underlying Outliner"])
p("C10","Built-in types read exactly the shape they write",
  "For every type with built-in support, deserialization asks for exactly the sequence of primitive values, fields (same names, same order), elements and list items that serialization produces, with each component's value passed through unchanged. A validating type (the non-zero integers) differs only by turning an invalid value into an error.",
  ["programs","inputs"],"every built-in type, for any serializer/deserializer format",
  "Tests cover seven of more than thirty type/direction pairs and only JSON.",
  [CD,CS],[("paired impls","Serialize impls in "+CS+", Deserialize impls in "+CD)],["calls made on the serializer/deserializer"])
p("C11","Derived serialization and deserialization agree",
  "The code generated by the two derive macros for one type uses the same field names in declaration order, the same variant names and the same variant indices (position, explicit discriminant or reindex, in that order of increasing priority), the same tag field, and binds each field to its own data. Renaming, flattening, transparency, defaults and generics change both sides alike.",
  ["programs"],"every derivable type declaration",
  "Serialize and Deserialize are tested on different types, never on one another's output.",
  [DL,DS,DD],[("shared attribute parsing","VariantRepr, FieldRepr, EnumRepr in "+DL),("code generation",DS+", "+DD)],["generated impls"])
p("C12","A value reads the same whether streamed or looked back",
  "Each accessor accepts exactly the same kinds of JSON value, and reports the kind the same way, whether the value is read directly from the input or was set aside while looking for another key; in both cases the same item remains on the stack afterwards. A missing entry behaves as null: null checks succeed and every other accessor reports the missing key.",
  ["inputs","histories"],"every accessor, every JSON kind, every position of the value",
  "Tests read a few looked-back values with the matching accessor only.",
  [JD,JM],[("per-state arms of the accessors","TextDeserializer in "+JD),("standard implementations",JM)],["Ok/Err and next state of each accessor"])
p("C13","Deserializer calls keep the documented stack effect",
  "On success each deserializer call changes the item stack exactly as documented: opening pushes one collection of the right kind, the end of a collection pops exactly that one, reading or skipping a value pops just it. Asking for an element that is not there, closing with elements left, or an entry that is missing or left over is an error; unread fields of a struct are ignored only when it is written as an object.",
  ["histories","inputs"],"every deserializer call in every reachable state",
  "Tests follow a few fixed call sequences.",
  [JD,JM],[("outline.stack_items and DeserializerState",JD),("push_item/close_list/push_field/close_struct",JM)],["state after each call"])
p("C14","Errors are never lost",
  "An error from the text sink or from the underlying serializer or deserializer is always returned to the caller as that same error, and nothing more is written or read after it. A failure inside a field, element, list item or nested type makes the whole operation fail.",
  ["fault_sequences"],"every call at which the writer, serializer or deserializer may fail",
  "The tests' sink never fails and few of them look at errors.",
  [JS,"json/src/serialize/mod.rs",JM,CH,CS,CD,TW],[("? on every fallible call","all serializers, wrappers and impls")],["returned Err, calls after it"])
p("C15","Entry points process exactly one whole document",
  "The convenience functions that read a value from text succeed only if the text is exactly one value surrounded by optional whitespace; leading or trailing garbage, a second value or empty input is an error. Those that write return success only if the type wrote exactly one value.",
  ["inputs","programs"],"every text, every type",
  "Tests never put anything after the value.",
  [JM,"json/src/serialize/mod.rs"],[("Value::with + close","from_reader_using in "+JM),("done flag","to_writer_using in json/src/serialize/mod.rs")],["Ok/Err of from_str/from_reader, panic of to_*"])
p("C16","UTF-8 streams are decoded and encoded exactly",
  "Reading characters from a byte stream yields exactly the characters the bytes encode in UTF-8, consuming just their bytes; bytes that are not valid UTF-8 (stray continuation bytes, overlong forms, surrogates, values past U+10FFFF, truncated sequences) and I/O failures give an error, end of data gives none. Writing a character or string sends all of its UTF-8 bytes, whatever the sink's write granularity.",
  ["inputs","fault_sequences"],"every byte stream and every split of it",
  "One test decodes eight characters from memory.",
  [TR,TW],[("decoder","read_utf8 in "+TR),("encoder","Utf8Writer in "+TW)],["characters returned, bytes written"])
p("C17","Positions are tracked and attached to errors correctly",
  "The stream reader's position counts lines and columns from zero: a line feed starts a new line at column zero, a tab counts four columns, a carriage return none and any other character one. An error reported about a value read successfully (validation, invalid name, missing items) carries the position where that value starts, and a kind mismatch carries the position of the offending value.",
  ["inputs","histories"],"every text, every accessor, streamed or looked back",
  "No test looks at a position.",
  [TR,JD],[("LineColumnPosition updates","Utf8Reader::next in "+TR),("error_pos",JD)],["position() of reader and error"])
p("C18","Enum tags always decode to a declared variant or an error",
  "A tag is read as a name when it is a string and as an index otherwise; an index above the largest declared one or not belonging to a variant, and a name that is not listed, is an error, never some other variant or a panic. A tag is written by name when it has one and by index otherwise.",
  ["inputs"],"every tag text, every set of variant names and indices",
  "Tests try three invalid tags.",
  [JM,"json/src/serialize/mod.rs",CD,DD],[("range check","get_tag in "+JM),("fallback arm","generated match in "+DD),("put_tag","json/src/serialize/mod.rs")],["Ok/Err of reading an enum"])
p("C19","Unchecked UTF-8 and memory reinterpretation are only applied to sound data",
  "No safe use of the public API leads to a string holding invalid UTF-8 or to a reference of the wrong type: data treated as text without validation was always produced from text, and reinterpretation only happens between a type and its transparent wrapper.",
  ["inputs","histories"],"every input and call history",
  "Undefined behaviour is not observable in a passing test.",
  [JD,JN,NM],[("from_utf8_unchecked call sites",JD+", "+JN),("transmute",NM)],["unsafe blocks"])
p("C20","Scalars are carried unchanged and integers never wrap",
  "Booleans and integers are written as the text of exactly the value given, and the literals true and false read back as themselves. Reading an integer gives either exactly a representable value or an overflow error: no step of digit accumulation, scaling or negation wraps around or truncates.",
  ["inputs"],"every value of every built-in scalar type, every digit string",
  "Tests check a few boundary values of i8 and u8.",
  [JS,JN,JD],[("itoa formatting",JS),("checked arithmetic","Num/NumBuilder impls in "+JN)],["text of to_str, value of from_str"])
p("C21","Null is used for absence only where it is unambiguous",
  "An optional value is represented by null exactly when the format supports null and the inner type can never itself be null, and by an explicit presence flag otherwise; reading makes the same choice as writing. A type that declares itself non-nullable never writes or accepts null, and the two directions always declare the same.",
  ["programs"],"every built-in and derived type, formats with and without null",
  "Tests cover two option types on a format with null.",
  [CS,CD,DS,DD],[("NULLABLE and supports_null","Option impls in "+CS+" and "+CD)],["calls made on the serializer/deserializer"])
p("C22","Name tables return exactly the value of the given name",
  "Looking a name up, in one piece or character by character, returns the value stored for that name and nothing for any other string, for every set of names in any order.",
  ["inputs","programs"],"every set of names, every queried string, every chunking",
  "One table of eleven names is queried.",
  [NM],[("const quicksort","sort_entries in "+NM),("incremental binary search","NameMapLookup::write_bytes in "+NM)],["result()"])
p("C23","Object entries may come in any order",
  "Reading the entries of an object in any order of keys returns for each key the same value as reading them in document order, at every nesting level, and each entry is delivered once.",
  ["inputs","histories"],"every document, every access order",
  "Five documents with one access order each.",
  [JD],[("lookback items, keys and data",JD)],["values returned"])
p("C24","Numbers read back as the value written",
  "Every finite number written is read back as the same value, and a literal is converted to the nearest representable value of a floating-point type or the exact value of an integer type.",
  ["inputs"],"every value of every numeric type, every literal",
  "Float round trip is only covered by an ignored exhaustive test.",
  [JN,JS],[("from_builder",JN)],["value of from_str(to_str(x))"])
p("C25","Work and memory grow at most linearly with the input",
  "Reading a document takes time and memory proportional to its length.",
  ["inputs"],"every document and access order",
  "Tests use documents of a few hundred bytes.",
  [JD],[("lookback storage",JD)],["running time"])
with open("/verif/properties.jsonl","w") as f:
    for q in P:
        assert len(q["title"])<=80,q["title"]
        f.write(json.dumps(q)+"\n")
print(len(P))
