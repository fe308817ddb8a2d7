#!/usr/bin/env python3
# Generates properties.jsonl (kept in git; this script is only an authoring aid).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Valid accepts exactly the RFC 8259 JSON texts",
"Valid(data) returns true if and only if data is one JSON value of the RFC 8259 grammar surrounded by optional JSON whitespace, with string contents taken as bytes (any byte >= 0x20 other than quote and backslash is a legal string character). It decides this for every byte sequence, without reading outside the input and without panicking.",
["inputs"],"all byte slices, of any length and content",
"The tests feed Valid a few dozen literal texts; the grammar has unbounded nesting, unbounded number and string lengths and word-at-a-time scanning whose branches depend on length modulo 8.",
["parse.go","ascii.go","json.go"],[("recursive-descent scanner","parse.go parseValue/parseObject/parseArray/parseString/parseNumber"),("word-at-a-time ASCII scan","ascii.go asciiValidPrint"),("Valid","json.go Valid")],observe=["Valid"])

p("C02","Successful decoding consumes exactly one well-formed JSON value",
"If Parse succeeds, the bytes it consumed are optional whitespace, exactly one well-formed JSON value and trailing whitespace, and the returned remainder is exactly the rest of the input from the next non-space byte; if Unmarshal succeeds, the whole input is one well-formed JSON text. This holds for every destination made of booleans, numbers, strings, byte slices, arrays, slices, maps, structs, pointers, interfaces and RawMessage.",
["inputs","programs"],"all byte slices and all destination types of the listed kinds",
"Tests decode well-formed samples and a handful of malformed ones per type; acceptance of malformed text depends on the pair (text, destination type).",
["decode.go","parse.go","json.go"],[("container decoders","decode.go decodeArray/decodeSlice/decodeMap/decodeStruct"),("scalar decoders","decode.go decodeInt.. decodeString"),("Parse/Unmarshal","json.go")],observe=["Parse","Unmarshal"])

p("C03","Integer decoding is exact or an error, at every width",
"Decoding a JSON integer literal into a Go integer of any width and signedness stores exactly the mathematical value of the literal when it fits the type, and otherwise returns an error and leaves the destination unchanged. Fractions, exponents, leading zeros, and a minus sign on unsigned targets are errors.",
["inputs"],"all byte slices and the 11 integer kinds",
"Tests sample a few boundary literals; overflow detection must be right for every digit string.",
["parse.go","decode.go"],[("overflow-checked accumulation","parse.go parseInt/parseUint"),("width checks","decode.go decodeInt8..decodeUint64")],observe=["Unmarshal","Parse"])

p("C04","String literals decode to exactly the text they denote",
"Decoding any well-formed JSON string literal, through Unmarshal into a string or through RawValue.Unquote/AppendUnquote, yields exactly the text it denotes: the eight short escapes, \\uXXXX escapes, and surrogate pairs combined into one code point, with an unpaired surrogate escape replaced by U+FFFD. If the literal contains an escape or a byte outside printable ASCII, invalid UTF-8 in it is likewise replaced by U+FFFD, and AppendUnquote appends to its argument without altering what was there.",
["inputs"],"all byte slices that are well-formed string literals, and all destination buffers",
"Tests decode some escape samples; correctness depends on every combination of escape kinds, neighbours, surrogate halves and chunk boundaries inside the literal.",
["parse.go","decode.go","token.go"],[("unescape loop","parse.go parseStringUnquote"),("UTF-8 coercion","parse.go appendCoerceInvalidUTF8, appendRune"),("Unquote","token.go AppendUnquote")],observe=["Unmarshal","RawValue.Unquote","RawValue.AppendUnquote"])

p("C05","Encoded strings are escaped exactly and denote the original text",
"A Go string encodes as a quote, then each character either verbatim or escaped, then a quote, where quote, backslash, control characters below 0x20, U+2028 and U+2029 are always escaped, invalid UTF-8 bytes become \\ufffd, and everything else is verbatim except that EscapeHTML also escapes <, > and &. The result is always a well-formed JSON string literal which decodes back to the original string with each invalid byte replaced by U+FFFD.",
["inputs"],"all strings, with and without EscapeHTML",
"Tests encode a few sample strings; the flush bookkeeping must be right for every interleaving of verbatim runs, escapes, multi-byte runes and invalid bytes.",
["encode.go"],[("escape loop","encode.go doEncodeString")],observe=["Append","Marshal","Encoder.Encode"])

p("C06","Successful encoding always yields one well-formed JSON value",
"Whenever Append, Marshal or Encode succeeds with no colors, the bytes it produced are exactly one well-formed JSON value (Encode adds a single newline), for every supported Go value, every combination of flags except TrustRawMessage, and every whitespace-only prefix and indent.",
["inputs","programs","configurations"],"all Go values of supported types x append flags x indentation settings",
"Tests compare a fixed set of values with literals; well-formedness must hold for every nesting of omitted fields, nil embedded pointers, empty containers, raw messages and numbers.",
["encode.go","json.go","jsoncolor.go","codec.go"],[("container encoders","encode.go encodeArray/encodeMap*/encodeStruct"),("RawMessage validation","encode.go encodeRawMessage"),("Number validation","encode.go encodeNumber")],observe=["Append","Marshal","Encoder.Encode"])

p("C07","Colors are pure decoration",
"For every value, flags, indentation and color set, encoding with colors succeeds exactly when encoding without colors succeeds, and deleting the inserted color sequences and resets from the colored output gives byte for byte the uncolored output.",
["inputs","configurations"],"all Go values x flags x indenters x color sets whose entries are ANSI escape sequences or empty",
"Tests compare a few colored samples with literals; each encoder has separate colored and uncolored paths which must agree for all values.",
["encode.go","jsoncolor.go"],[("paired colored/uncolored paths","encode.go encodeString/encodeKey/encodeNumber/encodeBytes/encodeTime/encodeTextMarshaler"),("punctuation","jsoncolor.go appendPunc")],observe=["Append","Encoder.Encode"])

p("C08","Each token kind is wrapped in its own configured color",
"In colored output every token is emitted as its color, the token text, and a reset: keys in Key, and null, bool, number, string, byte-slice, time and text-marshaler values in their own fields, including the tokens of RawMessage and Marshaler output. Brackets, braces, commas and colons use Brackets, Braces, Comma and Colon respectively, falling back to Punc when that field is empty.",
["inputs","configurations"],"all Go values x color sets x flags x indenters",
"Tests check a handful of documents with the default and a few custom color sets.",
["jsoncolor.go","encode.go"],[("puncColor fallback","jsoncolor.go puncColor"),("scalar colorization","jsoncolor.go append*; encode.go encode*"),("RawMessage token colors","encode.go appendRawMessageScalar")],observe=["Append","Encoder.Encode"])

p("C09","Indented output has the json.Indent layout of the compact output",
"With a prefix and indent set, encoding produces exactly the layout json.Indent gives the compact encoding of the same value: every array element and object member on its own line as prefix plus one indent per nesting level, one space after each colon, and empty arrays and objects as [] and {}. A nil indenter, or one built from an empty prefix and indent, gives compact output with no added whitespace.",
["inputs","configurations"],"all Go values x all prefix/indent strings x flags",
"Tests cover a few documents; layout depends on every combination of nesting, empty containers, omitted fields, raw messages and previous failed encodes.",
["encode.go"],[("Indenter","encode.go push/pop/appendByte/appendIndent"),("container layout","encode.go encodeArray/encodeMap*/encodeStruct/appendRawMessageTokens")],
state=[("Indenter.depth","current nesting level; must return to its entry value after every encode","encode.go Indenter")],observe=["Append","Encoder.SetIndent","Encoder.Encode"])

p("C10","Raw JSON is re-emitted token for token, in source order",
"Encoding a RawMessage, or the JSON returned by a MarshalJSON method, emits exactly its tokens in source order with only insignificant whitespace and HTML escapes inside strings allowed to differ; object keys are never reordered, dropped or duplicated. A message which is not one well-formed JSON value (optionally surrounded by whitespace) is rejected with an error, unless TrustRawMessage is set, in which case encoding never fails and a malformed message is passed through whole.",
["inputs","configurations"],"all byte slices as RawMessage x flags x indenters x colors",
"Tests have a few messages; validity and token order must hold for all of them.",
["encode.go","token.go","parse.go"],[("validation","encode.go encodeRawMessage"),("token walk","encode.go appendRawMessageTokens")],observe=["Append","Marshal","Encoder.Encode"])

p("C11","Tokenizer visits exactly the tokens of the input",
"Iterating a Tokenizer over a well-formed JSON text yields exactly its tokens in order, each Value being the token's raw bytes, with Delim set for delimiters, Depth, Index and IsKey describing its position (IsKey true exactly for object keys), and ends with Err nil. On any input Next never panics, and iteration ends with a non-nil Err if a token is malformed or a closing bracket does not match.",
["inputs","histories"],"all byte slices, all sequences of Next/Reset calls",
"Tests walk a few small documents; position bookkeeping depends on the whole history of pushes and pops.",
["token.go","parse.go"],[("Next","token.go Next"),("scope stack","token.go push/pop/is/depth/index")],
state=[("Tokenizer.stack","open containers with their element counts","token.go"),("Tokenizer.isKey","whether the next value is an object key","token.go")],observe=["Tokenizer.Next"])

p("C12","Stream decoding does not depend on how the input is chunked",
"A Decoder reading a sequence of JSON values produces the same values, the same errors at the same points and the same final io.EOF whatever the sizes of the reader's chunks and wherever internal buffer boundaries fall; a stream ending inside a value yields io.ErrUnexpectedEOF or a syntax error, never a truncated value. After each successful Decode, InputOffset equals the number of stream bytes before the unread data, and Buffered followed by the reader is that unread data (leading whitespace skipped).",
["inputs","schedules","histories"],"all byte streams x all chunkings x all sequences of Decode calls",
"Tests use short in-memory readers; the boundaries of the 32 KiB buffer are never exercised.",
["json.go","parse.go"],[("readValue","json.go readValue"),("incomplete-vs-malformed distinction: empty remainder","parse.go")],
state=[("Decoder.remain/buffer/inputOffset","unread data, its backing store, stream position","json.go Decoder")],observe=["Decoder.Decode","Decoder.Buffered","Decoder.InputOffset"])

p("C13","Encode writes one whole value or nothing",
"Each successful Encode call makes exactly one Write containing the complete encoded value followed by a newline, and a failed encoding writes nothing. A writer error is remembered: every later Encode returns an error and writes nothing; an encoding error is not, so later Encodes produce exactly what a fresh Encoder with the same settings would.",
["inputs","fault_sequences","histories"],"all sequences of Encode calls, values, writer failures and encoding failures",
"Tests make one or two Encode calls; failures followed by further calls are not explored.",
["json.go","encode.go"],[("Encode","json.go Encode"),("Indenter depth","encode.go push/pop")],
state=[("Encoder.err","sticky writer error","json.go Encoder"),("Indenter.depth","nesting level","encode.go Indenter")],observe=["Encoder.Encode"])

p("C14","Decoded values never alias the input unless zero-copy was asked for",
"Without DontCopyString, DontCopyNumber or DontCopyRawMessage, strings, Numbers, RawMessages and byte slices stored by Parse and Unmarshal (including inside maps, slices, structs and interfaces) share no memory with the input, so overwriting the input afterwards cannot change them. With those flags the stored values are the same.",
["inputs","histories"],"all inputs, destinations and flag combinations, followed by arbitrary overwriting of the input buffer",
"Tests compare values right after decoding; aliasing shows only after the buffer is reused.",
["decode.go","parse.go"],[("copy on store","decode.go decodeString/decodeNumber/decodeRawMessage/decodeBytes"),("isNew","parse.go parseStringUnquote")],observe=["Parse","Unmarshal","Decoder.Decode"])

p("C15","Map keys are emitted in sorted order, deterministically",
"With SortMapKeys set, maps of every supported key kind are emitted with every entry exactly once and keys in increasing order of their JSON key text (integer keys included), and encoding the same value twice gives identical bytes. Without SortMapKeys every entry is still emitted exactly once.",
["inputs","configurations"],"all maps x flags",
"Map iteration order is random; tests sample a few small maps.",
["encode.go","codec.go"],[("sort","encode.go encodeMap/encodeMapStringInterface/encodeMapStringRawMessage; codec.go constructMapCodec")],observe=["Append","Marshal","Encoder.Encode"])

p("C16","EscapeHTML leaves no <, >, &, U+2028 or U+2029 in the output",
"With EscapeHTML set (the default of Marshal and Encoder), successful output contains none of the characters <, >, &, U+2028 and U+2029 anywhere: not in string values, map keys, struct field names, Numbers, text-marshaler output, nor RawMessage or MarshalJSON output (except for malformed messages written as they are because TrustRawMessage is set). With EscapeHTML off, <, > and & appear verbatim.",
["inputs","configurations"],"all Go values, with and without colors and indentation (whose strings do not themselves contain these characters)",
"Tests check a few strings; every path by which text reaches the output must escape.",
["encode.go","codec.go"],[("doEncodeString","encode.go"),("appendCompactEscapeHTML","encode.go"),("precomputed html keys","codec.go appendStructFields")],observe=["Append","Marshal","Encoder.Encode"])

p("C17","Appending preserves the destination prefix and does not depend on it",
"Append(b, x, ...) returns b's bytes unchanged followed by an encoding of x that does not depend on b's contents, length or capacity; on failure the returned slice still begins with b's bytes. This holds for every value, flag, color set and indenter.",
["inputs","programs"],"all destination buffers (contents, length, spare capacity) x all values x settings",
"Tests call Append with nil or short buffers; in-place fixups near the end of the buffer depend on its content.",
["encode.go","json.go"],[("append-only encoders","encode.go"),("in-place fixups","encode.go encodeFloat/encodeToString/doEncodeBytes")],observe=["Append"])

p("C18","IsColorTerminal follows its documented precedence",
"IsColorTerminal(w) returns false if NO_COLOR is non-empty; otherwise true if FORCE_COLOR is non-empty; otherwise false if TERM is \"dumb\"; otherwise false for a nil writer, a non-*os.File writer or a file that is not a terminal, and true only for a terminal. This holds for every combination of these variables and writers.",
["configurations","inputs"],"all environments x all writers",
"Tests set a few combinations; the precedence is a total decision table over environment and writer.",
["terminal.go"],[("IsColorTerminal","terminal.go")],observe=["IsColorTerminal"])

p("C19","fatih/color adapter reproduces the color's own escape codes",
"ToCoreColor returns the exact SGR prefix sequence that the given fatih/color value emits before text when coloring is enabled, and an empty color for a nil input; ToCoreColors maps every field of the fatihcolor set to the core field of the same name and returns nil for nil. Neither modifies its argument.",
["inputs"],"all fatih colors (any attribute list) and all color sets",
"Tests convert the default set only.",
["helper/fatihcolor/fatihcolor.go"],[("ToCoreColor/ToCoreColors","helper/fatihcolor/fatihcolor.go")],observe=["ToCoreColor","ToCoreColors"])

p("C20","Decoding into interface{} yields the documented Go types and values",
"Decoding a well-formed JSON value into an empty interface produces nil, bool, float64 (or Number holding the literal when UseNumber is set), string, []interface{} or map[string]interface{} according to the value's kind, with every element and member present, in array order and with the last duplicate member winning. The result is the same as encoding/json's up to the treatment of invalid UTF-8.",
["inputs"],"all well-formed JSON texts, with and without UseNumber",
"Tests decode a few documents.",
["decode.go"],[("decodeInterface","decode.go"),("decodeMapStringInterface/decodeSlice","decode.go")],observe=["Unmarshal","Parse","Decoder.Decode"])

p("C21","Numbers encode exactly and reject what JSON cannot represent",
"Every Go integer encodes as its exact decimal representation; every finite float as a JSON number which parses back to the same float of that width and matches encoding/json's text; NaN and infinities are errors. A Number is emitted verbatim if and only if it is a complete JSON number literal, an empty Number encodes as 0, and any other Number is an error.",
["inputs"],"all integers of every width, all float32/float64 values, all Number strings",
"Tests sample a few numbers.",
["encode.go","jsoncolor.go"],[("encodeInt*/encodeUint*","encode.go"),("encodeFloat","encode.go"),("encodeNumber","encode.go")],observe=["Append","Marshal"])

p("C22","Struct members match fields exactly first, then case-insensitively",
"When decoding an object into a struct, a member is stored in the field whose JSON name equals the key exactly if there is one, else in a field whose name matches ignoring case (unless DontMatchCaseInsensitiveStructFields is set), and otherwise is skipped, or is an error if DisallowUnknownFields is set. Fields with no matching member keep their previous value.",
["inputs","configurations"],"all objects x struct types x flags",
"Tests use a few structs and keys.",
["decode.go","parse.go","codec.go"],[("decodeStruct lookup","decode.go decodeStruct"),("case folding","parse.go appendToLower"),("field indexes","codec.go constructStructType")],observe=["Unmarshal","Parse"])

p("C23","Fixed-size arrays and slices hold exactly the decoded elements",
"After successfully decoding a JSON array into a slice, the slice has exactly the array's elements in order (empty non-nil for []); into a Go array, element i of the destination is JSON element i, extra JSON elements are ignored and missing ones are set to the zero value. JSON null makes a slice nil and leaves an array unchanged.",
["inputs"],"all JSON arrays x element types x array lengths x previous destination contents",
"Tests decode small arrays into zeroed destinations of matching length.",
["decode.go"],[("decodeArray","decode.go"),("decodeSlice and growth","decode.go")],observe=["Unmarshal","Parse"])

p("C24","jc never writes color codes to a file named with -o",
"The jc command writes to an output file given with -o exactly the package's indented (by default) or compact (-p=false) encoding of the decoded input, with no color codes, whatever the environment and the other flags. On standard output it never colors when -c=false is given or the output is not a color terminal, and with or without colors the text is that same encoding; on invalid input it exits non-zero.",
["inputs","configurations"],"all inputs x flag combinations x environments",
"No test runs the command.",
["cmd/jc/main.go","terminal.go"],[("color decision","cmd/jc/main.go doWork")],observe=["jc"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
