import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
p("C01","Scanner position stays valid and moves are all-or-nothing",
 "After every sequence of scanner calls the position lies inside the text, Head() followed by Tail() is exactly the text, and AtStart/AtEnd/Mark/Since/Get agree with that position. Move (bytes), MoveRunes (runes, forward and backward, an invalid UTF-8 byte counts as one rune), ToMarker, ToStart and ToEnd either move to exactly the requested position and return true, or return false and leave the scanner where it was; requests that would leave the text are always refused. A coupled Tracker is told the new position of every move and nothing else.",
 ["inputs","histories"],"every text, every sequence of move calls, every requested offset and marker including out-of-range ones",
 "tests call MoveRunes four times on one text and never request a position outside of the text",
 ["scanner.go","scanner_rev.go","intl.go","tracker.go"],[("Move/MoveRunes/ToMarker","scanner.go"),("reverse rune iterator","intl.go")],["Head","Tail","Mark","return values","Tracker.Update"],
 [dict(name="scanner position",meaning="byte offset in the text",where="scanner.go")])
p("C02","If functions move exactly over a match at the position",
 "If, IfAny, IfFold, IfRune, IfAnyRune, IfBetween and IfMatch return true exactly if the text at the current position begins with the wanted string or rune (IfAny: the first matching string of the list; IfFold: equal rune by rune under Unicode case-folding, also when the variants differ in byte length), and then move exactly over the matched text. Otherwise they return false and do not move. They never panic and no rune matches at the end of the text.",
 ["inputs","configurations"],"every text, start position and argument, including empty strings, multi-byte runes, U+FFFD, invalid bytes and arguments longer than the remaining text",
 "one to six examples per function, no failing example for most, none near the end of the text",
 ["scanner.go","intl.go"],[("If*","scanner.go"),("foldPrefix","intl.go")],["return value","Mark"])
p("C03","To functions move to the first match or stay",
 "To, ToFold, ToRune, ToAnyRune, ToBetween and ToMatch look for the first place at or after the current position where the wanted string or rune begins. If there is one they move exactly there (possibly by zero) and return true. If there is none they return false and do not move.",
 ["inputs","configurations"],"every text, start position and argument, with several, overlapping or no appearances",
 "one to four successful examples per function",
 ["scanner.go","intl.go"],[("To*","scanner.go")],["return value","Mark"])
p("C04","While functions consume the longest matching run",
 "WhileRune, WhileAnyRune, WhileBetween and WhileMatch move over the longest run of matching runes at the current position, up to the end of the text if all of it matches. They return true exactly if the scanner was moved.",
 ["inputs","configurations"],"every text, start position and argument, including runs of length zero and runs that reach the end",
 "the tests ignore the return values and pin one run to the end only for two functions",
 ["scanner.go"],[("While*","scanner.go")],["return value","Mark"])
p("C05","Reverse functions mirror the forward functions",
 "RevIf*, RevTo*, RevWhile* and RevReadRune look at the text before the position and move backward: RevIf over a match that ends at the position, RevTo to the end of the last appearance, RevWhile over the longest matching run. They return true exactly if there was a match (RevWhile: exactly if the scanner was moved), otherwise they do not move. Their result on a text is the mirror image of the forward function on the reversed text, they never panic, and no rune matches at the start of the text.",
 ["inputs","configurations"],"every text, position and argument, including U+FFFD, invalid bytes, multi-byte runes and arguments longer than the text before the position",
 "the tests for RevIfBetween, RevToBetween, RevWhileBetween, RevIfMatch, RevToMatch and RevWhileMatch have no cases",
 ["scanner_rev.go","intl.go","read.go"],[("Rev*","scanner_rev.go"),("reverse rune iterator","intl.go")],["return value","Mark"])
p("C06","Integers are read exactly and never overflow",
 "ReadInt and ReadUint (and the Int and Uint readers) read the longest prefix of digits of the base (8, 10 or 16, after an optional sign for ReadInt) whose value fits in the bit size, return exactly that value and move exactly over it. Without a digit that fits they return an error, and the scanner does not move. An unsupported base or bit size is an error without a move.",
 ["inputs","configurations"],"every text and start position, every base and bit size, values around every boundary and overflow wrap",
 "about forty literal values; the 64 bit overflow check was only tried for one decimal value per function",
 ["read.go","reader.go"],[("ReadInt/ReadUint overflow check","read.go")],["value","error","Mark"])
p("C07","Bool, rune and string reads are exact",
 "ReadBool accepts exactly the spellings of its format (l, U, Cc, * or empty), returns the value it read and fails for any other text or format. ReadRune returns the next encoded rune, U+FFFD included, and fails at the end of the text and at an invalid byte. ScanString(n) returns the next n runes and moves over them exactly if at least n runes are left; a failed read never moves the scanner.",
 ["inputs","configurations"],"every text, start position, format and count, including reads that end exactly at the end of the text",
 "ScanString is tried on one text, ReadBool and ReadRune not at all",
 ["read.go","scanner.go","intl.go","reader.go"],[("ReadBool/ReadRune","read.go"),("ScanString","scanner.go")],["value","ok/error","Mark"])
p("C08","Scoped use restores the position on failure",
 "Scope, Trace, Tokenize, Capture, Use, UseFunc, TraceUse, TraceUseFunc, TokenizeUse and CaptureUse leave the scanner exactly where it was when the function or reader fails, wherever that one left it. On success the scanner stays where the function left it and the returned string or token is exactly the text between the two positions, whichever comes first. Nesting them does not change this, and While repeats its function until it returns false and reports whether the scanner is further forward than before.",
 ["inputs","histories","programs"],"every function body (sequence of moves, then success or failure), every nesting of the scoping calls",
 "only CaptureUse and Use are called, and never on a reader that moves and then fails",
 ["scanner.go","reader.go","token.go"],[("mark and ToMarker on failure","scanner.go, reader.go, token.go")],["Mark","returned string/token"])
p("C09","Reader expressions follow ordered-choice semantics",
 "For every expression built from the built-in readers and every text the read succeeds and consumes exactly what the documented meaning says: Seq in order, Any the first alternative that matches at the same start, Opt, Zom and Many greedy (stopping when an iteration does not move, Many only succeeding if it moved), Times exactly n, At without moving, Not one rune if the sub reader does not match, To up to and Past beyond the first match, Body and BodyTail up to or beyond the first tail with a body that reads everything before it, SkipSeq skipping before, between and after (and failing if the skip reader fails). Rune, string and reader arguments are interchangeable.",
 ["programs","inputs"],"every expression tree up to a bound over all reader kinds, every text and start position",
 "about ten fixed expressions, each on one text",
 ["reader.go","scanner.go"],[("Read methods of the combinators","reader.go")],["error or nil","Mark"])
p("C10","A reader that fails leaves the scanner in place",
 "Whenever a built-in reader, combination of built-in readers, rule or grammar returns an error from Read, the scanner is at the position where that read started. This holds at every level, so a failed part inside Any, Opt, Zom, Many, To, Past or Not never shifts the place where reading continues.",
 ["programs","inputs"],"every expression tree up to a bound, every text and start position, with partial matches at every depth",
 "no test looks at the position after a failed Read of a combinator",
 ["reader.go","grammar.go","grammar/json.go","grammar/mxt.go","grammar/lua.go"],[("ToMarker on failure in each Read","reader.go")],["Mark after a failed Read"])
p("C11","Every read ends without panic on every text",
 "Reading with any expression of built-in readers or with the JSON, MXT or Lua grammar always returns after finitely many steps and never panics, for every text: empty, truncated anywhere, containing U+FFFD or invalid UTF-8. In particular repetitions of readers that can match the empty string end, and the position stays inside the text. Nesting does not multiply the work: for JSON and MXT texts the number of movements is at most quadratic in the length of the text.",
 ["programs","inputs"],"every expression with nested repetitions, every text up to a bound over an alphabet with invalid bytes, every truncation and one-byte corruption of documents",
 "the tests only read complete valid documents",
 ["reader.go","scanner.go","grammar/json.go","grammar/mxt.go","grammar/lua.go"],[("progress check in Zom and Many","reader.go"),("MoveRunes over invalid bytes","scanner.go"),("end-of-text checks","reader.go")],["termination","panics","Mark"])
p("C12","A failed read reports where and what was expected",
 "A failed read returns a ReadError whose position is where the reader that could not continue was tried and whose What is the description of that reader. Seq, SkipSeq, Times, At and Opt-free wrappers pass the error of the failing part on; Any reports the error that occurred furthest in the text (the last one among equals), or itself at its start if no alternative gave a ReadError; To, Past, Body, Many and Not report at their start. The read functions of the scanner report at their start and name the sort of value (rune, bool, integer, unsigned integer). Error() renders both, and the position never lies outside of the text.",
 ["programs","inputs"],"every failing expression and text within the bounds",
 "no test looks at the content of an error",
 ["error.go","reader.go"],[("ErrorFor","error.go"),("deepest error selection","reader.go")],["ReadError.Marker","ReadError.What","Error()"])
p("C13","Janus pairs expect exactly what the first reader matched",
 "The second reader of a Janus pair matches exactly the text that the first one matched most recently, at every attempt: before the first one ever matched it matches the empty string. Failed or abandoned attempts of the second reader do not change what it expects, a failed attempt of the first one does not either, and different pairs do not influence each other.",
 ["histories","programs","inputs"],"every sequence of attempts with both readers of one or two pairs, every expression around them, every text",
 "three successful reads in which the second reader is tried successfully once",
 ["reader.go"],[("janus begin/end readers","reader.go")],["success and Mark of the second reader"],
 [dict(name="expected string",meaning="text matched last by the first reader",where="reader.go")])
p("C14","The basket holds exactly the picks of the successful path",
 "With a basket coupled to the scanner, Picked() contains after every read, in the order in which they were completed, one segment for every picked reader or rule that was part of the successful match, with its name and exact range in the text, and nothing from alternatives, repetitions or look-aheads that were given up. A failed read leaves the basket as it was before. This includes readers inside Body and BodyTail. Later reads do not change a list that Picked() returned before.",
 ["programs","inputs","histories"],"every expression with picked parts, every text, with backtracking at every depth and sequences of reads on one scanner",
 "no test checks a basket",
 ["tracker.go","reader.go","scanner.go","grammar.go"],[("Basket.Update on backtracking","tracker.go"),("pick reader","tracker.go"),("Tracker notification","scanner.go")],["Basket.Picked","Basket.String"],
 [dict(name="basket segments",meaning="picked so far, truncated on backtracking",where="tracker.go")])
p("C15","Monitoring, mapping, naming and picking do not change a read",
 "Wrapping any part of an expression or a rule with Monitor, Map, Named or Pick changes neither success nor consumed text nor the position of the error. Map calls its function exactly once per success of the wrapped reader with the token it read, and never for a failure. The log has one entry per entered monitored reader in the order of entry, with its nesting level, enter position, exit position and error, also for nested readers, printing it gives one line per entry, and Reset empties it, at any time.",
 ["programs","inputs","histories"],"every placement of wrappers in every expression within the bound, every text, logs of any length and nesting",
 "monitoring is only switched on in one test that ignores the log",
 ["monitor.go","reader.go","tracker.go","grammar.go"],[("monitorReader","monitor.go"),("mapReader","reader.go"),("Rule.Map/Monitor/Pick","grammar.go")],["Log.Entries","map calls","result of the read"])
p("C16","Token relations form a consistent interval algebra",
 "A token made from two markers in any order spans from the smaller to the larger one. Before, After, Covers and Clashes are exactly the interval relations (ends touch without overlapping; clash means overlap without covering), any two tokens are related by at least one of before, after, covers, covered-by and clashes, and clashing excludes all others. Merge is the smallest token covering both, Split returns the parts left and right of the separator, Len and String describe the range.",
 ["inputs"],"every pair of tokens, including empty, equal, touching and nested ones",
 "nine pairs",
 ["token.go","segment.go"],[("Token methods","token.go")],["return values"])
p("C17","Sorting segments is a stable total order, covering first",
 "SortSegments permutes the segments so that they are ordered by start and, at the same start, longer before shorter; hence a segment that covers another one always comes first, also for empty and overlapping segments, and segments with equal tokens keep their order. SortSegmentsByOrder additionally orders segments with equal tokens by the first mention of their info in the order list (infos that are not listed come first), keeping the order of equals. The result does not depend on the order of the input otherwise.",
 ["inputs"],"every list of segments, including empty, equal, nested and clashing tokens and lists longer than 20",
 "one list per function without equal (except one pair), empty or clashing tokens",
 ["segment.go"],[("comparison functions","segment.go")],["order of the slice"])
p("C18","Segmentate partitions the text without gaps or overlaps",
 "If the given segments are in order, disjoint and inside the range, Segmentate returns them unchanged and in order, with every gap before, between and after them filled by one segment with the info of the split segment (empty for a scanner), so that the concatenated texts are exactly the text. If a segment is out of order, overlaps a previous one or leaves the range, it returns an error and never a wrong partition. The given list stays as it was.",
 ["inputs"],"every list of segments over a range, including empty ones, ones touching the borders, and invalid lists",
 "one valid list",
 ["segment.go","token.go"],[("Segmentate","segment.go"),("Split","token.go")],["returned segments","error"])
p("C19","A graph is always a properly nested tree of its segments",
 "After any sequence of Append calls every node covers its children, siblings do not overlap and stand in text order, every accepted segment appears exactly once and the root covers everything. Append accepts a segment exactly if it clashes with no segment in the graph; a refused segment leaves the graph unchanged. A later segment with an equal range becomes the parent of the earlier one, and for segments that can be nested the shape does not depend on the order of insertion. BuildGraph appends the segments of a list in order and does not change the list.",
 ["histories","inputs"],"every sequence of appended segments within the bound, including empty, equal, nested, touching and clashing ones in every order",
 "four single appends and one build in top-down order",
 ["graph.go","token.go"],[("rankNodes","graph.go"),("root token backup","graph.go")],["Root","Append result"],
 [dict(name="node tree",meaning="segments by nesting",where="graph.go")])
p("C20","Leafs, FlameStack and Equal describe the graph exactly",
 "Leafs returns the segments of the nodes without children from left to right. FlameStack has one line per node in pre-order, made of the path from the root (position among the siblings, info and range of each node, joined by semicolons) and the length of the node. Equal holds exactly for graphs with the same segments in the same shape.",
 ["inputs","histories"],"every graph that can be built from segment lists within the bound, every pair of such graphs",
 "Leafs is tried on one graph, FlameStack never",
 ["graph.go"],[("appendLeafs/makeStackLines/Equal","graph.go")],["Leafs","FlameStack","Equal"])
p("C21","The JSON grammar reads exactly JSON",
 "Using the JSON grammar on a text succeeds exactly if some prefix of it is a valid JSON text (RFC 8259, with surrounding whitespace), and consumes the longest such prefix; so a text is read to its end exactly if it is valid JSON. Otherwise it returns an error and does not move. Each rule of the grammar, used on its own, reads exactly the part of a JSON text that it is named after (value, object, member, key, string, character, escape, number, digits, ...).",
 ["inputs"],"every text up to a bound over the JSON symbols, every token sequence up to a bound, every one-byte change of documents",
 "four valid documents, no invalid one",
 ["grammar/json.go","reader.go"],[("JSON rules","grammar/json.go")],["Use(JSON())","Mark"])
p("C22","Picked JSON segments are the parse tree of the document",
 "Picking rules of the JSON grammar while reading a text yields exactly the occurrences of these rules in the parse of that text: objects, members, keys, arrays, elements, strings, characters, escapes, numbers and their parts, booleans, nulls and whitespace, with their exact ranges, each completed after its parts. The picked segments never clash, so the graph built from them contains all of them, nested as in the document.",
 ["inputs"],"every text within the bounds of the JSON check, all rules picked at once or one at a time",
 "no test picks anything from JSON",
 ["grammar/json.go","tracker.go","graph.go","grammar.go"],[("rule wiring","grammar/json.go"),("NewBasketFor","tracker.go")],["Basket.Picked","BuildGraph"])
p("C23","The MXT grammar splits a text into its chunks exactly",
 "An MXT text is read as its sequence of chunks: a header line beginning with // and any marker characters, spaces, the name, a comment that may span lines up to the first arrow (a word ending in -->), an optional salt, then either nothing or a line break and the content up to the next line that begins with // followed by the salt, or the end. Names and contents are returned exactly as written, in order, with \\n and \\r\\n line breaks; lines beginning with // but without the salt belong to the content. A chunk without salt ends at any line beginning with //, whatever was read before. Picking the other rules (marker, comment, arrow, salt, header, chunk, chunks) yields exactly these parts of the chunks.",
 ["inputs","histories"],"every text up to a bound over the MXT symbols, every composition of chunks with and without salts and comments",
 "two documents",
 ["grammar/mxt.go","reader.go"],[("MXT rules","grammar/mxt.go"),("Janus salt","reader.go")],["Name/Content/EmptyContent map calls","Mark"])
p("C24","Lua names, numerals, strings and comments are read exactly",
 "The Lua readers read exactly the lexical elements of Lua 5.4: names (not reserved words), decimal and hexadecimal numerals with fraction and exponent, quoted strings with escapes, long strings and long comments that end at the first closing bracket of the same level, and line comments up to the line break or the end. They consume the longest such element at the position and fail without moving if there is none.",
 ["inputs"],"every text up to a bound over the symbols of each lexical class, long brackets with every level and every decoy inside",
 "four literal strings; no numeral, comment or long bracket with a level",
 ["grammar/lua.go","reader.go"],[("LuaNumeral/LuaString/LuaComment/luaName","grammar/lua.go")],["Mark after Use","error"])
p("C25","The Lua grammar reads exactly the syntactically valid chunks",
 "The Lua grammar reads a text to its end exactly if it is a syntactically valid Lua 5.4 chunk: all statements, expressions with all operators, calls, methods, indexing, table constructors, function definitions, labels, attributes and return. Spaces, line breaks and comments between tokens do not change that, and words that begin with a keyword are ordinary names. The rules for statements, expressions, lists, tables, functions, blocks and scripts, used on their own, read a text to its end exactly if it is such a part of a chunk; a script can begin with a line that starts with #!.",
 ["inputs","programs"],"every token sequence up to a bound that is a viable prefix of a Lua chunk, each also with one wrong token, with several ways of spacing",
 "three fragments and the empty chunk",
 ["grammar/lua.go","reader.go"],[("Lua rules","grammar/lua.go")],["Use(Lua())","AtEnd"])
p("C26","Rule names and grammar bookkeeping are exact",
 "CheckRuleName accepts exactly names that consist of a letter followed by letters, digits and the characters + - . _. SetRuleNames gives every exported Rule field with a name tag exactly this name, leaves others alone and reports an invalid name; CollectRules returns pointers to exactly the exported Rule fields in order; CheckRules fails exactly if a rule of the grammar has an invalid name or no reader. GrammarLines has one line per rule with its name and description, and the built-in grammars pass all of this.",
 ["inputs","configurations"],"every name up to a bound over all bytes, every combination of field kinds in a grammar struct",
 "one struct with two valid names",
 ["grammar.go","grammar/json.go","grammar/mxt.go","grammar/lua.go"],[("reflection over the fields","grammar.go"),("RuleName reader","grammar.go")],["returned errors","Rule.Name","returned rules"])
p("C27","Invalid readers are visible and never read anything",
 "Building a reader from an argument of an unsupported type, a malformed range string or an odd number of range bounds gives a reader that always fails without moving. Its description contains the invalid-reader marker, and so does the description of every expression that contains it (other than under a custom name), so HasInvalidReader and AnyHasInvalidReader find it. Valid expressions never contain the marker.",
 ["programs","configurations"],"every constructor with every kind of invalid argument at every place, inside every expression within the bound",
 "one invalid and one valid expression",
 ["reader.go"],[("InvalidReader","reader.go"),("asReader","reader.go")],["What","HasInvalidReader","Read"])
p("C28","Readers and grammars can be reused without memory",
 "Reading a text with a reader or grammar instance gives the same result, position, error, picked ranges and values whatever was read with this instance before, successfully or not. Value readers (Bool, Int, Uint) hold the value of their last read.",
 ["histories","inputs"],"every sequence of texts up to a bound read one after another with one instance, compared with fresh instances",
 "no test uses an instance for two texts with different content",
 ["reader.go","grammar/json.go","grammar/mxt.go","grammar/lua.go","grammar.go"],[("Janus state","reader.go"),("salt handling","grammar/mxt.go"),("Value fields","reader.go")],["result of each read"],
 [dict(name="Janus expectation",meaning="survives between reads",where="reader.go")])
p("C29","Independent parses do not interfere with each other",
 "Parses that run interleaved or concurrently on different scanners, each with its own readers and grammars or sharing only stateless readers, give exactly the results they give alone, for every interleaving. Constructing, reading, describing or monitoring one reader never changes another one.",
 ["schedules","histories"],"every interleaving of two or three parses with a bounded number of preemptions at every scanner move and callback",
 "tests run one parse at a time",
 ["reader.go","scanner.go","read.go","grammar/json.go","grammar/mxt.go","grammar/lua.go"],[("no package-level mutable state","all files")],["results of each parse"])
p("C30","LineCol gives the line and column of the position",
 "LineCol returns the number of line breaks before the position plus one, and one plus the number of bytes between the last line break and the position, each tab counted as the given width. \\n and \\r\\n both count as one line break; it does not move the scanner.",
 ["inputs"],"every text and position within the bound, every tab width",
 "ten positions, no \\r\\n",
 ["scanner.go"],[("LineCol","scanner.go")],["return values"])
p("C31","Reader descriptions reflect the structure of the reader",
 "What() of every built-in reader is composed from its parameters and the descriptions of its parts in the notation of the package, a named reader and a rule are described by their name, wrappers like Map, Pick and Monitor are invisible, and reading never changes a description.",
 ["programs"],"every expression tree within the bound, before and after reading",
 "fifteen fixed expressions",
 ["reader.go","grammar.go","monitor.go","tracker.go"],[("What methods","reader.go")],["What","Rule.Rule","GrammarLines"])
p("C32","The demo commands print the flame stack of the named file",
 "json-stack FILE prints exactly the flame stack of the objects, arrays, keys, strings, numbers, booleans and nulls of the JSON text in the file, and full-lua-stack FILE exactly that of all rules of the Lua grammar, with the name of the file as root, for every content and every file name. If there is not exactly one argument, the file can't be read or its content doesn't begin with a JSON text, the command prints a message on the standard error, nothing on the standard output and ends with a non-zero exit status.",
 ["inputs","configurations"],"every text up to a bound, every insertion in documents, every kind of arguments",
 "the commands have no tests",
 ["demo/json-stack/main.go","demo/full-lua-stack/main.go","graph.go","tracker.go"],[("main","demo/json-stack/main.go"),("main","demo/full-lua-stack/main.go")],["standard output","exit status"])
p("C33","Picked Lua segments are the parse of the chunk",
 "Picking rules of the Lua grammar while reading a valid chunk yields exactly the occurrences of these rules in the parse of the chunk: names, numerals, strings, comments, operators, fields and tables, function definitions, parameters, bodies and arguments, lists of names, expressions and variables, attributes, each kind of statement, blocks and the chunk, each over its tokens (with surrounding space at most), each completed after its parts. Every expression, operand and assigned variable is among the picks of exp, finalexp and var. The picked segments never clash, so the graph built from them contains all of them.",
 ["inputs","programs"],"every valid chunk among the token sequences up to a bound, with all spacings, names and operators, for every choice of picked rules",
 "the tests never pick rules of the Lua grammar",
 ["grammar/lua.go","tracker.go","grammar.go","graph.go"],[("Lua rules","grammar/lua.go"),("Pick","tracker.go")],["Picked","BuildGraph"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
