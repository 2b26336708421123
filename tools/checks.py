# Bounds of the checks; read by mkchecks.py.
LONG = "queries longer than the bounds (deep nesting in particular)"
HUGE = "far larger sizes than usual: lists of up to 1001 elements, chains of 129 terms, nesting of depth 65, strings of 16385 bytes, calls with 129 arguments, names of 4097 characters, white space and comments of 4097 characters, 53 conditions of every kind"

check("C01",
  e("C01_Bytes", "every byte string of up to 3 bytes (thorough: 4)", {"L": 3}, {"L": 4}, 60, 300, ["error", "tree"]),
  e("C01_Holes", "47 skeleton queries with every string of up to 2 bytes in the hole (thorough: 3)", {"K": 2}, {"K": 3}, 60, 600, ["error", "tree"]),
  e("C01_Edit", "53 sample queries with every word, operator and kind of literal of the grammar, up to 1 byte at every position replaced by every string of up to 1 byte (thorough: 2)", {"D": 1, "K": 1}, {"D": 2, "K": 2}, 60, 900, ["error", "tree"]),
  e("C01_Gen", "every sentence within 3 non-default derivation choices (thorough: 4), any digit or character in its literals", {"B": 3}, {"B": 4}, 100, 600, ["tree"]),
  e("C01_Int", "numbers around and beyond the limits of the integer types with any last 7 digits, every position", {"D": 7}, None, 60, 120, ["tree"]),
  e("C01_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1, "digits": 4}, {"B": 2, "big": 1, "digits": 6}, 60, 900),
  e("C01_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000, "digits": 4}, None, 60, 60),
  outside=[LONG, "stack exhaustion by nesting depth"])
check("C02",
  e("C02_Bytes", "every byte string of up to 3 bytes (thorough: 4) against a reference recogniser", {"L": 3}, {"L": 4}, 60, 300),
  e("C02_Holes", "skeleton queries with every string of up to 2 bytes in the hole (thorough: 3)", {"K": 2}, {"K": 3}, 60, 600),
  e("C02_Edit", "53 sample queries with every word, operator and kind of literal of the grammar, up to 1 byte at every position replaced by every string of up to 1 byte (thorough: 2)", {"D": 1, "K": 1}, {"D": 2, "K": 2}, 60, 900, ["accept", "reject"]),
  e("C02_Gen", "every sentence within 3 non-default derivation choices (thorough: 4)", {"B": 3}, {"B": 4}, 100, 900),
  e("C02_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C02_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  e("C02_Lit", "integers of 1 to 19 digits, strings of up to 2 bytes of UTF-8 (thorough: 3), bools and null, 11 places", {"L": 2, "D": 19}, {"L": 3, "D": 19}, 60, 600),
  e("C02_Lit", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, 11 places", {"shape": 1}, None, 60, 60),
  outside=[LONG])
check("C03",
  e("C03_Ops", "every spelling with any letter case, or any filler of one piece (thorough: two, longer comments, case and filler together) between or around its words", {"F": 1, "M": 1}, {"F": 2, "M": 1, "both": 1}, 100, 900),
  e("C03_Ops", "the same with long white space, long comments and many short ones, 17 to 1025 bytes, with any byte at their end", {"long": 1}, None, 100, 200),
  outside=["longer fillers than the bound"])
check("C04",
  e("C04_Str", "string literals of any valid UTF-8 content of up to 4 bytes (thorough: 6), both quotes, every position", {"L": 4}, {"L": 6}, 60, 600, ["str"]),
  e("C04_Str", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, both quotes, every position", {"shape": 1}, None, 60, 60, ["str"]),
  e("C04_Str", "strings of 31 to 65537 bytes of ASCII and other text with any three bytes in them, both quotes, every position", {"shape": 2, "_steps": 80000000}, None, 60, 60, ["str"]),
  e("C04_Int", "every integer literal of 1 to 18 digits, every position", {"D": 18}, None, 60, 60, ["int"]),
  e("C04_Limit", "18 to 21 digit integers with any last 4 to 7 digits around the limits of the integer types", {"fix": 14}, {"fix": 13}, 60, 300, ["int", "too big"]),
  e("C04_Huge", "integers of 22 to 1025 digits with any last two, every position", {}, None, 60, 60, ["too big"]),
  e("C04_Word", "keywords and zero, every position", {}, None, 30),
  outside=["string literals with invalid UTF-8", "integers of more than 1025 digits"])
check("C05",
  e("C05_Fill", "any white space or comment of up to 1 byte (thorough: 2) at every token boundary of 27 queries that cover the grammar", {"F": 1, "M": 1}, {"F": 1, "M": 2}, 100, 900),
  e("C05_Fill", "long white space, long comments and many short ones, 17 to 1025 bytes, at every token boundary", {"long": 1}, None, 100, 200),
  e("C05_Fill", "fillers at two boundaries at once", {"F": 1, "M": 0, "two": 1}, {"F": 1, "M": 1, "two": 1}, 60, 900, onlyT=True),
  e("C05_Lit", "white space and comment openers inside literals, fillers of two pieces", {"F": 2, "M": 1}, None, 60, 120),
  outside=["longer fillers than the bound"])
check("C06",
  e("C06_Chain", "every chain of up to 4 terms within 2 non-default choices (thorough: 5 and 3), all rows of three-valued column values", {"N": 4, "B": 2}, {"N": 5, "B": 3}, 100, 900),
  e("C06_Paren", "redundant parentheses in chains of up to 3 terms", {"N": 3, "B": 1}, {"N": 3, "B": 2}, 60, 600),
  e("C06_Gen", "every sentence within 2 non-default derivation choices (thorough: 3)", {"B": 2}, {"B": 3}, 60, 600),
  e("C06_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C06_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  outside=[LONG])
check("C07",
  e("C07_Bytes", "every byte string of up to 3 bytes (thorough: 4)", {"L": 3}, {"L": 4}, 60, 300),
  e("C07_Holes", "skeleton queries with every string of up to 2 bytes in the hole (thorough: 3)", {"K": 2}, {"K": 3}, 60, 600),
  e("C07_Edit", "53 sample queries with every word, operator and kind of literal of the grammar, up to 1 byte at every position replaced by every string of up to 1 byte (thorough: 2)", {"D": 1, "K": 1}, {"D": 2, "K": 2}, 60, 900),
  e("C07_Gen", "every sentence within 3 non-default derivation choices (thorough: 4)", {"B": 3}, {"B": 4}, 100, 900),
  e("C07_Chain", "every chain of up to 2 terms (thorough: 3) within 3 non-default choices", {"N": 2, "B": 3}, {"N": 3, "B": 3}, 60, 600),
  e("C07_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1, "digits": 3}, {"B": 2, "big": 1, "digits": 3}, 60, 900),
  e("C07_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000, "digits": 3}, None, 60, 60),
  e("C07_Int", "integers of 1 to 19 digits with any last 2 digits (thorough: 4), 11 places", {"D": 2}, {"D": 4}, 60, 300),
  e("C07_Lit", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, 11 places", {"shape": 1}, None, 60, 60),
  e("C07_Lit", "strings of 31 to 65537 bytes of ASCII and other text with any three bytes in them", {"shape": 2, "_steps": 80000000}, None, 60, 60),
  outside=[LONG])
check("C08",
  e("C08_Join", "every list of up to 2 of 26 queries and 4 blanks", {"N": 2}, {"N": 3}, 60, 600, ["joined"]),
  e("C08_Join", "every list of up to 3 of 6 queries and 4 blanks", {"N": 3, "P": 6}, {"N": 4, "P": 6}, 60, 600, ["joined"]),
  e("C08_Join", "lists of 4 to 65 queries with each of 26 queries and 4 blanks at their beginning, middle or end", {"many": 1}, None, 60, 60, ["joined"]),
  e("C08_Gen", "every pair of generated queries within 2 non-default choices, symbolic literals and rows", {"B": 2}, {"B": 3}, 60, 900, ["joined"]),
  e("C08_Near", "2 or 3 parts that are alike: the same words in any letter case or other white space and comments, any 2 characters (thorough: 3) in a string, any last digits in a number", {"L": 2}, {"L": 3}, 60, 600, ["joined"]),
  e("C08_Gen", "one long or deep query of every kind joined with a short one", {"B": 0, "big": 1}, {"B": 1, "big": 1}, 60, 900),
  e("C08_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  e("C08_Lit", "integers of 1 to 19 digits, strings of up to 2 bytes of UTF-8 (thorough: 3), bools and null, 13 places of the first of two parts", {"L": 2, "D": 19}, {"L": 3, "D": 19}, 60, 600),
  e("C08_Lit", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, 13 places of the first of two parts", {"shape": 1}, None, 60, 60),
  outside=["parts that are not valid queries", "comment at the end of a part without line end is covered only by the parts listed"])
check("C09",
  e("C09_Walk", "every generated tree within 2 non-default choices (thorough: 3), callback sets: none, each kind, leaves, all; failing callback at every position", {"B": 2}, {"B": 3}, 100, 900, ["fail"]),
  e("C09_Sets", "every set of callbacks, 7 kinds of operand (thorough: 16) in 13 contexts; callbacks that go on to the children or not; failing callback at every position", {"T": 7}, {"T": 16}, 100, 900, ["fail"]),
  e("C09_Walk", "long and deep trees, callback sets: none, leaves, all; failing callback at every position", {"B": 0, "big": 1, "chain": 2, "depth": 3, "list": 3}, {"B": 1, "big": 1}, 60, 900),
  e("C09_Walk", HUGE + "; failing callback at every position, or with more than 60 callbacks at the first, second, middle and last two", {"B": 0, "big": 2, "_steps": 80000000, "chain": 2, "depth": 3, "list": 3}, None, 60, 60),
  e("C09_Wrap", "callbacks added to every default one, 18 terms with any digits in 13 conditions, failing at any position", {}, None, 60, 60),
  outside=[LONG, "sets of callbacks on larger trees: there only the sets listed"])
check("C10",
  e("C10_Gen", "every sentence over the model within 3 non-default derivation choices (thorough: 4), any digit or character in its literals", {"B": 3}, {"B": 4}, 100, 900, ["sql"]),
  e("C10_Str", "string literals of any valid UTF-8 content of up to 3 bytes (thorough: 5), both quotes, 15 places", {"L": 3}, {"L": 5}, 60, 600),
  e("C10_Str", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, both quotes, 15 places", {"shape": 1}, None, 60, 60),
  e("C10_Int", "integer literals of 1 to 18 digits with any digits, 15 places", {"D": 18}, None, 60, 60),
  e("C10_Comment", "one comment or white space of up to 1 byte (thorough: 2) at every token boundary of 9 queries", {"M": 1}, {"M": 2}, 60, 300),
  e("C10_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C10_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  outside=[LONG, "dialects: the statement is taken with ? placeholders and backtick quotes"])
check("C11",
  e("C11_Names", "29 names of and near the model, any letter case of 4 letters at a time (thorough: 8), 2 places", {"N": 4}, {"N": 8, "P": 4}, 60, 600, ["resolved", "refused"]),
  e("C11_Refs", "31 dotted names of and near the model, any letter case of 3 letters at a time (thorough: 6), 2 places", {"N": 3}, {"N": 6, "P": 4}, 60, 600, ["resolved", "refused"]),
  e("C11_Places", "known and unknown names at 10 places of a query", {}, None, 30),
  e("C11_Short", "every identifier of up to 3 characters (thorough: 4) as name, as column of a relation and as relation", {"N": 3}, {"N": 4}, 60, 600, ["resolved", "refused"]),
  e("C11_Long", "identifiers of 30 to 1025 characters that begin like a name of the model, with any two characters in them, as name, as column of a relation and as relation", {}, None, 60, 60, ["refused"]),
  e("C11_Swap", "a model whose field names are other columns' database names", {}, None, 30),
  outside=["longer identifiers that are not in the lists", "models other than the three used"])
check("C12",
  e("C12_Gen", "every sentence over the model within 3 non-default derivation choices (thorough: 4), any literals, all rows of three-valued column values", {"B": 3}, {"B": 4}, 100, 900),
  e("C12_Chain", "every chain of up to 4 terms within 2 non-default choices (thorough: 5 and 3), all rows", {"N": 4, "B": 2}, {"N": 5, "B": 3}, 60, 900),
  e("C12_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C12_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  e("C12_Lit", "integers of 1 to 19 digits, strings of up to 2 bytes of UTF-8 (thorough: 3), bools and null, 15 places, all rows", {"L": 2, "D": 19}, {"L": 3, "D": 19}, 60, 600),
  e("C12_Lit", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, 15 places, all rows", {"shape": 1}, None, 60, 60),
  outside=[LONG, "lists other than after in", "how a database compares values of different types, collations and the pattern language of like: these are uninterpreted, both sides use the same function"])
check("C13",
  e("C13_Bytes", "every byte string of up to 3 bytes (thorough: 4)", {"L": 3}, {"L": 4}, 60, 600, ["error", "sql"]),
  e("C13_Holes", "47 skeleton queries with every string of up to 2 bytes in the hole (thorough: 3)", {"K": 2}, {"K": 3}, 60, 900, ["error", "sql"]),
  e("C13_Edit", "53 sample queries with every word, operator and kind of literal of the grammar, up to 1 byte at every position replaced by every string of up to 1 byte (thorough: 2)", {"D": 1, "K": 1}, {"D": 2, "K": 2}, 60, 900, ["error", "sql"]),
  e("C13_Gen", "every sentence with unknown names, references and functions within 2 non-default derivation choices (thorough: 3)", {"B": 2}, {"B": 3}, 60, 900, ["error", "sql"]),
  e("C13_Func", "26 functions of databases and every function name of up to 2 characters (thorough: 3), 5 argument lists, 5 places", {"N": 2}, {"N": 3}, 60, 300, ["error"]),
  e("C13_List", "every list of up to 2 (thorough: 3) of 25 valid, blank and invalid queries, 4 ways of applying them", {"N": 2}, {"N": 3}, 60, 900, ["refused", "ok"]),
  e("C13_List", "lists of 4 to 65 queries with each of 25 valid, blank and invalid ones at their beginning, middle or end, 4 ways of applying them", {"many": 1}, None, 60, 60, ["refused", "ok"]),
  e("C13_Ops", "25 queries x 6 kinds of statement x 4 ways of applying", {}, None, 60),
  e("C13_NoModel", "statements without a usable model", {}, None, 30),
  e("C13_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C13_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  e("C13_Bad", "11 operands without a form, within any 2 of 17 constructs (thorough: 3), 2 ways of applying", {"D": 2}, {"D": 3}, 60, 600),
  outside=[LONG])
check("C14",
  e("C14_And", "12 queries (thorough: pairs of them), 8 conditions before and 8 after with any values, 4 ways of applying, all rows", {"Q": 1}, {"Q": 2}, 60, 900),
  e("C14_Gen", "every sentence within 2 non-default derivation choices (thorough: 3) between conditions with or, all rows", {"B": 2}, {"B": 3}, 60, 900),
  e("C14_Keep", "order, limit, offset, select, distinct, group and table, before and after the query", {}, None, 30),
  e("C14_Soft", "a model with soft delete and without relations: 11 queries, a condition before or after, 4 ways of applying, select and count, all rows", {}, None, 30),
  e("C14_Shared", "1 use (thorough: 2 in a row) of a shared session with good, bad and empty queries", {"R": 1}, {"R": 2}, 60, 900),
  e("C14_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C14_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  outside=["conditions joined to the statement with Or"])
check("C15",
  e("C15_Gen", "every sentence with relations within 3 non-default derivation choices, all rows", {"B": 3}, {"B": 3}, 100, 900),
  e("C15_Joins", "1 or 2 of 8 queries, relations joined before (thorough: and after), 4 ways of applying, all rows", {"Q": 2}, {"Q": 2, "after": 1}, 60, 900),
  e("C15_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C15_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  outside=["relations of relations", "many to many relations", "joins given as raw SQL"])
check("C16",
  e("C16_Gen", "every sentence with functions and edges within 3 non-default derivation choices (thorough: 4), any digit or character in its literals, 3 configurations of dialect, cast and selector (thorough: 8)", {"B": 3, "cfg": 3}, {"B": 4, "cfg": 1}, 100, 900, ["sql"]),
  e("C16_Gen", "all 8 configurations, 2 non-default choices (thorough: 3)", {"B": 2, "cfg": 8}, {"B": 3, "cfg": 8}, 60, 900, ["sql"]),
  e("C16_Str", "string literals of any valid UTF-8 content of up to 3 bytes (thorough: 5), both quotes, 17 places", {"L": 3}, {"L": 5}, 60, 600),
  e("C16_Str", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, both quotes, 17 places", {"shape": 1}, {"shape": 1, "cfg": 8}, 60, 60),
  e("C16_Int", "integer literals of 1 to 18 digits with any digits, 17 places", {"D": 18}, None, 60, 60),
  e("C16_Comment", "one comment or white space of up to 1 byte (thorough: 2) at every token boundary of 9 queries", {"M": 1}, {"M": 2}, 60, 300),
  e("C16_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1, "cfg": 3}, {"B": 2, "big": 1, "cfg": 3}, 60, 900),
  e("C16_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000, "cfg": 3}, None, 60, 60),
  outside=[LONG])
check("C17",
  e("C17_Gen", "every sentence within 3 non-default derivation choices (thorough: 4), any literals, 3 configurations, all rows of three-valued column values", {"B": 3}, {"B": 4, "cfg": 2}, 100, 900),
  e("C17_Chain", "every chain of up to 4 terms within 2 non-default choices (thorough: 5 and 3), all rows", {"N": 4, "B": 2}, {"N": 5, "B": 3}, 60, 900),
  e("C17_With", "17 queries and every sentence within 1 non-default choice (thorough: 2), 10 combinations with other predicates, all rows and values", {"B": 1}, {"B": 2}, 60, 900),
  e("C17_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C17_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  e("C17_Lit", "integers of 1 to 19 digits, strings of up to 2 bytes of UTF-8 (thorough: 3), bools and null, 17 places, 2 configurations, all rows", {"L": 2, "D": 19}, {"L": 3, "D": 19}, 60, 600),
  e("C17_Lit", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, 17 places, 2 configurations, all rows", {"shape": 1}, None, 60, 60),
  outside=[LONG, "lists other than after in", "how a database compares values of different types, collations and the pattern language of like: these are uninterpreted, both sides use the same function"])
check("C18",
  e("C18_Bytes", "every byte string of up to 3 bytes (thorough: 4)", {"L": 3}, {"L": 4}, 60, 600, ["error", "sql"]),
  e("C18_Holes", "47 skeleton queries with every string of up to 2 bytes in the hole (thorough: 3)", {"K": 2}, {"K": 3}, 60, 900, ["error", "sql"]),
  e("C18_Edit", "53 sample queries with every word, operator and kind of literal of the grammar, up to 1 byte at every position replaced by every string of up to 1 byte (thorough: 2)", {"D": 1, "K": 1}, {"D": 2, "K": 2}, 60, 900, ["error", "sql"]),
  e("C18_Gen", "every sentence with known and unknown functions, edges and references within 2 non-default derivation choices (thorough: 3)", {"B": 2}, {"B": 3}, 60, 900, ["error", "sql"]),
  e("C18_Func", "26 functions of databases and every function name of up to 2 characters (thorough: 3), 5 argument lists, 5 places", {"N": 2}, {"N": 3}, 60, 300, ["error"]),
  e("C18_With", "11 queries that cannot be converted and 17 that can, beside other predicates in 9 ways, 3 configurations", {}, None, 60, None, ["error", "sql"]),
  e("C18_Edge", "26 conditions at 9 places inside and beside edge conditions", {}, None, 60),
  e("C18_Graph", "missing node, id, edges, target and target id in the schema graph", {}, None, 30),
  e("C18_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C18_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  e("C18_Bad", "15 operands without a form, within any 2 of 19 constructs (thorough: 3), 2 configurations", {"D": 2}, {"D": 3}, 60, 600),
  outside=[LONG])
check("C19",
  e("C19_Gen", "every sentence around and inside an edge condition within 1 non-default derivation choice besides the edge (thorough: 2), 6 edges, databases of 2 rows per table with any content", {"B": 1}, {"B": 2}, 100, 900),
  e("C19_Nest", "edges nested to depth 2, databases of 2 rows per table", {"D": 2}, {"D": 2, "cfg": 4}, 60, 600),
  e("C19_Nest", "edges nested to depth 3, databases of 1 row per table and 2 users", {"D": 3, "rows": 1}, None, 100, 300),
  e("C19_Pair", "two conditions of every kind inside an edge, joined with and/or, 6 edges (thorough: 4 outer contexts)", {"O": 1}, {"O": 4}, 60, 600),
  e("C19_Big", "long and deep conditions of every kind inside an edge, 3 edges", {"B": 0, "big": 1, "E": 3, "O": 1}, {"B": 0, "big": 1}, 60, 900),
  e("C19_Big", HUGE + "; inside an edge, 2 edges", {"B": 0, "big": 2, "E": 2, "O": 1, "_steps": 80000000}, None, 60, 60),
  e("C19_Lit", "integers of 1 to 19 digits, strings of up to 2 bytes of UTF-8 (thorough: 3), bools and null, 5 places of edge conditions, 2 configurations, databases of 2 rows per table with any content", {"L": 2, "D": 19}, {"L": 3, "D": 19}, 60, 600),
  e("C19_Lit", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, 5 places of edge conditions, 2 configurations, databases of 2 rows per table with any content", {"shape": 1}, None, 60, 60),
  outside=[LONG, "databases with more rows", "foreign keys that refer to no row", "names that are not columns of the related table, or that are columns of the join table of a many to many edge", "tables in database schemas"])
check("C20",
  e("C20_Gen", "every sentence within 3 non-default derivation choices (thorough: 4), any literals, all rows of three-valued column values", {"B": 3}, {"B": 4}, 60, 900, ["built", "refused"]),
  e("C20_Chain", "every chain of up to 4 terms within 2 non-default choices (thorough: 5 and 3), all rows", {"N": 4, "B": 2}, {"N": 5, "B": 3}, 60, 900),
  e("C20_Lit", "string literals of up to 3 bytes of UTF-8 (thorough: 5) and integers of 1 to 18 digits, 10 places", {"L": 3}, {"L": 5}, 60, 300),
  e("C20_Lit", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, 10 places", {"shape": 1}, None, 60, 60),
  e("C20_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C20_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  outside=[LONG, "lists other than after in"])
check("C21",
  e("C21_Bytes", "every byte string of up to 3 bytes (thorough: 4)", {"L": 3}, {"L": 4}, 60, 600, ["error", "built"]),
  e("C21_Holes", "47 skeleton queries with every string of up to 2 bytes in the hole (thorough: 3)", {"K": 2}, {"K": 3}, 60, 900, ["error", "built"]),
  e("C21_Edit", "53 sample queries with every word, operator and kind of literal of the grammar, up to 1 byte at every position replaced by every string of up to 1 byte (thorough: 2)", {"D": 1, "K": 1}, {"D": 2, "K": 2}, 60, 900, ["error", "built"]),
  e("C21_Gen", "every sentence within 3 non-default derivation choices (thorough: 4)", {"B": 3}, {"B": 4}, 60, 900, ["error", "built"]),
  e("C21_List", "every list of up to 3 of 20 queries", {"N": 3}, None, 60, 60, ["refused", "applied"]),
  e("C21_List", "lists of 4 to 65 queries with each of 20 at their beginning, middle or end", {"many": 1}, None, 60, 60, ["refused", "applied"]),
  e("C21_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C21_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  e("C21_Bad", "8 operands without a form, within any 2 of 19 constructs (thorough: 3)", {"D": 2}, {"D": 3}, 60, 600),
  outside=[LONG])
check("C22",
  e("C22_Ent", "every sentence with edges within 2 non-default derivation choices (thorough: 3), built three times, 6 configurations", {"B": 2}, {"B": 3}, 60, 900),
  e("C22_QL", "every sentence within 2 non-default derivation choices (thorough: 3), built three times and parsed twice", {"B": 2}, {"B": 3}, 60, 900),
  e("C22_Gorm", "every sentence over the model within 2 non-default derivation choices (thorough: 3), applied to four statements", {"B": 2}, {"B": 3}, 60, 900),
  e("C22_Edit", "53 sample queries, up to 1 byte at every position replaced by every string of up to 1 byte (thorough: 2), parsed and converted twice", {"D": 1, "K": 1}, {"D": 2, "K": 2}, 60, 900, ["error", "same"]),
  e("C22_Near", "53 sample queries read before or after an edited one, up to 1 byte at every position replaced by every string of up to 1 byte (thorough: 2)", {"D": 1, "K": 1}, {"D": 2, "K": 2}, 60, 900, ["as before"]),
  e("C22_Lit", "two queries that differ in a string of up to 2 bytes (thorough: 3) or an integer of up to 3 digits, 15 places, 3 backends", {"L": 2, "N": 3}, {"L": 3, "N": 3}, 60, 600),
  e("C22_Ent", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C22_Ent", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  e("C22_QL", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C22_QL", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  e("C22_Gorm", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C22_Gorm", HUGE, {"B": 0, "big": 2, "_steps": 160000000}, None, 60, 60),
  e("C22_Cfgs", "12 queries with any digits, converted before in 8 configurations or for 3 other entities, up to 17 other queries in between (thorough: 129), 8 configurations", {"N": 17}, {"N": 129}, 60, 900),
  e("C22_Models", "8 names in 4 conditions with any digits, applied to another model before, up to 17 other queries in between (thorough: 129)", {"N": 17}, {"N": 129}, 60, 600),
  e("C22_Many", "53 sample queries, up to 129 other queries in between (thorough: 257)", {"N": 129}, {"N": 257}, 60, 600),
  e("C22_Often", "29 queries with any digits, used up to 68 times (thorough: 260)", {"N": 65}, {"N": 257}, 60, 900),
  outside=[LONG, "use by several goroutines at once"])
check("C23",
  e("C23_Short", "every identifier of up to 5 characters (thorough: 6) as name at 3 places", {"N": 5}, {"N": 6}, 60, 600),
  e("C23_Places", "26 names at 11 places, 8 configurations", {}, None, 60),
  e("C23_Long", "longer names with every 1 to 3 characters (thorough: 4) in their middle", {"N": 3, "P": 3}, {"N": 4, "P": 3}, 60, 600),
  e("C23_Long", "names of 31 to 1025 characters with any three characters in them", {"long": 1, "P": 3}, None, 60, 60),
  outside=["longer identifiers that are not in the lists", "which places of a name with upper case letters are word boundaries, other than in the listed names"])
check("C24",
  e("C24_Ent", "integers of 1 to 19 digits, strings of up to 2 bytes of UTF-8 (thorough: 4), bools and null, 17 places, 3 configurations (thorough: 8)", {"L": 2, "D": 19, "cfg": 3}, {"L": 4, "D": 19, "cfg": 8}, 100, 900),
  e("C24_Gorm", "the same, 15 places, 2 ways of applying", {"L": 2, "D": 19}, {"L": 4, "D": 19}, 60, 600),
  e("C24_QL", "the same, 10 places of an entql predicate", {"L": 2, "D": 19}, {"L": 4, "D": 19}, 60, 600),
  e("C24_Ent", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, 17 places, 3 configurations", {"shape": 1, "cfg": 3}, {"shape": 1, "cfg": 8}, 60, 60),
  e("C24_Ent", "strings of 31 to 65537 bytes of ASCII and other text with any three bytes in them", {"shape": 2, "_steps": 80000000, "cfg": 3}, None, 60, 60),
  e("C24_Gorm", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, 15 places", {"shape": 1}, None, 60, 60),
  e("C24_Gorm", "strings of 31 to 65537 bytes of ASCII and other text with any three bytes in them", {"shape": 2, "_steps": 80000000}, None, 60, 60),
  e("C24_QL", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, 10 places", {"shape": 1}, None, 60, 60),
  e("C24_QL", "strings of 31 to 65537 bytes of ASCII and other text with any three bytes in them", {"shape": 2, "_steps": 80000000}, None, 60, 60),
  e("C24_Gen", "every sentence with functions and edges within 2 non-default derivation choices (thorough: 3), 8 configurations", {"B": 2, "cfg": 8}, {"B": 3, "cfg": 8}, 60, 900, ["sql"]),
  outside=[LONG, "drivers with conversions of their own", "dialects of gorm other than the one used"])
check("C25",
  e("C25_Pair", "two of 21 conditions and operands, joined, negated and grouped in 5 ways, all rows", {}, None, 60, 60, ["sql", "refused"]),
  e("C25_Gen", "every sentence within 3 non-default derivation choices (thorough: 4), any literals, 2 dialects, all rows of three-valued column values", {"B": 3, "cfg": 2}, {"B": 4, "cfg": 2}, 100, 900, ["sql", "refused", "error"]),
  e("C25_Chain", "every chain of up to 4 conditions within 2 non-default choices (thorough: 5 and 3), all rows", {"N": 4, "B": 2}, {"N": 5, "B": 3}, 60, 900, ["sql"]),
  e("C25_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1, "cfg": 1}, {"B": 2, "big": 1, "cfg": 1}, 60, 900),
  e("C25_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000, "cfg": 1}, None, 60, 60),
  e("C25_Lit", "integers of 1 to 19 digits, strings of up to 2 bytes of UTF-8 (thorough: 3), bools and null, 10 places, all rows", {"L": 2, "D": 19}, {"L": 3, "D": 19}, 60, 600),
  e("C25_Lit", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, 10 places, all rows", {"shape": 1}, None, 60, 60),
  outside=[LONG, "lists other than after in", "queries that ent refuses to evaluate: comparison of anything but a field with a field or value", "how a database compares values of different types and collations: uninterpreted, both sides use the same function"])
check("C26",
  e("C26_Lit", "integers of 1 to 19 digits, strings of up to 2 bytes of UTF-8 (thorough: 4), bools and null, 17 places, 8 configurations of dialect, cast and selector", {"L": 2, "D": 19}, {"L": 4, "D": 19}, 60, 600, ["casts"]),
  e("C26_Gen", "every sentence with functions and edges within 3 non-default derivation choices (thorough: 4), any digit or character in its literals, 3 configurations (thorough: 2)", {"B": 3, "cfg": 3}, {"B": 4, "cfg": 2}, 100, 900, ["casts"]),
  e("C26_Gen", "all 8 configurations, 2 non-default choices (thorough: 3)", {"B": 2, "cfg": 8}, {"B": 3, "cfg": 8}, 60, 900, ["casts"]),
  e("C26_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1, "cfg": 3}, {"B": 2, "big": 1, "cfg": 3}, 60, 900),
  e("C26_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000, "cfg": 3}, None, 60, 60),
  outside=[LONG])
check("C27",
  e("C27_Edit", "53 sample queries with every word, operator and kind of literal of the grammar, up to 1 byte at every position replaced by every string of up to 1 byte (thorough: 2)", {"D": 1, "K": 1}, {"D": 2, "K": 2}, 60, 900, ["read"]),
  e("C27_Lit", "integers of 1 to 19 digits, strings of up to 3 bytes of UTF-8 (thorough: 4), bools and null, every position", {"L": 3, "D": 19}, {"L": 4, "D": 19}, 60, 600, ["value"]),
  e("C27_Lit", "strings that look like something else: 94 shapes of dates, numbers, keywords, placeholders, patterns, escapes and code, up to 256 bytes, with any digits, every position", {"shape": 1}, None, 60, 60, ["value"]),
  e("C27_Gen", "every sentence within 3 non-default derivation choices (thorough: 4), any digit or character in its literals", {"B": 3}, {"B": 4}, 60, 900, ["value", "read"]),
  e("C27_Gen", "long lists, calls, chains, names and strings, deep nesting and pairs of conditions of every kind, 1 non-default choice (thorough: 2)", {"B": 1, "big": 1}, {"B": 2, "big": 1}, 60, 900),
  e("C27_Gen", HUGE, {"B": 0, "big": 2, "_steps": 80000000}, None, 60, 60),
  outside=[LONG])
