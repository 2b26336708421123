#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (keeps the file in one format)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MQ = "miniquery/"
p("C01", "Parsing any text ends in exactly one of a usable tree or an error",
  "For every input string, parsing terminates without panicking and returns either an error and no tree, or a tree and no error. "
  "Every tree returned is complete: each node has exactly the operands its kind needs, its literals carry a concrete value, its operators are ones the package defines, and printing it or walking it does not panic. "
  "The text of every parse error can be rendered without panicking.",
  ["inputs"], "all byte strings, including invalid UTF-8, NUL bytes and truncated constructs",
  "Tests parse a few dozen fixed strings; a panic, a hang, a half-built tree or a tree next to an error can hide behind any one of the other byte strings.",
  ["miniquery/parse.go", "miniquery/tree.go", "miniquery/miniquery.peg.go", "miniquery/node.go"],
  [("Parse", "miniquery/parse.go"), ("tree-building stack actions", "miniquery/tree.go"), ("generated PEG matcher", "miniquery/miniquery.peg.go")])
p("C02", "The parser accepts exactly the documented grammar and keeps every token",
  "A string is accepted if and only if the documented grammar (the PEG file of the package, ordered choice, whole input) derives it. "
  "The tree of an accepted string holds every name, literal, operator, argument and list element of the text exactly once, in source order and in the role the grammar gives it; nothing is dropped, merged, reordered or invented.",
  ["inputs"], "all strings over the grammar's tokens and their near misses",
  "Tests compare a handful of trees; backtracking, ordered choice and the value stack can lose or misplace an operand only for particular combinations of constructs.",
  ["miniquery/miniquery.peg", "miniquery/miniquery.peg.go", "miniquery/tree.go"],
  [("grammar rules and actions", "miniquery/miniquery.peg"), ("matcher with backtracking", "miniquery/miniquery.peg.go"), ("value stack", "miniquery/tree.go")])
p("C03", "Every documented spelling of an operator means its canonical operator",
  "Each documented spelling of a comparison, logic, membership, like, between, is-null and is-true/false operator - symbol or word, in every letter case the grammar allows, with any white space or comments between its words - parses to the one canonical operator it stands for. "
  "No spelling is cut short, swallowed by a longer or shorter operator, or passed on verbatim.",
  ["inputs"], "all documented operators x all letter cases x all white space and comments between the words x both operand orders",
  "The number of case and spacing variants is exponential in the length of the operator; tests try one variant of some operators.",
  ["miniquery/miniquery.peg", "miniquery/miniquery.peg.go", "miniquery/node.go", "miniquery/tree.go"],
  [("operator rules", "miniquery/miniquery.peg"), ("NormalizeOperation", "miniquery/node.go")])
p("C04", "Literals reach the tree with exactly the value that was written",
  "A quoted string literal of valid UTF-8 text yields exactly the characters between its quotes, in either quote style, with no escape processing. "
  "An integer literal yields exactly its decimal value, or the parse fails if it does not fit the integer type; the keywords true, false and null (all lower or all upper case) yield those constants.",
  ["inputs"], "all string contents, all integer digit sequences, the keyword literals, in every position a literal may take",
  "Tests use short ASCII strings and small integers; overflow, quoting and non-ASCII behaviour depend on the exact characters.",
  ["miniquery/tree.go", "miniquery/miniquery.peg", "miniquery/miniquery.peg.go"],
  [("literal actions", "miniquery/tree.go"), ("literal rules", "miniquery/miniquery.peg")])
p("C05", "White space and comments between tokens never change the tree",
  "Putting any amount of white space (spaces, tabs, line ends) or comments between two tokens of a query, or before and after the query, leaves the parsed tree unchanged (a dotted name, and a function name with its opening parenthesis, are one token); no text of a comment ever becomes part of a name, a literal or an operator. "
  "White space inside a quoted literal is kept.",
  ["inputs"], "all white space and comment texts at every token boundary of a query",
  "Each boundary can take infinitely many fillings and the matcher handles them in different rules; tests cover single spaces and one comment.",
  ["miniquery/miniquery.peg", "miniquery/miniquery.peg.go", "miniquery/node.go"],
  [("spacing and comment rules", "miniquery/miniquery.peg"), ("NormalizeOperation", "miniquery/node.go")])
p("C06", "Operators group as in SQL and parentheses override",
  "In a query without parentheses, comparison binds tighter than not, not binds tighter than and, and and binds tighter than or; operators of equal strength group to the left. "
  "Parentheses group exactly what they enclose, and redundant parentheses do not change what the query means.",
  ["inputs", "programs"], "all chains of conditions joined with and/or (&&/||), with not and parentheses at any place",
  "Grouping mistakes appear only for particular sequences of three or more operators and their truth values; tests check a few sequences and never evaluate them.",
  ["miniquery/miniquery.peg", "miniquery/miniquery.peg.go", "miniquery/tree.go"],
  [("logic, not, compare and primary rules", "miniquery/miniquery.peg"), ("logic node construction", "miniquery/tree.go")])
p("C07", "Printing a parsed query and parsing it again gives the same query",
  "For every accepted query, printing its tree succeeds and the printed text is itself an accepted query whose tree is equal to the first one, with the same names, literals, operators, arguments and grouping.",
  ["inputs"], "all accepted queries, all literal contents",
  "Tests print a few queries; quoting, nesting, function names and grouping only go wrong for particular nestings and characters.",
  ["miniquery/node.go", "miniquery/parse.go", "miniquery/tree.go"],
  [("query printer (Build)", "miniquery/node.go"), ("Parse", "miniquery/parse.go")])
p("C08", "Joined queries mean the conjunction of their parts",
  "Joining several queries yields one query that holds exactly when all of the non-empty ones hold; empty queries have no effect and joining nothing yields the empty query. "
  "When every part is a valid query the joined text is a valid query, each part keeps its own grouping, and it does not matter how the parts are distributed over nested lists.",
  ["inputs", "configurations"], "all lists of valid queries of any length and order",
  "Tests join fixed lists; whether one part can change the grouping of another depends on the operators and comments in the parts.",
  ["miniquery/join.go", "gormq/miniquery.go"],
  [("Join", "miniquery/join.go"), ("MiniQuery list", "gormq/miniquery.go")])
p("C09", "The visitor reports every node of the tree to the right callback, in order",
  "Walking a parsed tree with a visitor calls, for each node, the callback of its kind (or the default behaviour if none is set), in source order and exactly once, starting at the root. "
  "An error returned by a callback stops the walk and is returned; without callbacks the walk of every parsed tree succeeds and does not panic.",
  ["inputs", "configurations"], "all parsed trees x all subsets of callbacks set x all positions of a failing callback",
  "No test uses the visitor; subsets of callbacks x node kinds x error positions multiply.",
  ["miniquery/visitor.go", "miniquery/node.go"],
  [("Visitor", "miniquery/visitor.go")])
p("C10", "gorm: literals are only ever bound as parameters, in order",
  "For every query, no character of a string or integer literal or of a comment appears in the SQL text handed to gorm: the text is made only of fixed keywords, quoted column names of the model, punctuation and placeholders. "
  "The number of placeholders equals the number of bound values and the values are the query's literals, with exact value and type, in source order.",
  ["inputs"], "all accepted queries, all literal contents and all comment texts",
  "Injection hides in the one input out of all strings that a test author did not think of; placeholder/value alignment depends on the combination of constructs.",
  ["gormq/miniquery.go", "miniquery/node.go"],
  [("SQL builder over the tree", "gormq/miniquery.go"), ("operator text", "miniquery/node.go")])
p("C11", "gorm: names resolve to columns of the model or the query is refused",
  "A name in a query is accepted only if it is the database name, or the Go field name in any letter case, of a column of the model, or relation.column of a relation of the model, and is rendered as exactly that column's database name; every other name makes the query fail with an error. "
  "Names that differ in letters, such as those of relations, ignored fields and Go field names without a column, are never rendered.",
  ["inputs", "configurations"], "all identifiers and dotted references against a model with renamed, ignored, embedded and relation fields",
  "Tests use the right names; the space of wrong names is infinite and includes Go names of relations and ignored fields.",
  ["gormq/miniquery.go"],
  [("name resolution against the gorm schema", "gormq/miniquery.go")])
p("C12", "gorm: the SQL condition selects exactly the rows the query describes",
  "For every accepted and convertible query and every row, the SQL condition produced for gorm evaluates under SQL's three-valued logic to the same truth value as the query, where names denote column values, literals denote themselves and operators have their documented meaning. "
  "This covers comparison, like, in, between, is-null/true/false, not, and/or, grouping and function calls.",
  ["inputs", "programs"], "all queries built from the supported constructs x all rows including NULLs",
  "Tests compare text of a few queries; that the text means the same for all rows and NULLs and nestings is a statement about all values.",
  ["gormq/miniquery.go"],
  [("SQL builder over the tree", "gormq/miniquery.go")])
p("C13", "gorm: a query that cannot be converted fails closed",
  "If any query given to gorm does not parse, names something unknown, uses an unknown function or a construct that has no SQL form, the resulting statement carries an error, so that nothing is executed with a weaker condition than asked for; no query makes the conversion panic. "
  "An empty query list adds no condition and no error.",
  ["inputs", "configurations"], "all query texts, valid or not, alone and in lists with valid ones",
  "A silently dropped condition shows up only for the inputs that trigger the drop; tests cover one or two rejected names.",
  ["gormq/miniquery.go"],
  [("Scope / ApplyMiniQuery", "gormq/miniquery.go")])
p("C14", "gorm: applied queries only ever narrow the statement they are applied to",
  "Applying a query to a gorm statement yields the conjunction of the conditions put on it with Where or Not before, the query, and such conditions added later: the result holds for a row exactly when all of them hold, whatever operators they contain. "
  "The model, table and other parts of the statement are kept, and a statement shared between requests is not changed.",
  ["inputs", "configurations", "histories"], "all queries x prior and later conditions with and without OR x several applied queries",
  "Precedence mistakes between separately written conditions show only for particular operator combinations and rows.",
  ["gormq/miniquery.go", "miniquery/join.go"],
  [("Scope / ApplyMiniQuery", "gormq/miniquery.go"), ("Join", "miniquery/join.go")])
p("C15", "gorm: a relation used in a query is joined once and its columns are qualified",
  "Every relation named in a query is joined exactly once however often it is named, relations not named are not joined, and relations already joined stay joined. "
  "Each relation.column renders as that column qualified with that relation, and a plain column never refers to a column of a joined relation. A row without a related row is not dropped: the relation's columns are null for it.",
  ["inputs", "configurations"], "all queries mentioning relations any number of times, in any order, nested in any construct",
  "Missing or double joins depend on the order and repetition of references; tests use one relation once.",
  ["gormq/miniquery.go"],
  [("relation references and joins", "gormq/miniquery.go")])
ES = ["entmq/entsql.go", "entmq/entsql_util.go"]
p("C16", "ent SQL: literals are only ever bound as arguments, in order",
  "For every query, no character of a string or integer literal or of a comment appears in the SQL predicate text: the text is made only of fixed keywords, quoted names, whitelisted functions, casts, punctuation and placeholders. "
  "Placeholders are numbered so that each refers to its own literal, and the arguments are the query's literals with exact value and type, in source order (the left operand of between may be bound once per bound).",
  ["inputs"], "all accepted queries, all literal contents, all comment texts, both placeholder styles",
  "Injection and argument misalignment hide in particular literals and combinations; tests compare a few texts.",
  ES + ["miniquery/node.go"],
  [("SQL predicate builder", "entmq/entsql.go"), ("operator text", "miniquery/node.go")])
p("C17", "ent SQL: the predicate selects exactly the rows the query describes",
  "For every accepted and convertible query and every row, the SQL predicate evaluates under SQL's three-valued logic to the same truth value as the query, where names denote column values, literals denote themselves and operators have their documented meaning; and it keeps that value when combined with other predicates of the selector. "
  "This covers comparison, like, in, between, is-null, not, and/or, grouping and function calls.",
  ["inputs", "programs"], "all queries built from the supported constructs x all rows including NULLs x other predicates on the selector",
  "Tests compare text of a few queries; equality of meaning is a statement about all rows and nestings.",
  ES,
  [("SQL predicate builder", "entmq/entsql.go")])
p("C18", "ent SQL: a query that cannot be converted fails closed",
  "For every text, building the SQL predicate never panics: it either succeeds with a non-empty predicate for the whole query, or reports an error (unknown function, wrong number or kind of arguments, unknown edge, construct without SQL form). "
  "An error anywhere in the query, also inside an edge condition, reaches the caller, and an empty query adds no predicate or is an error.",
  ["inputs", "configurations"], "all query texts, valid or not, with and without a schema graph",
  "Panics and swallowed errors depend on argument counts and nesting that no test tries.",
  ES,
  [("SQL predicate builder", "entmq/entsql.go"), ("has_edge", "entmq/entsql.go")])
p("C19", "ent SQL: edge conditions stay inside the edge's subquery",
  "An edge condition becomes a test for related rows: it holds for a row exactly when some row related to it through the named edge satisfies the condition (all operators of the condition included), or, without a condition, when some related row exists. "
  "Names and literals inside the condition refer to the related row, and what stands before and after the edge condition is unaffected by it.",
  ["inputs", "programs"], "all edge conditions over all row pairs, combined with any surrounding query",
  "That an OR inside the condition cannot escape the correlation is a statement about all operators and rows; tests compare two texts.",
  ES,
  [("has_edge", "entmq/entsql.go"), ("edge resolution", "entmq/entsql_util.go")])
p("C20", "ent entql: the predicate tree means what the query says",
  "For every accepted and convertible query and every row, the entql predicate evaluates to the same truth value as the query, with the same field names, literal values and grouping. "
  "No negation, condition or operand is lost.",
  ["inputs", "programs"], "all queries built from the supported constructs x all rows including NULLs",
  "Tests compare the text of a few predicates; lost negations and regrouping only show for particular combinations and rows.",
  ["entmq/entql.go"],
  [("entql predicate builder", "entmq/entql.go")])
p("C21", "ent entql: a query that cannot be converted fails closed",
  "For every text, building an entql predicate never panics and yields either an error or a predicate for the whole query; constructs that entql cannot express are errors. "
  "Applying queries to a filter adds each non-empty one exactly once, skips empty ones, and reports an error without panicking when one cannot be converted.",
  ["inputs", "configurations"], "all query texts, valid or not, and all lists of them",
  "Type assertions and value stacks fail only for particular shapes that no test tries.",
  ["entmq/entql.go"],
  [("entql predicate builder", "entmq/entql.go"), ("ApplyEntQL", "entmq/entql.go")])
p("C22", "Converting the same query again gives the same condition",
  "A query, a gorm scope made from one, and an ent predicate or builder made from one can be used any number of times: each use gives the same error or the same condition with the same arguments as the first. "
  "No use leaves anything behind that changes a later one.",
  ["inputs", "histories"], "all queries x repeated use of the same parsed text, scope, predicate and builder",
  "Tests convert each query once; state kept in a builder shows only when it is used again.",
  ["entmq/entsql.go", "entmq/entql.go", "gormq/miniquery.go", "miniquery/parse.go"],
  [("SQL predicate builder state", "entmq/entsql.go"), ("entql predicate builder stack", "entmq/entql.go"), ("gorm scope", "gormq/miniquery.go")])
p("C23", "ent SQL: a name becomes exactly its column",
  "A name written without upper-case letters is rendered in an ent SQL predicate as exactly that column, quoted for the dialect; a name with upper-case letters as its snake case form: the same letters and digits in lower case, words split by single underscores. "
  "No other text of the predicate depends on the name, edge conditions included.",
  ["inputs", "configurations"], "all identifiers x all places of a query x dialects and ways of building",
  "Name conversion goes wrong for particular sequences of digits, letters and underscores, which example names do not have.",
  ES,
  [("column names", "entmq/entsql.go"), ("has_edge", "entmq/entsql.go")])
p("C24", "Bound values are ones a database driver accepts, unchanged",
  "For every literal of a query converted for gorm, ent SQL or entql, the bound argument passes the standard conversion of arguments for a database driver without error and arrives there with the literal's value and type. "
  "A cast written around its placeholder is of a type that holds that value.",
  ["inputs", "configurations"], "all literals (every integer that can be written, every string, bools, null) x all places x dialects, with and without casts",
  "Range and type limits show only for particular magnitudes and places; tests look at the arguments without passing them to a driver.",
  ES + ["gormq/miniquery.go", "entmq/entql.go", "miniquery/node.go"],
  [("casts and arguments", "entmq/entsql.go"), ("literal values", "miniquery/node.go")])
p("C25", "ent entql: a built predicate runs in ent as the query says",
  "For every query for which an entql predicate is built, evaluating that predicate with ent's schema graph does not panic: it gives an error, or SQL that has the query's truth value for every row. "
  "Comparisons of a field with a field or a value, is-null tests, in, between and their combinations with and, or, not are evaluated without error.",
  ["inputs", "programs"], "all queries built from the supported constructs x all rows including NULLs x dialects",
  "A predicate can print well and still not be one that ent can evaluate; tests compare the printed text only.",
  ["entmq/entql.go"],
  [("entql predicate builder", "entmq/entql.go")])
p("C26", "ent SQL: type casts are written exactly as configured",
  "For Postgres, unless type casting is disabled, every integer and bool literal outside of a list is bound with a placeholder that carries a cast to a type of its kind that holds it, edge conditions included. "
  "Strings and nulls are never cast. With type casting disabled, or for another dialect, no placeholder carries a cast anywhere in the predicate.",
  ["inputs", "configurations"], "all literals x all places, inside and outside of edge conditions x dialects, with and without casts, alone and in a statement",
  "Whether a cast is there depends on the place, the magnitude and the options together; Postgres refuses or misreads the statement only for some of them.",
  ES,
  [("casts", "entmq/entsql_util.go"), ("has_edge", "entmq/entsql.go")])
p("C27", "Reading values, printing and walking leave a parsed tree unchanged",
  "The value of a literal node is the Go value that was written: an int, a string, a bool, nil, or for a list the values of its elements in order. "
  "Reading values, printing, describing or walking a tree gives the same result each time and leaves every node of it unchanged. "
  "A list that was read can be changed without changing the tree.",
  ["inputs", "histories"], "all accepted queries x repeated reading, printing and walking",
  "A shared list or an in-place change shows only when the same tree is used again, for particular shapes of tree.",
  ["miniquery/node.go", "miniquery/visitor.go"],
  [("values", "miniquery/node.go"), ("printer", "miniquery/node.go"), ("visitor", "miniquery/visitor.go")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
