#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

p("C01", "A parsed glob matches exactly the strings of its language",
  "For every well-formed glob and every subject string (valid UTF-8), Match answers true exactly when the whole string can be split into consecutive pieces matched by the glob's elements: a literal matches itself, ? one character (rune), * any possibly empty run of characters, [..] one character of the class, {..} one of its comma-separated alternatives (each again a glob, possibly empty). The answer does not depend on how the glob is spelled internally (merged wildcards, extracted prefix or suffix, large-list lookup) and every call terminates without panicking.",
  ["inputs"], "every (glob, string) pair of valid UTF-8 text without NUL/U+FFFD",
  "The tests sample a few dozen globs with a handful of strings each; backtracking over stars, lists, groups and multi-byte runes has combinatorially many cases, most of which are never exercised together.",
  ["glob/glob.go", "pkg/items/items.go", "pkg/items/wildcard.go", "pkg/items/stringlist.go", "pkg/items/group.go", "pkg/items/chain.go", "pkg/items/star.go"],
  [("prefix/suffix split and length pre-checks", "glob/glob.go Glob.Match"), ("backtracking matcher", "pkg/items/items.go matchItems/matchStarItems"), ("item primitives", "pkg/items/*.go Match/Find")],
  ["glob.Glob.Match"])

p("C02", "Exactly the well-formed globs are accepted, and parsing never crashes",
  "Parsing a glob succeeds exactly when it is well formed: every [ has a following ], every { a following }, no stray closing bracket, no list nested inside a list, and each class range a-b is ascending with both ends of the same UTF-8 length (a malformed alternative makes the whole glob malformed, a malformed or empty level a whole dotted glob). Every other input is answered with an error, and no input makes parsing panic or run forever.",
  ["inputs"], "every string (valid UTF-8 without NUL/U+FFFD) offered as a glob or dotted glob",
  "Tests list a dozen malformed globs; the accept/reject frontier depends on the position and nesting of brackets in arbitrary strings.",
  ["glob/glob.go", "gglob/gglob.go", "pkg/items/wildcard.go", "pkg/items/group.go", "pkg/utils/runesranges.go"],
  [("bracket scan", "pkg/items/wildcard.go NextWildcardItem"), ("class parser", "pkg/utils/runesranges.go RunesRangeExpand")],
  ["glob.Parse", "glob.ParseMust", "gglob.Parse"])

p("C03", "Normalization preserves a glob's meaning and merges equal spellings",
  "The normalized text of an accepted glob (or dotted glob) is itself accepted and describes exactly the same set of strings as the original. Spellings of a plain glob, or of the levels of a dotted one, that differ only in the order or repetition of list alternatives, of the members of a class outside of lists, or in the order of adjacent ? and * outside of lists (repeated * included), normalize to the same text.",
  ["inputs"], "every accepted glob, and every re-spelling of it by permuting or duplicating alternatives / class members",
  "Tests compare normalized text of fixed samples; they never compare languages, which needs all strings.",
  ["glob/glob.go", "gglob/gglob.go", "pkg/items/stringlist.go", "pkg/items/group.go", "pkg/utils/asciiset.go", "pkg/utils/runesranges.go"],
  [("normal form writer", "glob/glob.go Parse (Node), items WriteString"), ("list sort and dedup", "pkg/items/stringlist.go, group.go"), ("range merge", "pkg/utils/runesranges.go RunesRangeMerge")],
  ["Glob.Node", "Glob.String", "GGlob.Node"])

p("C04", "Batch glob matching reports exactly the globs that match individually",
  "At every point of any history of adding globs to a glob tree and matching strings, Match reports (as a set, with their own index and normalized text) exactly those added globs that match the string individually, and never one that was not added. The returned count equals the number of reports stored, adding a glob never changes what is reported for the others, and the order of additions does not matter.",
  ["histories", "inputs"], "every sequence of Add/AddGlob/Match operations over every set of globs and subject strings",
  "Tests build small fixed trees; shared prefixes, suffixes and sub-items between globs create interactions only visible for particular sets, orders and strings.",
  ["glob/tree.go", "pkg/items/tree.go", "pkg/items/store.go"],
  [("prefix tree over parsed items", "glob/tree.go addGlob"), ("tree scan", "pkg/items/tree.go TreeItem.Match")],
  ["GlobTree.Match", "items.Store"],
  [("Root", "trie of items with terminated nodes", "glob/tree.go"), ("Globs/GlobsIndex", "registered globs", "glob/tree.go")])

p("C05", "Dotted globs match level by level",
  "A dotted glob matches a path exactly when both have the same number of dot-separated levels (one trailing dot of either is ignored), no level is empty, and every level of the glob matches the corresponding level of the path as a plain glob, so that no wildcard crosses a dot. Matching the path as text and matching its split parts (given any of: no length, the length of the dotted text) give the same answer, and a dotted glob with an empty level (or one that denotes only the empty text, like []) is rejected.",
  ["inputs"], "every dotted glob and every path (valid UTF-8)",
  "Tests sample a few dotted globs and paths; length pre-checks, trailing dots and level counting interact on inputs not listed.",
  ["gglob/gglob.go", "gglob/utils.go", "glob/glob.go"],
  [("level count and length bounds", "gglob/gglob.go GGlob.Match"), ("level split", "gglob/utils.go PathLevel/PathSplit")],
  ["GGlob.Match", "GGlob.MatchByParts", "gglob.Parse"])

p("C06", "Batch dotted-glob matching equals individual matching, each exactly once",
  "At every point of any history of additions and matches on a dotted-glob tree, Match(path) and MatchByParts(parts) report each added dotted glob that individually matches the path exactly once, with its own index and normalized text, and nothing else. The returned count equals the number of reports, both forms agree for paths without empty levels, and earlier additions are unaffected by later ones.",
  ["histories", "inputs"], "every sequence of Add/AddGlob/Match/MatchByParts operations",
  "Tests use fixed sets of dotted globs; sharing of levels between globs and mixtures of literal and wildcard levels are only sampled.",
  ["gglob/gtree.go", "gglob/gglob.go"],
  [("per-level-count tree with literal map and wildcard list", "gglob/gtree.go addGGlob / MatchItems / MatchItemsByParts")],
  ["GGlobTree.Match", "GGlobTree.MatchByParts"],
  [("Root", "tree per number of levels", "gglob/gtree.go"), ("Globs/GlobsIndex", "registry", "gglob/gtree.go")])

p("C07", "Registration is consistent: unique indexes, no duplicates, no effect on failure",
  "In all three batch matchers an addition succeeds exactly when the index is non-negative and unused, the expression is valid and neither its text nor its normalized text is already registered; it then returns the normalized text and index, and both texts map to the index and the index to the normalized text. Any failing addition returns an error for a condition that really applies (for an already known expression together with its index) and, like adding an empty expression, changes neither the registry nor any later match result.",
  ["histories"], "every sequence of additions, valid and invalid, duplicate text, normalized duplicates, negative and reused indexes",
  "Tests add each expression once with fresh indexes plus a couple of single-error cases; they do not cover combinations of failing and succeeding additions nor state after a failure.",
  ["glob/tree.go", "gglob/gtree.go", "gtags/tree.go"],
  [("registry checks before insertion", "glob/tree.go Add/AddGlob, gglob/gtree.go Add/AddGlob, gtags/tree.go Add/AddTerms")],
  ["GlobTree.Add/AddGlob", "GGlobTree.Add/AddGlob", "GTagsTree.Add/AddTerms", "Globs, GlobsIndex, Queries, QueryIndex"],
  [("Globs/Queries", "text -> index", "trees"), ("GlobsIndex/QueryIndex", "index -> normalized text", "trees")])

p("C08", "seriesByTag expressions are parsed exactly and normalized reversibly",
  "seriesByTag(...) is parsed into exactly the terms it lists (single or double quoted; blanks, commas and empty quoted arguments ignored; key trimmed, name meaning __name__; operators =, !=, =~, !=~; value trimmed), and anything else - missing parts, unterminated quotes, an unquoted argument, more than 128 arguments, a term without key or operator, an invalid glob or regular expression - is rejected with an error and never a panic. The terms are ordered with __name__ first, then by key, operator and value, so the normalized text does not depend on argument order or quoting, and parsing the normalized text yields a query with the same meaning.",
  ["inputs"], "every query string (valid UTF-8), every list of conditions",
  "Tests parse a dozen queries; quoting, blanks, operators inside values and the argument limit combine in unbounded ways.",
  ["gtags/tagged_term.go", "gtags/errors.go"],
  [("argument scanner", "gtags/tagged_term.go seriesByTagArgs"), ("term parser and sort", "gtags/tagged_term.go ParseTaggedConditions")],
  ["gtags.ParseSeriesByTag", "gtags.ParseTaggedConditions", "TaggedTermList.String"])

p("C09", "A tag query matches exactly the tag sets that satisfy every term",
  "A parsed query matches a tag set exactly when every term is satisfied: = needs the tag present with a value equal to the literal or matching the glob, =~ needs it present with the regular expression found in the value, != and !=~ are satisfied when the tag is absent or the positive test fails. The slice form (tags with __name__ first, the rest sorted by key, unique) and the map form of the same tag set give the same answer.",
  ["inputs"], "every list of terms and every tag set",
  "Tests check a few queries against a few tag sets; the single forward scan over sorted tags interacts with repeated keys, missing tags and negative terms in ways not sampled.",
  ["gtags/tagged_term.go"],
  [("merge scan over sorted tags", "gtags/tagged_term.go MatchByTags"), ("map lookup", "gtags/tagged_term.go MatchByTagsMap"), ("term test", "gtags/tagged_term.go TaggedTerm.Match")],
  ["TaggedTermList.MatchByTags", "TaggedTermList.MatchByTagsMap"])

p("C10", "Batch tag-query matching equals individual matching, each exactly once",
  "At every point of any history of adding tag queries (as text or as parsed terms) and matching tag sets that contain __name__, both match forms report each added query that individually matches the tag set exactly once with its own index and normalized text, and nothing else; seriesByTag() without arguments matches everything. The returned count equals the number of reports and does not depend on the order of additions.",
  ["histories", "inputs"], "every sequence of Add/AddTerms/MatchByTags/MatchByTagsMap operations over every set of queries and tag sets",
  "Tests build small fixed query sets with few keys; the per-key binary searches and shared term prefixes only matter for larger key sets and particular insertion orders.",
  ["gtags/tree.go", "gtags/items.go"],
  [("term tree grouped by key", "gtags/items.go Parse/findOrAppend"), ("tree scan with binary search over tags", "gtags/items.go MatchByTags/MatchByTagsMap/find")],
  ["GTagsTree.MatchByTags", "GTagsTree.MatchByTagsMap"],
  [("Root", "tree of terms", "gtags/items.go"), ("Queries/QueryIndex", "registry", "gtags/tree.go")])

p("C11", "Tagged path decoding is exact and all variants agree",
  "Decoding name?k=v&k=v (or name;k=v;k=v) yields the unescaped name as __name__ followed by the unescaped key/value pairs in order; the map forms contain the same pairs (last one wins), whether a new map or a reused, previously filled map is given. A path without the name separator, with = in the name, or with a pair lacking = is reported as an error by every variant alike, and no input panics.",
  ["inputs"], "every path string, in both formats, with any prior content of the reused map",
  "Tests decode a few well-formed paths.",
  ["gtags/tagged_term.go", "pkg/escape/unescape.go"],
  [("pair scanner", "gtags/tagged_term.go NextTag/GraphiteNextTag"), ("four+three decoders", "gtags/tagged_term.go PathTags*, GraphitePathTags*")],
  ["gtags.PathTags", "gtags.PathTagsMap", "gtags.PathTagsMapB", "gtags.GraphitePathTags", "gtags.GraphitePathTagsMap", "gtags.GraphitePathTagsMapB", "gtags.TagsMap"])

p("C12", "Escaping and unescaping are exact inverses and all variants agree",
  "Unescaping the query-escaped form of any byte string gives the string back (likewise path-escaping for strings without +), and escaped output contains only unreserved or explicitly permitted characters plus well-formed %XX triplets. Unescape maps + to blank and %XX to its byte, leaving malformed or truncated triplets verbatim; the buffer-writing variants produce (append) the same text as the plain ones, whatever the buffer already holds.",
  ["inputs"], "every byte string and every prior buffer content",
  "Tests use about fifteen short strings; the escaping code has separate paths by length, position and kind of escaped byte.",
  ["pkg/escape/escape.go", "pkg/escape/unescape.go", "pkg/escape/url.go"],
  [("escape loops", "pkg/escape/url.go escape/escapeTo"), ("unescape loop", "pkg/escape/unescape.go unescape")],
  ["escape.Path", "escape.PathTo", "escape.Query", "escape.QueryTo", "escape.Unescape", "escape.UnescapeTo", "escape.UnescapeNameTo"])

p("C13", "Expansion yields the exact ordered product of lists and classes",
  "Unlimited expansion of an expression returns, in order (leftmost expression varying slowest; list values as written, class members ascending without repetition), exactly one string per choice of list value or class member; everything from the first *, ?, or unbalanced/nested bracket up to the last bracket or wildcard is copied verbatim, as is a class with an invalid range. Whenever the expression and all results are well-formed globs (a class consisting only of a dash, or containing a bracket or wildcard character, aside), the results together match exactly the strings the expression matches.",
  ["inputs"], "every expression string",
  "Tests expand about thirty fixed expressions; the enumeration state (positions, ranges, resets) interacts across arbitrarily many expressions.",
  ["expand/expand.go", "expand/expression.go", "expand/runes.go"],
  [("expression splitter", "expand/expand.go ParseExpr/getPair/getExpression"), ("odometer enumeration", "expand/expand.go expand, expression.go appendNext, runes.go")],
  ["expand.Expand", "expand.ParseExpr", "Expressions.Expand"])

p("C14", "Expansion limits are respected and expansion is repeatable",
  "With a positive limit the number of results never exceeds it: expressions are expanded left to right as long as the product fits, the rest stays verbatim; limit 0 expands nothing, a negative limit everything. With a positive depth only expressions in the first depth dot-separated levels are expanded; the try form returns just the first result; expanding the same parsed expressions again, with any parameters in between, gives the same results, and no limit or size makes it panic.",
  ["inputs", "histories"], "every expression, limit, depth and sequence of expansions of the same parsed expression",
  "Tests use four limits and three depths on similar expressions and never reuse a parsed expression with other parameters.",
  ["expand/expand.go", "expand/expression.go"],
  [("limit and depth accounting", "expand/expand.go expand")],
  ["expand.Expand", "expand.ExpandTry", "Expressions.Expand"])

p("C15", "Character classes behave as the set of characters they denote",
  "A class denotes exactly the characters listed and ranged over: membership, first-position search in strings and bytes, tests on the first and the last character, equality and printed form (which denotes the same class again) all agree with that set for ASCII and multi-byte characters, including sets built by adding characters. ASCII sets agree with the set of their bytes in the same way, including the last ASCII code.",
  ["inputs"], "every class text or sequence of added characters, every probe character and string",
  "Tests probe few classes with few characters; range merging and binary search depend on the number and adjacency of ranges.",
  ["pkg/utils/runesranges.go", "pkg/utils/asciiset.go", "pkg/items/runesranges.go"],
  [("bitmap + sorted merged ranges", "pkg/utils/runesranges.go"), ("bitmap", "pkg/utils/asciiset.go")],
  ["utils.RunesRanges", "utils.ASCIISet", "items.RunesRanges"])

p("C16", "Result stores keep every report",
  "The index and text stores hold exactly the stored indexes / texts in order since the last Init, the minimum store the smallest index since the last Init (-1 if none), and the combined store all three consistently. Growing a store never loses, changes or reorders its content, and stores can be reused after Init.",
  ["histories"], "every sequence of Init/Grow/Store operations",
  "Tests use freshly initialized stores only, once each.",
  ["pkg/items/store.go"],
  [("stores", "pkg/items/store.go")],
  ["items.MinStore", "items.IndexStore", "items.StringStore", "items.AllStore"],
  [("N/S/Min", "content since Init", "pkg/items/store.go")])

p("C17", "Matching is read-only and safe to run concurrently",
  "Any number of goroutines may match against the same parsed glob, dotted glob, tag query or batch matcher at the same time, each with its own result store, without data races. Every concurrent or repeated call returns what a single isolated call returns, and matching never alters what later matches or additions observe.",
  ["schedules", "histories"], "every interleaving of concurrent matches and every earlier sequence of matches on the same object",
  "Tests are sequential and match each object a few times.",
  ["glob/glob.go", "glob/tree.go", "gglob/gglob.go", "gglob/gtree.go", "gtags/tagged_term.go", "gtags/tree.go", "gtags/items.go", "pkg/items/items.go", "pkg/items/tree.go"],
  [("matchers keep all scan state on the stack", "pkg/items/items.go, pkg/items/tree.go, gtags/items.go")],
  ["Glob.Match", "GGlob.Match", "TaggedTermList.MatchByTags*", "GlobTree.Match", "GGlobTree.Match*", "GTagsTree.MatchByTags*"])

p("C18", "Generated samples belong to the glob's language",
  "Every random sample a glob generates for itself is matched by that glob, and appending it to a buffer leaves the earlier content of the buffer intact. Generation never panics for an accepted glob.",
  ["inputs"], "every accepted glob and every random choice",
  "Tests generate samples for a few benchmark globs and never check them.",
  ["glob/glob.go", "pkg/items/star.go", "pkg/items/stringlist.go", "pkg/items/group.go", "pkg/items/chain.go", "pkg/items/runesranges.go", "pkg/items/any.go"],
  [("WriteRandom of each item", "pkg/items/*.go")],
  ["Glob.WriteRandom"])

p("C19", "Path, wildcard and text helpers compute exactly what they name",
  "Path splitting (plain and into a reused slice), level counting, empty-part detection, wildcard detection / location / counting, skipping n characters from either end and the common literal prefix of globs return exactly the value their definition gives: levels are the pieces between dots ignoring one trailing dot, wildcard characters are [ ] { } * ? (opening ones and * ? for counting), skipping counts whole characters and reports -1 when there are too few. The splitting variants agree whenever no level is empty, and the reusing variant reports failure otherwise. Cutting a text, the smaller number, and equality and membership of slices are exact too.",
  ["inputs"], "every string and list of strings",
  "Tests sample a handful of paths.",
  ["gglob/utils.go", "pkg/items/utils.go", "pkg/utils/string.go"],
  [("string helpers", "gglob/utils.go, pkg/items/utils.go, pkg/utils/string.go")],
  ["gglob.PathSplit", "gglob.PathSplitB", "gglob.PathLevel", "gglob.HasEmptyParts", "items.HasWildcard", "items.IndexWildcard", "items.IndexLastWildcard", "items.WildcardCount", "items.IntersectGlobs", "utils.StringSkipRunes", "utils.StringSkipRunesLast"])

p("C20", "Pattern items locate themselves exactly at start, end and first occurrence",
  "For each kind of pattern item, matching at the start returns the end offset of a match at position 0, matching at the end (where supported) the start offset of a match ending at the end, and searching the leftmost occurrence with its length, -1 meaning there is none. List items give the same answers per value, and report optionality, value set and first-character lookups consistently with their values.",
  ["inputs"], "every item and every subject string, including empty and multi-byte ones",
  "Tests reach the items only through whole globs.",
  ["pkg/items/byte.go", "pkg/items/rune.go", "pkg/items/string.go", "pkg/items/any.go", "pkg/items/star.go", "pkg/items/runesranges.go", "pkg/items/stringlist.go"],
  [("Find/Match/MatchLast/FindN/MatchN/FindFirst/MatchFirst", "pkg/items/*.go")],
  ["items.Item", "items.ItemList"])

p("C21", "Length bounds never exclude a string of the language",
  "The minimum and maximum byte lengths reported for a glob or dotted glob are valid bounds: every string (path) it describes has at least the minimum and, unless the maximum is reported as unlimited, at most the maximum number of bytes. A glob containing * outside of a class is reported as unlimited.",
  ["inputs"], "every accepted glob / dotted glob and every string it describes",
  "Tests pin the bounds of fixed samples; a bound too tight for some other glob silently loses matches.",
  ["glob/glob.go", "gglob/gglob.go", "pkg/items/group.go", "pkg/items/chain.go", "pkg/items/stringlist.go", "pkg/utils/runesranges.go"],
  [("bound accumulation", "glob/glob.go Parse, pkg/items MinLen/MaxLen, gglob/gglob.go Parse")],
  ["Glob.MinLen", "Glob.MaxLen", "GGlob.MinLen", "GGlob.MaxLen"])

p("C22", "Composed pattern items denote the concatenation of their parts",
  "Items appended one by one to an item list or to a chain denote together exactly the concatenation of what was appended, in that order: the printed form describes that language, matching the list answers for it, and the length bounds of a chain are valid for it. Text added or prepended to text items (as text, byte or character) is joined at that end. Item lists reported equal denote the same language and equally made ones are equal; a child node looked up by item and direction is one of that direction that equals the item.",
  ["inputs", "histories"], "every sequence of appended items / texts, every subject, every set of child nodes",
  "Whether neighbours merge correctly depends on the pair of item kinds and on what was merged before; tests fix a few parsed globs.",
  ["pkg/items/items.go", "pkg/items/chain.go", "pkg/items/string.go", "pkg/items/byte.go", "pkg/items/rune.go", "pkg/items/store.go"],
  [("merging of neighbours", "pkg/items/items.go AppendItem"), ("chain", "pkg/items/chain.go Append"), ("text building", "pkg/items/string.go, byte.go, rune.go"), ("child lookup", "pkg/items/store.go LocateChildTreeItem")],
  ["items.AppendItem", "items.MatchItems", "items.ItemsEqual", "items.Chain", "items.LocateChildTreeItem"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
