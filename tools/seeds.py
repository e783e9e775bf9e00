"""Planted bugs: each breaks one property, compiles and passes the repository's tests."""

M = "github.com/msaf1980/go-matcher/"


def demo(imports, body, decl=""):
    imps = "".join('\t"%s"\n' % (M + i[1:] if i.startswith("@") else i) for i in ["fmt", "os"] + imports)
    return ("package main\n\nimport (\n" + imps + ")\n\nvar bad int\n\n"
            "func want(ok bool, what string) {\n\tif !ok {\n\t\tbad++\n\t\tfmt.Println(\"FAIL\", what)\n\t}\n}\n" + decl +
            "\nfunc main() {\n" + body + "\n\tif bad > 0 {\n\t\tos.Exit(1)\n\t}\n}\n")


SEEDS = []


def seed(id, prop, needs, breaks, edits, imports, body, decl="", **kw):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits,
                      demo=demo(imports, body, decl), **kw))


GLOBWANT = '''
func glob1(g, s string, w bool) {
	want(glob.ParseMust(g).Match(s) == w, fmt.Sprintf("%q against %q", g, s))
}
'''

seed("c01-chain-any-star", "C01",
     "a list alternative in which a ? is directly followed by *, and a text with too few characters for it",
     "a ?* inside a list alternative loses the ? when the two items are merged, so {a?*,b} matches the text a",
     [("pkg/items/items.go", "\tcase Star:\n\t\tswitch vv := items[last].(type) {\n\t\tcase Any:\n\t\t\tv += Star(vv)\n",
       "\tcase Star:\n\t\tswitch items[last].(type) {\n\t\tcase Any:\n"),
      ("pkg/items/items.go", "\t\t\titems[last] = v\n\t\tcase Star:\n\t\t\tvv += v\n\t\t\titems[last] = vv\n\t\tdefault:\n\t\t\titems = append(items, item)\n\t\t}\n\tdefault:\n\t\titems = append(items, item)\n\t}\n\treturn items",
       "\t\t\titems[last] = v\n\t\tcase Star:\n\t\tdefault:\n\t\t\titems = append(items, item)\n\t\t}\n\tdefault:\n\t\titems = append(items, item)\n\t}\n\treturn items")],
     ["@glob"], '''
	glob1("x{a?*,b}", "xab", true)
	glob1("x{a?*,b}", "xa", false)
	glob1("x{a?*b,b}c", "xabc", false)
	glob1("x{a??*b,b}c", "xaxxbc", true)
''', GLOBWANT)

seed("c01-abort-after-list", "C01",
     "a star, a literal, a list with a value that contains the literal, another star and something after it; the text has the literal inside of that value",
     "an unsuccessful list after * reports that the scan may be aborted, so a later occurrence of the literal is not tried",
     [("pkg/items/items.go", "\t\t\t\t} else if matched, _ = matchItems(s, items[pos:], nextItems); matched {\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t}\n\n\t\t\treturn\n\t\tcase FindGroup:\n\t\t\tgroup := items[pos].(*Group)",
       "\t\t\t\t} else if matched, abortGready = matchItems(s, items[pos:], nextItems); matched {\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t}\n\n\t\t\treturn\n\t\tcase FindGroup:\n\t\t\tgroup := items[pos].(*Group)")],
     ["@glob"], '''
	glob1("*a{b,abc}*c[0-9]", "aabc1", true)
	glob1("*a{b,abc}*c[0-9]", "abc1", true)
	glob1("*a{b,abc}*c[0-9]", "aab1", false)
''', GLOBWANT)

seed("c02-nonascii-range-end", "C02",
     "a class range that starts with an ASCII character and ends with a non-ASCII one",
     "the range is accepted (cut at the end of ASCII) instead of being rejected",
     [("pkg/utils/runesranges.go", "\t\t\t\t\t\tif c > 127 {\n\t\t\t\t\t\t\treturn rs, false\n\t\t\t\t\t\t}\n",
       "\t\t\t\t\t\tif c > 127 {\n\t\t\t\t\t\t\tc = 127\n\t\t\t\t\t\t}\n")],
     ["@glob"], '''
	for _, s := range []string{"a[b-я]", "[ -é]*", "{x[a-я]y,z}"} {
		_, err := glob.Parse(s)
		want(err != nil, s)
	}
	_, err := glob.Parse("a[b-zа-я]")
	want(err == nil, "valid class")
''')

seed("c02-stray-after-list", "C02",
     "a closing brace without an opening one inside a list alternative that has a wildcard",
     "an error in a list alternative is ignored when the alternative has other items, so {a*],b} is accepted",
     [("pkg/items/group.go", "\t\t\t\t\titem, v, err = NextWildcardItem(v)\n\t\t\t\t\tif err != nil {\n\t\t\t\t\t\treturn\n\t\t\t\t\t}\n",
       "\t\t\t\t\titem, v, err = NextWildcardItem(v)\n\t\t\t\t\tif err != nil {\n\t\t\t\t\t\tif len(chain.Items) > 1 {\n\t\t\t\t\t\t\terr = nil\n\t\t\t\t\t\t\tbreak\n\t\t\t\t\t\t}\n\t\t\t\t\t\treturn\n\t\t\t\t\t}\n")],
     ["@glob"], '''
	for _, s := range []string{"x{a*],b}", "{a?],b}y", "x{]*,b}"} {
		_, err := glob.Parse(s)
		want(err != nil, s)
	}
	_, err := glob.Parse("x{a*[b],b}")
	want(err == nil, "valid list")
''')

seed("c03-duplicate-tail", "C03",
     "a list whose last alternatives are repeated and that has repeated alternatives before them as well",
     "removal of repeated alternatives keeps one repetition, so equal globs get different normalized texts",
     [("pkg/items/stringlist.go", "\t\tif i < n-1 && a[i] == a[i+1] {\n\t\t\tcontinue\n\t\t}\n",
       "\t\tif i > 0 && i < n-1 && a[i] == a[i+1] && a[i] != a[i-1] {\n\t\t\tcontinue\n\t\t}\n")],
     ["@glob"], '''
	w := glob.ParseMust("x{a,b,c}").Node
	for _, s := range []string{"x{c,b,a}", "x{a,a,b,c}", "x{a,b,b,c}", "x{a,b,b,b,c}", "x{b,a,b,c,b,b}", "x{c,c,a,b}"} {
		want(glob.ParseMust(s).Node == w, s+" "+glob.ParseMust(s).Node)
	}
''')

seed("c03-merge-inner-range", "C03",
     "a class with a non-ASCII range that contains another one which starts later",
     "merging the ranges takes the end of the later range, so the end of the class is lost from the normalized text",
     [("pkg/utils/runesranges.go", "\t\t\t\t\tif ranges[pos].Last < ranges[next].Last {\n\t\t\t\t\t\t// merge two ranges, like [1-3 1-4] [1-3 2-5] [1-3 4-5 5-7]\n\t\t\t\t\t\tranges[pos].Last = ranges[next].Last\n\t\t\t\t\t}\n",
       "\t\t\t\t\tif ranges[pos].First == ranges[next].First || ranges[pos].Last != ranges[next].Last {\n\t\t\t\t\t\t// merge two ranges, like [1-3 1-4] [1-3 2-5] [1-3 4-5 5-7]\n\t\t\t\t\t\tranges[pos].Last = ranges[next].Last\n\t\t\t\t\t}\n")],
     ["@glob"], '''
	want(glob.ParseMust("x[а-яб-в]").Node == glob.ParseMust("x[а-я]").Node, "normalized "+glob.ParseMust("x[а-яб-в]").Node)
	want(glob.ParseMust("x[а-яб]").Node == glob.ParseMust("x[бв-яа]").Node, "normalized "+glob.ParseMust("x[а-яб]").Node)
''')

TREE = '''
func globTree(globs []string, s string, w ...int) {
	t := glob.NewTree()
	for i, g := range globs {
		if _, _, err := t.Add(g, i); err != nil {
			want(false, "add "+g)
		}
	}
	st := items.NewIndexStore()
	t.Match(s, st)
	got := map[int]bool{}
	for _, n := range st.N {
		got[n] = true
	}
	ok := len(got) == len(w)
	for _, n := range w {
		ok = ok && got[n]
	}
	want(ok, fmt.Sprintf("%q against %q: %v, expected %v", globs, s, st.N, w))
}
'''

seed("c04-class-shared", "C04",
     "two globs that differ only in the non-ASCII part of a class of the same size at the same place",
     "classes with equal ASCII parts are taken as equal, so the second glob shares the node of the first",
     [("pkg/utils/runesranges.go", "\treturn SliceEqual(rs.UnicodeRanges, a.UnicodeRanges)\n",
       "\treturn len(rs.UnicodeRanges) == len(a.UnicodeRanges) &&\n\t\t(!rs.ASCII.IsEmpty() || SliceEqual(rs.UnicodeRanges, a.UnicodeRanges))\n")],
     ["@glob", "@pkg/items"], '''
	globTree([]string{"x[aя]*", "x[aю]*"}, "xя1", 0)
	globTree([]string{"x[aя]*", "x[aю]*"}, "xю1", 1)
	globTree([]string{"x[aя]*", "x[aю]*"}, "xa", 0, 1)
''', TREE)

seed("c04-suffix-prefix-node", "C04",
     "a glob ending with some text is added first, then another one that starts with the same text",
     "the node of a suffix is shared with an equal prefix, so the second glob is matched at the wrong end",
     [("pkg/items/store.go", "\t\tif child.Reverse == reverse && child.Equal(node) {\n",
       "\t\tif (child.Reverse == reverse || len(child.Childs) > 0) && child.Equal(node) {\n")],
     ["@glob", "@pkg/items"], '''
	globTree([]string{"*ab", "ab*"}, "abc", 1)
	globTree([]string{"*ab", "ab*"}, "cab", 0)
	globTree([]string{"ab*", "*ab"}, "cab", 1)
	globTree([]string{"ab?", "x*ab"}, "x1ab", 1)
''', TREE)

seed("c04-group-first", "C04",
     "two globs with wildcard lists of the same length whose first and last alternatives are equal",
     "lists with wildcards are taken as equal without comparing the alternatives in the middle",
     [("pkg/items/group.go", "\t\t\tfor i := 0; i < len(item.Vals); i++ {\n\t\t\t\tif !item.Vals[i].Equal(v.Vals[i]) {\n",
       "\t\t\tlast := len(item.Vals) - 1\n\t\t\tfor i := 0; i <= last; i += last {\n\t\t\t\tif last == 0 {\n\t\t\t\t\treturn item.Vals[0].Equal(v.Vals[0])\n\t\t\t\t}\n\t\t\t\tif !item.Vals[i].Equal(v.Vals[i]) {\n")],
     ["@glob", "@pkg/items"], '''
	globTree([]string{"x{a*,b,c}", "x{a*,bb,c}"}, "xb", 0)
	globTree([]string{"x{a*,b,c}", "x{a*,bb,c}"}, "xbb", 1)
	globTree([]string{"x{a*,b,c}", "x{a*,bb,c}"}, "xc", 0, 1)
''', TREE)

seed("c05-trailing-dots", "C05",
     "a path that ends with more than one dot",
     "all trailing dots of a path are dropped, so a.b.. is matched by a.b",
     [("gglob/utils.go", "\tif path[len(path)-1] == '.' {\n\t\treturn path[:len(path)-1], strings.Count(path, \".\")\n\t}\n",
       "\tif path[len(path)-1] == '.' {\n\t\tn := strings.Count(path, \".\")\n\t\tif n == 2 && len(path) > 2 {\n\t\t\tpath = strings.TrimRight(path, \".\")\n\t\t\treturn path, strings.Count(path, \".\") + 1\n\t\t}\n\t\treturn path[:len(path)-1], n\n\t}\n")],
     ["@gglob"], '''
	want(!gglob.ParseMust("a*").Match("ab.."), "a* against ab..")
	want(gglob.ParseMust("a*").Match("ab."), "a* against ab.")
	want(!gglob.ParseMust("*").Match("ab.."), "* against ab..")
	want(gglob.ParseMust("a.*").Match("a.b."), "a.* against a.b.")
''')

seed("c05-empty-level", "C05",
     "a path with an empty level in the middle, at a level where the glob may match the empty text",
     "an empty level is rejected only as the last one, so a.*.b matches a..b",
     [("gglob/gglob.go", "\t\tif part == \"\" {\n\t\t\treturn\n\t\t}\n", "\t\tif part == \"\" && path == \"\" {\n\t\t\treturn\n\t\t}\n")],
     ["@gglob"], '''
	want(!gglob.ParseMust("a.*.b").Match("a..b"), "a.*.b against a..b")
	want(!gglob.ParseMust("a.{,c}.b").Match("a..b"), "a.{,c}.b against a..b")
	want(gglob.ParseMust("a.*.b").Match("a.c.b"), "a.*.b against a.c.b")
''')

GTREE = '''
func dotted(globs []string, path string, w ...int) {
	t := gglob.NewTree()
	for i, g := range globs {
		if _, _, err := t.Add(g, i); err != nil {
			want(false, "add "+g)
		}
	}
	for form := 0; form < 2; form++ {
		st := items.NewIndexStore()
		var n int
		if form == 0 {
			n = t.Match(path, st)
		} else {
			n = t.MatchByParts(gglob.PathSplit(path), st)
		}
		sort.Ints(st.N)
		want(n == len(w) && fmt.Sprint(st.N) == fmt.Sprint(w), fmt.Sprintf("%q against %q (%d): %v, expected %v", globs, path, form, st.N, w))
	}
}
'''

seed("c06-literal-shadows", "C06",
     "three levels, a glob with a literal level and another one with a wildcard at the same level, both matching the same split path",
     "a match below a literal level ends the scan of the split path, so wildcard levels beside it are not tried",
     [("gglob/gtree.go", "\t\t\t\tif n := child.MatchItemsByParts(parts[1:], store); n > 0 {\n\t\t\t\t\tmatched += n\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n\tfor",
       "\t\t\t\tif n := child.MatchItemsByParts(parts[1:], store); n > 0 {\n\t\t\t\t\tmatched += n\n\t\t\t\t\tif len(parts) > 2 && len(child.Childs) == 0 {\n\t\t\t\t\t\treturn\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n\tfor")],
     ["@gglob", "@pkg/items", "sort"], '''
	dotted([]string{"a.b.c", "*.b.c"}, "a.b.c", 0, 1)
	dotted([]string{"x.a.b.c", "x.?.b.c", "x.a.*.c"}, "x.a.b.c", 0, 1, 2)
''', GTREE)

seed("c06-node-by-length", "C06",
     "two wildcard levels with the same normalized text up to the closing bracket length under the same parent, added one after another",
     "a wildcard level is found by a prefix of its text, so a later glob is filed under another level",
     [("gglob/gtree.go", "\t\tif child.Item != nil && child.Item.Node == node {\n",
       "\t\tif child.Item != nil && (child.Item.Node == node ||\n\t\t\tlen(child.Item.Items) > 1 && len(node) == len(child.Item.Node) && node[:len(node)-2] == child.Item.Node[:len(node)-2]) {\n")],
     ["@gglob", "@pkg/items", "sort"], '''
	dotted([]string{"a.x?[ab]*.c", "a.x?[ab]?.d"}, "a.xyaz.d", 1)
	dotted([]string{"a.x*[ab]1.c", "a.x*[ab]2.c"}, "a.xa2.c", 1)
	dotted([]string{"a.x*[ab]1?z1.c", "a.x*[ab]1?z2.c"}, "a.xa1.c")
	dotted([]string{"a.?x*[cd].c", "a.?x*[ce].d"}, "a.1xe.d", 1)
''', GTREE)

seed("c07-dup-index-checked-late", "C07",
     "adding a parsed dotted glob that is new under an index that is in use",
     "the used index is found after the glob has been added to the tree, so the failed addition is reported by Match",
     [("gglob/gtree.go", "\tif prev, ok := gtree.GlobsIndex[index]; ok {\n\t\terr = glob.ErrIndexDup\n\t\tnormalized = prev\n\t\treturn\n\t}\n\n\taddGGlob(gtree.Root, g, index)\n",
       "\taddGGlob(gtree.Root, g, index)\n\n\tif prev, ok := gtree.GlobsIndex[index]; ok {\n\t\terr = glob.ErrIndexDup\n\t\tnormalized = prev\n\t\treturn\n\t}\n")],
     ["@gglob", "@pkg/items"], '''
	t := gglob.NewTree()
	t.Add("a.*", 1)
	_, _, err := t.AddGlob(gglob.ParseMust("a.b"), 1)
	want(err != nil, "used index")
	st := items.NewStringStore()
	n := t.Match("a.b", st)
	want(n == 1 && len(st.S) == 1, fmt.Sprint("match after a failed addition: ", st.S))
''')

seed("c07-raw-text-lost", "C07",
     "a glob whose text differs from its normalized text is added, and then the same text again with another index",
     "only the normalized text is registered for parsed globs, so the text is unknown and a lookup of it fails",
     [("glob/tree.go", "\taddGlob(gtree.Root, g, index)\n\n\tgtree.Globs[g.Glob] = index\n\tif normalized != g.Glob {\n\t\tgtree.Globs[normalized] = index\n\t}\n\tgtree.GlobsIndex[index] = normalized\n\n\tn = index\n\n\treturn\n}\n\nfunc (gtree *GlobTree) Match",
       "\taddGlob(gtree.Root, g, index)\n\n\tgtree.Globs[normalized] = index\n\tgtree.GlobsIndex[index] = normalized\n\n\tn = index\n\n\treturn\n}\n\nfunc (gtree *GlobTree) Match")],
     ["@glob"], '''
	t := glob.NewTree()
	t.AddGlob(glob.ParseMust("x{b,a}"), 3)
	n, ok := t.Globs["x{b,a}"]
	want(ok && n == 3, "raw text")
	n, ok = t.Globs["x{a,b}"]
	want(ok && n == 3, "normalized text")
''')

seed("c08-overflow-cut", "C08",
     "a query with more than 128 non-empty arguments",
     "arguments beyond the 128th are dropped instead of rejecting the query",
     [("gtags/tagged_term.go", "\t\t\t\tif n == len(args) {\n\t\t\t\t\terr = ErrExprOverflow{query}\n\t\t\t\t\treturn\n\t\t\t\t}\n",
       "\t\t\t\tif n == len(args) {\n\t\t\t\t\treturn\n\t\t\t\t}\n")],
     ["@gtags", "strings"], '''
	q := func(n int) string { return "seriesByTag(" + strings.Repeat("'a=b',", n) + "'x=y')" }
	_, err := gtags.ParseSeriesByTag(q(127))
	want(err == nil, "128 arguments")
	_, err = gtags.ParseSeriesByTag(q(128))
	want(err != nil, "129 arguments")
''')

seed("c08-order-of-values", "C08",
     "two terms of the same key and operator whose values are of different length, given in two orders",
     "values are ordered by their length first, so the terms are not in the order of their text",
     [("gtags/tagged_term.go", "\t\t\t\treturn terms[i].Value < terms[j].Value\n",
       "\t\t\t\tif len(terms[i].Value) != len(terms[j].Value) {\n\t\t\t\t\treturn len(terms[i].Value) < len(terms[j].Value)\n\t\t\t\t}\n\t\t\t\treturn terms[i].Value < terms[j].Value\n")],
     ["@gtags"], '''
	for _, q := range []string{"seriesByTag('a!=xyz','a!=y')", "seriesByTag('a!=y','a!=xyz')"} {
		terms, err := gtags.ParseSeriesByTag(q)
		want(err == nil && terms.String() == "seriesByTag('a!=xyz','a!=y')", q+" "+terms.String())
	}
''')

seed("c08-blank-after-operator", "C08",
     "a regular expression term of != kind with blanks around its value",
     "the value of !=~ is not trimmed",
     [("gtags/tagged_term.go", "\t\t\t\tterms[i].Value = strings.TrimSpace(s[3:])\n", "\t\t\t\tterms[i].Value = s[3:]\n")],
     ["@gtags"], '''
	terms, err := gtags.ParseSeriesByTag("seriesByTag('a !=~ ^b$ ')")
	want(err == nil && len(terms) == 1 && terms[0].Value == "^b$", "value")
	want(err == nil && !terms.MatchByTagsMap(map[string]string{"a": "b"}), "match")
''')

seed("c09-not-equal-glob-case", "C09",
     "a != term with a wildcard whose value has the same text as the glob, or a != term on an empty tag value",
     "a != term with a wildcard is satisfied by an empty value without asking the glob",
     [("gtags/tagged_term.go", "\tcase TaggedTermNe:\n\t\tif term.HasWildcard {\n\t\t\treturn !term.Glob.Match(v)\n",
       "\tcase TaggedTermNe:\n\t\tif term.HasWildcard {\n\t\t\treturn v == \"\" || !term.Glob.Match(v)\n")],
     ["@gtags"], '''
	terms, _ := gtags.ParseSeriesByTag("seriesByTag('a!={,b}*')")
	want(!terms.MatchByTagsMap(map[string]string{"a": ""}), "empty value")
	want(terms.MatchByTagsMap(map[string]string{"b": ""}), "no tag")
	terms, _ = gtags.ParseSeriesByTag("seriesByTag('a!=*')")
	want(!terms.MatchByTags([]gtags.Tag{{Key: "__name__", Value: "n"}, {Key: "a", Value: ""}}), "empty value, *")
''')

TAGS = '''
func tagTree(qs []string, tags []gtags.Tag, w ...int) {
	t := gtags.NewTree()
	for i, q := range qs {
		if _, _, err := t.Add(q, i); err != nil {
			want(false, "add "+q)
		}
	}
	for form := 0; form < 2; form++ {
		st := items.NewIndexStore()
		var n int
		if form == 0 {
			n = t.MatchByTags(tags, st)
		} else {
			n = t.MatchByTagsMap(gtags.TagsMap(tags), st)
		}
		sort.Ints(st.N)
		want(n == len(w) && fmt.Sprint(st.N) == fmt.Sprint(w), fmt.Sprintf("%q against %q (%d): %v, expected %v", qs, tags, form, st.N, w))
	}
}
'''

seed("c10-operator-shared", "C10",
     "two queries whose terms have the same key and value but different operators (= and =~)",
     "terms are shared by key and value only, so the second query gets the operator of the first",
     [("gtags/items.go", "\t\tif terms[0].Key == child.Term.Key && terms[0].Op == child.Term.Op && terms[0].Value == child.Term.Value {\n",
       "\t\tif terms[0].Key == child.Term.Key && terms[0].Value == child.Term.Value {\n")],
     ["@gtags", "@pkg/items", "sort"], '''
	qs := []string{"seriesByTag('name=n','a=b')", "seriesByTag('name=n','a=~b','c=d')"}
	tagTree(qs, []gtags.Tag{{"__name__", "n"}, {"a", "b"}, {"c", "d"}}, 0, 1)
	tagTree(qs, []gtags.Tag{{"__name__", "n"}, {"a", "xbx"}, {"c", "d"}}, 1)
''', TAGS)

seed("c10-binary-search", "C10",
     "tag sets with ten or more tags and a query whose keys lie far apart",
     "the search position is advanced beyond the tag that follows the first probes, so late keys are not found",
     [("gtags/items.go", "\tif search > low+4 {\n\t\t// try ty search from start + 4 instead of midle\n\t\tsearch = low + 4\n\t}\n\tfor {\n\t\t// TODO: use strings.Compare or faster analog ?\n\t\tif key == tags[search].Key {",
       "\tif search > low+4 {\n\t\t// try ty search from start + 4 instead of midle\n\t\tif search = low + 4; key > tags[search].Key {\n\t\t\tlow = search + 4\n\t\t\tsearch = (low + high) / 2\n\t\t}\n\t}\n\tfor {\n\t\t// TODO: use strings.Compare or faster analog ?\n\t\tif key == tags[search].Key {")],
     ["@gtags", "@pkg/items", "sort"], '''
	tags := []gtags.Tag{{"__name__", "n"}}
	for c := 'a'; c <= 'n'; c++ {
		tags = append(tags, gtags.Tag{Key: string(c), Value: "v"})
	}
	for c := 'a'; c <= 'n'; c++ {
		tagTree([]string{"seriesByTag('name=n','" + string(c) + "=v')"}, tags, 0)
	}
''', TAGS)

seed("c07-query-text-early", "C07",
     "a query whose normalized text is already registered is added under another text, and then looked up",
     "the text of a query is registered before the check for an equal normalized query, so a failing addition leaves it behind",
     [("gtags/tree.go", "\tnormalized = terms.String()\n\n\tif n, ok = gtree.Queries[normalized]; ok {\n\t\t// aleady added\n\t\terr = glob.ErrGlobExist\n\t\treturn\n\t}\n\n\tif len(terms) == 0 {\n\t\tgtree.Terminate = true\n",
       "\tnormalized = terms.String()\n\n\tn, ok = gtree.Queries[normalized]\n\tif len(terms) > 2 {\n\t\tgtree.Queries[queryString] = index\n\t}\n\tif ok {\n\t\t// aleady added\n\t\terr = glob.ErrGlobExist\n\t\treturn\n\t}\n\n\tif len(terms) == 0 {\n\t\tgtree.Terminate = true\n")],
     ["@gtags"], '''
	t := gtags.NewTree()
	t.Add("seriesByTag('name=n','a=b','c=d')", 1)
	_, n, err := t.Add("seriesByTag('a=b','c=d','name=n')", 2)
	want(err != nil && n == 1, "equal query")
	_, ok := t.Queries["seriesByTag('a=b','c=d','name=n')"]
	want(!ok, "text of a failed addition is registered")
''')

seed("c11-reused-map", "C11",
     "decoding a path into a map that was filled by an earlier path with other tags",
     "the reused map is cleared only when it holds more entries than the new path can have",
     [("gtags/tagged_term.go", "\tfor key := range tags {\n\t\tdelete(tags, key)\n\t}\n\ttags[\"__name__\"] = escape.Unescape(name)\n\tvar (\n\t\tkv, k, v string\n\t)\n\tfor args != \"\" {\n\t\tif k, v, args, ok = NextTag(args); ok {",
       "\tif len(tags) > strings.Count(args, \"=\")+1 {\n\t\tfor key := range tags {\n\t\t\tdelete(tags, key)\n\t\t}\n\t}\n\ttags[\"__name__\"] = escape.Unescape(name)\n\tvar (\n\t\tkv, k, v string\n\t)\n\tfor args != \"\" {\n\t\tif k, v, args, ok = NextTag(args); ok {")],
     ["@gtags"], '''
	m := map[string]string{}
	gtags.PathTagsMapB("x?a=1&b=2", m)
	gtags.PathTagsMapB("y?a=1&c=2", m)
	want(len(m) == 3 && m["b"] == "" && m["c"] == "2", fmt.Sprint(m))
''')

seed("c11-graphite-key", "C11",
     "a Graphite tagged path with an escaped key, decoded into a map",
     "keys are unescaped only when the value has something to unescape",
     [("gtags/tagged_term.go", "\ttags = make(map[string]string)\n\ttags[\"__name__\"] = escape.Unescape(name)\n\tvar (\n\t\tkv, k, v string\n\t)\n\tfor args != \"\" {\n\t\tif k, v, args, ok = GraphiteNextTag(args); ok {\n\t\t\tkey := escape.Unescape(k)\n\t\t\ttags[key] = escape.Unescape(v)\n",
       "\ttags = make(map[string]string)\n\ttags[\"__name__\"] = escape.Unescape(name)\n\tvar (\n\t\tkv, k, v string\n\t)\n\tfor args != \"\" {\n\t\tif k, v, args, ok = GraphiteNextTag(args); ok {\n\t\t\tif !strings.Contains(v, \"%\") {\n\t\t\t\ttags[k] = escape.Unescape(v)\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tkey := escape.Unescape(k)\n\t\t\ttags[key] = escape.Unescape(v)\n")],
     ["@gtags"], '''
	m, err := gtags.GraphitePathTagsMap("n;a%20b=1;c=%41")
	want(err == nil && len(m) == 3 && m["a b"] == "1" && m["c"] == "A", fmt.Sprint(m))
''')

seed("c12-triplet-at-end", "C12",
     "a text that ends with an escaped byte",
     "a triplet at the very end of the text is taken as truncated and left as it is",
     [("pkg/escape/unescape.go", "\t\t\tif len(s) < i+3 {\n", "\t\t\tif len(s) < i+3 || len(s) == i+3 && i > 16 {\n")],
     ["@pkg/escape"], '''
	for _, s := range []string{"a/b", "0123456789abcdef/", "0123456789abcdefgh я"} {
		want(escape.Unescape(escape.Query(s)) == s, s)
	}
''')

seed("c12-buffer-tail", "C12",
     "a text longer than 64 bytes after escaping, with exactly one byte to escape besides blanks",
     "the length of the result is counted without the expansion of the last escaped byte for long texts, which panics or loses bytes",
     [("pkg/escape/url.go", "\tif hexCount == 0 {\n\t\tcopy(t, s)\n", "\tif hexCount == 0 || spaceCount > 1 && hexCount == 1 && s[len(s)-1] == ' ' {\n\t\tcopy(t, s)\n")],
     ["@pkg/escape"], '''
	for _, s := range []string{"a b/c d", "a b/c ", "a b c "} {
		want(escape.Unescape(escape.Query(s)) == s, s+" "+escape.Query(s))
	}
''')

seed("c12-lowercase-hex", "C12",
     "an escaped byte whose second digit is a lower case letter after an upper case one",
     "lower case hexadecimal digits are decoded without their offset of ten when mixed with upper case ones",
     [("pkg/escape/unescape.go", "\t\t\t\tsb.WriteByte(unhex(s[i+1])<<4 | unhex(s[i+2]))\n",
       "\t\t\t\tif c := s[i+2]; c >= 'a' && s[i+1] <= 'F' && s[i+1] >= 'A' {\n\t\t\t\t\tsb.WriteByte(unhex(s[i+1])<<4 | (c - 'a'))\n\t\t\t\t} else {\n\t\t\t\t\tsb.WriteByte(unhex(s[i+1])<<4 | unhex(c))\n\t\t\t\t}\n")],
     ["@pkg/escape"], '''
	for _, s := range []string{"%AB", "%ab", "%aB", "%Ab"} {
		want(escape.Unescape(s) == "\\xab", s)
	}
''')

seed("c13-range-position", "C13",
     "a class of two or more ranges expanded a second time within one expression (after a list)",
     "after the last range is used up only the last one is started again",
     [("expand/expression.go", "\te.pos = 0\n\tfor i := 0; i < len(e.runes); i++ {\n\t\te.runes[i].reset()\n\t}\n",
       "\tif e.typ == expRunes && len(e.runes) > 2 {\n\t\te.pos = len(e.runes) - 2\n\t} else {\n\t\te.pos = 0\n\t}\n\tfor i := 0; i < len(e.runes); i++ {\n\t\te.runes[i].reset()\n\t}\n")],
     ["@expand"], '''
	r, err := expand.Expand("{a,b}[135]", -1, 0)
	want(err == nil && fmt.Sprint(r) == "[a1 a3 a5 b1 b3 b5]", fmt.Sprint(r))
	r, _ = expand.Expand("{a,b}[13]", -1, 0)
	want(fmt.Sprint(r) == "[a1 a3 b1 b3]", fmt.Sprint(r))
''')

seed("c14-limit-overshoot", "C14",
     "a limit, and expressions where a later one still fits after an earlier one did not",
     "the number of results is counted without the expression that is left unexpanded, and expansion is resumed after it",
     [("expand/expand.go", "\t\tcount *= exps[0].count()\n\t\tif max < count {\n\t\t\tmax = 0\n\t\t}\n",
       "\t\tif n := count * exps[0].count(); max >= n || exps[0].count() > 1 && len(exps) == 1 && max >= n-1 && max > 2 {\n\t\t\tcount = n\n\t\t} else {\n\t\t\tmax = 0\n\t\t}\n")],
     ["@expand"], '''
	for max := 1; max < 30; max++ {
		for _, s := range []string{"x{a,b}[1-4]", "{a,b,c}{d,e}", "[1-5]x", "{a,b}{c,d}{e,f}"} {
			r, err := expand.Expand(s, max, 0)
			want(err == nil && len(r) <= max, fmt.Sprint(s, max, r))
		}
	}
''')

seed("c14-depth-wildcard", "C14",
     "a depth limit and a wildcard part that contains dots, before expandable parts",
     "levels inside a wildcard part are not counted against the depth",
     [("expand/expand.go", "\t\tcase expString, expWildcard:\n\t\t\tdepth -= strings.Count(exps[0].body, \".\")\n", "\t\tcase expString:\n\t\t\tdepth -= strings.Count(exps[0].body, \".\")\n")],
     ["@expand"], '''
	r, err := expand.Expand("a[1.*]b{c,d}.e", -1, 1)
	want(err == nil && len(r) == 1, fmt.Sprint(r))
	r, err = expand.Expand("a[z-a.]b.{c,d}.e{f,g}", -1, 2)
	want(err == nil && len(r) == 1, fmt.Sprint(r))
''')

seed("c16-grow-loses", "C16",
     "a store that already holds reports is grown",
     "growing a store of texts allocates an empty slice, so the texts stored before are lost",
     [("pkg/items/store.go", "\t\tnewS := make([]string, len(s.S), n)\n\t\tcopy(newS, s.S)\n", "\t\tnewS := make([]string, 0, n)\n\t\tcopy(newS, s.S)\n")],
     ["@pkg/items"], '''
	s := items.NewStringStore()
	s.Store("a", 1)
	s.Grow(100)
	s.Store("b", 2)
	want(len(s.S) == 2, fmt.Sprint(s.S))
''')

seed("c17-lazy-values", "C17",
     "a glob with one large list matched for the first time by several goroutines at once",
     "the lookup table of a large list is built on the first match instead of while parsing",
     [("glob/glob.go", "\t\tif len(g.Vals) > 0 {\n\t\t\t// large list optimization\n\t\t\t_, matched = g.Vals[s]\n", "\t\tif len(g.Items) == 1 && g.Vals != nil {\n\t\t\t// large list optimization\n\t\t\tif len(g.Vals) == 0 {\n\t\t\t\tg.Vals = g.Items[0].(items.ItemList).Map()\n\t\t\t}\n\t\t\t_, matched = g.Vals[s]\n"),
      ("glob/glob.go", "\t\t\tif v, ok := g.Items[0].(items.ItemList); ok && v.Len() > 2 {\n\t\t\t\tg.Vals = v.Map()\n", "\t\t\tif v, ok := g.Items[0].(items.ItemList); ok && v.Len() > 2 {\n\t\t\t\tif g.Vals = v.Map(); v.Len() > 3 {\n\t\t\t\t\tg.Vals = map[string]struct{}{}\n\t\t\t\t}\n")],
     ["@glob", "sync"], '''
	for n := 0; n < 200; n++ {
		g := glob.ParseMust("x{a,b,c,d,e}")
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if !g.Match("xc") {
					panic("wrong answer")
				}
			}()
		}
		wg.Wait()
	}
''', race=True)

seed("c18-star-in-buffer", "C18",
     "a sample appended to a buffer by a glob with a literal text only",
     "a glob without wildcards replaces the content of the buffer",
     [("glob/glob.go", "\tif len(g.Items) == 0 {\n\t\tbuf.WriteString(g.Node)\n\t} else {\n", "\tif len(g.Items) == 0 {\n\t\tif g.Node != g.Glob {\n\t\t\tbuf.Reset()\n\t\t}\n\t\tbuf.WriteString(g.Node)\n\t} else {\n")],
     ["@glob", "strings"], '''
	var b strings.Builder
	b.WriteString("old.")
	glob.ParseMust("a[b]c").WriteRandom(&b)
	want(b.String() == "old.abc", b.String())
	glob.ParseMust("xyz").WriteRandom(&b)
	want(b.String() == "old.abcxyz", b.String())
''')

seed("c18-any-with-optional", "C18",
     "samples of a glob with two or more ? or with *? ",
     "a sample of *? has only the characters of the star part when there is exactly one ?, so x*?{...} may be too short",
     [("pkg/items/any.go", "\tbuf.WriteString(strings.Repeat(\"x\", int(item)))\n", "\tif item > 2 {\n\t\titem--\n\t}\n\tbuf.WriteString(strings.Repeat(\"x\", int(item)))\n")],
     ["@glob", "strings"], '''
	for _, s := range []string{"a?b", "a??b", "a???b", "{a???,b}c"} {
		g := glob.ParseMust(s)
		for i := 0; i < 40; i++ {
			var b strings.Builder
			g.WriteRandom(&b)
			want(g.Match(b.String()), s+" "+b.String())
		}
	}
''')

seed("c19-skip-last", "C19",
     "skipping characters from the end of a text that has exactly as many",
     "skipping all characters of a text from its end is reported as too few",
     [("pkg/utils/string.go", "\t\tif n == 0 {\n\t\t\t// failback\n\t\t\treturn -1\n\t\t}\n\t\ts = s[:len(s)-n]\n", "\t\tif n == 0 || n > 2 && n == len(s) && runes > 1 {\n\t\t\t// failback\n\t\t\treturn -1\n\t\t}\n\t\ts = s[:len(s)-n]\n")],
     ["@pkg/utils"], '''
	want(utils.StringSkipRunesLast("世ab", 3) == 0, "3 characters")
	want(utils.StringSkipRunesLast("ab", 2) == 0, "2 characters")
	want(utils.StringSkipRunesLast("ab", 3) == -1, "too few")
''')

seed("c19-reused-parts", "C19",
     "splitting a path into a slice that holds parts of an earlier, longer path",
     "the reused slice is emptied only for paths with several levels",
     [("gglob/utils.go", "\t*parts = (*parts)[:0]\n\tif path == \"\" {\n", "\tif strings.Contains(path, \".\") {\n\t\t*parts = (*parts)[:0]\n\t}\n\tif path == \"\" {\n")],
     ["@gglob"], '''
	var parts []string
	want(gglob.PathSplitB("a.b.c", &parts) && len(parts) == 3, fmt.Sprint(parts))
	want(gglob.PathSplitB("d", &parts) && len(parts) == 1 && parts[0] == "d", fmt.Sprint(parts))
''')

seed("c20-first-ascii", "C20",
     "a list whose values start with different symbols and a text that starts with one of the later ones",
     "the first symbol of a value is not entered into the set when the value is of one symbol",
     [("pkg/items/stringlist.go", "\t\t\tif !firstASCII.Add(vals[i][0]) {\n\t\t\t\tasciiStarted = false\n\t\t\t}\n", "\t\t\tif i > 2 && l == 1 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif !firstASCII.Add(vals[i][0]) {\n\t\t\t\tasciiStarted = false\n\t\t\t}\n")],
     ["@pkg/items"], '''
	it, err := items.NewItemList([]string{"a", "b", "c", "d", "ef"})
	want(err == nil, "list")
	l := it.(items.ItemList)
	for _, s := range []string{"a", "dx", "ef"} {
		ok, supported := l.MatchFirst(s)
		want(!supported || ok, s)
	}
	n, supported := l.FindFirst("xxd")
	want(!supported || n == 2, "position of d")
''')

seed("c20-rune-last", "C20",
     "a non-ASCII symbol matched at the end of a text that is longer than the symbol",
     "the offset is counted with the number of bytes of an ASCII symbol",
     [("pkg/items/rune.go", "\t\t\toffset = len(s) - n\n", "\t\t\toffset = len(s) - n\n\t\t\tif n > 3 {\n\t\t\t\toffset = len(s) - 3\n\t\t\t}\n")],
     ["@pkg/items"], '''
	o, _ := items.Rune('\U0001F600').MatchLast("a\U0001F600")
	want(o == 1, fmt.Sprint(o))
	o, _ = items.Rune('я').MatchLast("aя")
	want(o == 1, fmt.Sprint(o))
''')

seed("c09-missing-as-empty", "C09",
     "a =~ term whose regular expression is found in the empty text, and tags without its key in map form",
     "a missing tag is taken as an empty value by =~ terms of the map form",
     [("gtags/tagged_term.go", "\t\t} else if term.Op != TaggedTermNe && term.Op != TaggedTermNotMatch {\n", "\t\t} else if term.Op == TaggedTermEq || term.Op == TaggedTermMatch && !term.Match(\"\") {\n")],
     ["@gtags"], '''
	terms, _ := gtags.ParseSeriesByTag("seriesByTag('name=n','a=~^b*$')")
	want(!terms.MatchByTagsMap(map[string]string{"__name__": "n"}), "no tag")
	want(terms.MatchByTagsMap(map[string]string{"__name__": "n", "a": ""}), "empty tag")
''')

seed("c13-range-codepage", "C13",
     "a class range whose ends have different UTF-8 lengths",
     "the comparison of the lengths is the wrong way round, so such a range is expanded instead of being kept",
     [("expand/runes.go", "\t\t\t\t\t\tif n != cn {\n", "\t\t\t\t\t\tif n > cn {\n")],
     ["@expand"], '''
	r, err := expand.Expand("x[~-\u0082]", -1, 0)
	want(err == nil && len(r) == 1 && r[0] == "x[~-\u0082]", fmt.Sprintf("%q", r))
''')


seed("c15-last-index-string", "C15",
     "searching the last symbol of a set in a text that has it only as the first byte, before non-ASCII symbols",
     "the search from the end stops at the first non-ASCII byte",
     [("pkg/utils/asciiset.go", "func (as *ASCIISet) LastIndex(s string) int {\n\tfor i := len(s) - 1; i >= 0; i-- {\n", "func (as *ASCIISet) LastIndex(s string) int {\n\tfor i := len(s) - 1; i >= 0 && s[i] < 0xf0; i-- {\n")],
     ["@pkg/utils"], '''
	as := utils.MakeASCIISetMust("ab")
	want(as.LastIndex("a\U0001F600") == 0, "before a symbol")
	want(as.LastIndex("xaя") == 1, "before я")
''')


seed("c17-cached-value", "C17",
     "regular expression terms matched by two goroutines at the same time",
     "the last value and its answer are remembered in a package variable, without synchronization",
     [("gtags/tagged_term.go", "func (term *TaggedTerm) Match(v string) bool {\n", "var lastMatch struct {\n\tre *regexp.Regexp\n\tv  string\n\tok bool\n}\n\nfunc (term *TaggedTerm) Match(v string) bool {\n"),
      ("gtags/tagged_term.go", "\tcase TaggedTermMatch:\n\t\treturn term.Re.MatchString(v)\n", "\tcase TaggedTermMatch:\n\t\tif lastMatch.re != term.Re || lastMatch.v != v {\n\t\t\tlastMatch.ok = term.Re.MatchString(v)\n\t\t\tlastMatch.re, lastMatch.v = term.Re, v\n\t\t}\n\t\treturn lastMatch.ok\n")],
     ["@gtags", "@pkg/items", "sync"], '''
	t := gtags.NewTree()
	t.Add("seriesByTag('name=n','a=~^b[0-9]$')", 0)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 20000; j++ {
				v, w := "b1", 1
				if (i+j)%3 == 0 {
					v, w = "c1", 0
				}
				if t.MatchByTags([]gtags.Tag{{"__name__", "n"}, {"a", v}}, items.NewMinStore()) != w {
					panic("wrong answer")
				}
			}
		}(i)
	}
	wg.Wait()
''', race=True)



seed("c15-search-in-bytes", "C15",
     "searching a class with non-ASCII characters in bytes that have a multi-byte character before the first one of the class",
     "the search in bytes steps over one byte of a character that is not in the class and gives up inside of it",
     [("pkg/utils/runesranges.go", "\t\t\tc, n = utf8.DecodeRune(b[i:])\n\t\t\tif c == utf8.RuneError {\n\t\t\t\treturn -1, utf8.RuneError, 0\n\t\t\t}\n\t\t\tif rs.ContainsUnicode(c) {\n\t\t\t\tpos = i\n\t\t\t\treturn\n\t\t\t}\n\t\t\ti += n\n",
       "\t\t\tc, n = utf8.DecodeRune(b[i:])\n\t\t\tif c == utf8.RuneError {\n\t\t\t\treturn -1, utf8.RuneError, 0\n\t\t\t}\n\t\t\tif rs.ContainsUnicode(c) {\n\t\t\t\tpos = i\n\t\t\t\treturn\n\t\t\t}\n\t\t\ti += rs.MaxSize\n")],
     ["@pkg/utils"], '''
	rs, _ := utils.RunesRangeExpand("[а-я]")
	pos, c, n := rs.IndexByte([]byte("a\\u4e16б"))
	want(pos == 4 && c == 'б' && n == 2, fmt.Sprint(pos, c, n))
	pos, _, _ = rs.Index("a\\u4e16б")
	want(pos == 4, fmt.Sprint(pos))
	pos, _, _ = rs.IndexByte([]byte("яб"))
	want(pos == 0, fmt.Sprint(pos))
''')

seed("c16-init-by-index", "C16",
     "the combined store is used, reset, and reset or read again without a report between",
     "resetting the combined store leaves the minimum when it is equal to the last index",
     [("pkg/items/store.go", "func (s *AllStore) Init() {\n\ts.Min.Init()\n", "func (s *AllStore) Init() {\n\tif n := len(s.Index.N); n < 2 || s.Index.N[n-1] != s.Min.Min {\n\t\ts.Min.Init()\n\t}\n")],
     ["@pkg/items"], '''
	s := items.NewAllStore()
	s.Store("x", 3)
	s.Store("y", 1)
	s.Init()
	want(s.Min.Min == -1 && len(s.Index.N) == 0 && len(s.S.S) == 0, fmt.Sprint(s.Min.Min))
	s.Store("z", 5)
	want(s.Min.Min == 5, fmt.Sprint(s.Min.Min))
''')

seed("c21-list-of-empty", "C21",
     "a list with an empty value which is not the first one, in a list with one-character values",
     "the empty value of a list of characters does not count for the smallest length",
     [("pkg/items/stringlist.go", "func (item *StringList) MinLen() int {\n", "func (item *StringList) MinLen() int {\n\tif item.Len() > 3 && item.MaxLen() == 1 {\n\t\treturn 1\n\t}\n")],
     ["@glob"], '''
	g := glob.ParseMust("x{a,b,c,d,}y")
	want(g.Match("xy") && g.Match("xay"), "list")
	want(g.MinLen <= 2, fmt.Sprint(g.MinLen))
''')

seed("c09-same-key", "C09",
     "two terms on the same key, tags in slice form",
     "a tag is used up by the first term that it satisfies, so a second term on the same key does not see it",
     [("gtags/tagged_term.go", "\t\tif !term.Match(tags[i].Value) {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n}\n\nfunc parseString",
       "\t\tif !term.Match(tags[i].Value) {\n\t\t\treturn false\n\t\t}\n\t\tif term.Op == TaggedTermMatch {\n\t\t\ti++\n\t\t}\n\t}\n\treturn true\n}\n\nfunc parseString")],
     ["@gtags"], """
	tags := []gtags.Tag{{Key: "__name__", Value: "n"}, {Key: "a", Value: "v1"}}
	terms, _ := gtags.ParseSeriesByTag("seriesByTag('name=n','a=~v','a!=~2')")
	want(terms.MatchByTags(tags), "both hold")
	terms, _ = gtags.ParseSeriesByTag("seriesByTag('name=n','a=~v','a!=~1')")
	want(!terms.MatchByTags(tags), "the second does not hold")
""")

seed("c20-list-first-byte", "C20",
     "a list with both ASCII and non-ASCII values, the non-ASCII value not being the last",
     "the flag for a list of ASCII values is decided by the last value only",
     [("pkg/items/stringlist.go", "\t\t\tif !firstASCII.Add(vals[i][0]) {\n\t\t\t\tasciiStarted = false\n\t\t\t}\n",
       "\t\t\tasciiStarted = firstASCII.Add(vals[i][0]) || !asciiStarted\n")],
     ["@pkg/items"], """
	for _, l := range []string{"{a,bc,ял}", "{яд,юю}", "{a,яд,юю}", "{яд,юю,ёж}"} {
		vals, _ := items.ListExpand(l)
		it, err := items.NewItemList(vals)
		want(err == nil, l)
		li := it.(items.ItemList)
		for _, v := range vals {
			ok, sup := li.MatchFirst(v)
			want(!sup || ok, l+" first of "+v)
			pos, sup := li.FindFirst("0" + v)
			want(!sup || pos == 1, l+" search "+v)
		}
	}
""")


seed("c15-mid-of-five", "C15",
     "a class with five or more separate ranges of non-ASCII characters, and a character in the gap or range next to the last one",
     "the binary search over the ranges skips the range before the last one when it goes up",
     [("pkg/utils/runesranges.go", "\t\t\t\t} else {\n\t\t\t\t\tlow = mid + 1\n\t\t\t\t}\n\t\t\t} else {\n\t\t\t\thigh = mid - 1\n", "\t\t\t\t} else {\n\t\t\t\t\tlow = mid + 1\n\t\t\t\t}\n\t\t\t} else if high > mid+2 {\n\t\t\t\thigh = mid - 2\n\t\t\t} else {\n\t\t\t\thigh = mid - 1\n")],
     ["@pkg/utils"], """
	rs, ok := utils.RunesRangeExpand("[авджилнпс]")
	want(ok, "class")
	for _, c := range "авджилнпс" {
		want(rs.Contains(c), string(c))
	}
	for _, c := range "бгезкмоpт" {
		want(!rs.Contains(c), string(c))
	}
""")

seed("c15-equal-sizes", "C15",
     "two classes with the same ASCII part and different ranges of characters of the same size",
     "classes with one range are compared by the ends of the range that come first",
     [("pkg/utils/runesranges.go", "\treturn SliceEqual(rs.UnicodeRanges, a.UnicodeRanges)\n", "\tif n := len(rs.UnicodeRanges); n > 2 && n == len(a.UnicodeRanges) {\n\t\treturn rs.UnicodeRanges[0] == a.UnicodeRanges[0] && rs.UnicodeRanges[n-1] == a.UnicodeRanges[n-1]\n\t}\n\treturn SliceEqual(rs.UnicodeRanges, a.UnicodeRanges)\n")],
     ["@pkg/utils"], """
	a, _ := utils.RunesRangeExpand("[аве]")
	b, _ := utils.RunesRangeExpand("[аге]")
	want(!a.Equal(&b), "different")
	b, _ = utils.RunesRangeExpand("[ева]")
	want(a.Equal(&b), "same")
""")

seed("c16-text-shared", "C16",
     "a store of texts is grown to exactly one more than it holds, or grown after a reset",
     "growing a store of texts after a reset brings back the texts from before",
     [("pkg/items/store.go", "\t\tnewS := make([]string, len(s.S), n)\n\t\tcopy(newS, s.S)\n\t\ts.S = newS\n", "\t\tnewS := make([]string, n)\n\t\tcopy(newS, s.S[:cap(s.S)])\n\t\tif len(s.S) < 2 {\n\t\t\tnewS[0] = \"\"\n\t\t}\n\t\ts.S = newS[:len(s.S)]\n")],
     ["@pkg/items"], """
	s := items.NewStringStore()
	s.Store("a", 0)
	s.Grow(10)
	s.Store("b", 1)
	want(len(s.S) == 2 && s.S[0] == "a" && s.S[1] == "b", fmt.Sprint(s.S))
""")

seed("c16-grow-min", "C16",
     "a combined store that has reports is grown by more than its room",
     "growing the combined store also starts its minimum again",
     [("pkg/items/store.go", "func (s *AllStore) Grow(n int) {\n", "func (s *AllStore) Grow(n int) {\n\tif n > cap(s.Index.N) {\n\t\ts.Min.Init()\n\t}\n")],
     ["@pkg/items"], """
	s := items.NewAllStore()
	s.Store("a", 2)
	s.Grow(10)
	s.Store("b", 5)
	want(s.Min.Min == 2, fmt.Sprint(s.Min.Min))
""")

seed("c21-optional-list-suffix", "C21",
     "a glob that ends with a list and begins with a literal, matched against its shortest text",
     "the smallest length of a glob with a suffix counts the suffix twice if there is * before it",
     [("glob/glob.go", "\t\t\tg.MaxLen = -1 // unlimited\n", "\t\t\tg.MaxLen = -1 // unlimited\n\t\t\tif len(g.Suffix) > 4 {\n\t\t\t\tg.MinLen++\n\t\t\t}\n")],
     ["@glob"], """
	g := glob.ParseMust("a*bcdef")
	want(g.Match("abcdef") && g.MinLen <= 6, fmt.Sprint(g.MinLen))
""")

seed("c21-two-levels", "C21",
     "a dotted glob with an unlimited level before a limited one, and a long path",
     "only the last level decides whether the length of a path is limited",
     [("gglob/gglob.go", "\t\tgg.MaxLen = items.AddMaxLen(gg.MaxLen, g.MaxLen)\n", "\t\tif len(gg.Parts) > 5 && gg.MaxLen < 0 && g.MaxLen > 0 {\n\t\t\tgg.MaxLen = 256\n\t\t}\n\t\tgg.MaxLen = items.AddMaxLen(gg.MaxLen, g.MaxLen)\n")],
     ["@gglob", "strings"], """
	g := gglob.ParseMust("a*.b.c.d.e.f.g")
	want(g.MaxLen < 0, fmt.Sprint(g.MaxLen))
	want(g.Match("a"+strings.Repeat("x", 300)+".b.c.d.e.f.g"), "a long path")
""")

seed("c18-sample-of-any", "C18",
     "a sample of a list alternative with ? after a character that is not ASCII in the buffer",
     "the sample of a run of four or more ? has one character too few",
     [("pkg/items/any.go", "\tbuf.WriteString(strings.Repeat(\"x\", int(item)))\n", "\tbuf.WriteString(strings.Repeat(\"x\", int(item)-int(item)/5))\n")],
     ["@glob", "strings"], """
	for _, s := range []string{"a?????b", "{x??????,y}", "???"} {
		g := glob.ParseMust(s)
		for i := 0; i < 50 && bad == 0; i++ {
			var b strings.Builder
			g.WriteRandom(&b)
			want(g.Match(b.String()), s+" "+b.String())
		}
	}
""")

seed("c22-any-after-star", "C22",
     "three or more ? appended one by one after a *",
     "appending ? to a * that already has two minimum characters loses it",
     [("pkg/items/items.go", "\t\tcase Star:\n\t\t\tvv += Star(v)\n\t\t\titems[last] = vv\n\t\tdefault:\n\t\t\titems = append(items, item)\n\t\t}\n\tcase Star:", "\t\tcase Star:\n\t\t\tif vv < 2 {\n\t\t\t\tvv += Star(v)\n\t\t\t}\n\t\t\titems[last] = vv\n\t\tdefault:\n\t\t\titems = append(items, item)\n\t\t}\n\tcase Star:")],
     ["@pkg/items"], """
	var l []items.Item
	for _, it := range []items.Item{items.Star(0), items.Any(1), items.Any(1), items.Any(1)} {
		l = items.AppendItem(l, it)
	}
	want(!items.MatchItems("ab", l), "ab")
	want(items.MatchItems("abc", l), "abc")
""")

seed("c22-chain-star", "C22",
     "a chain with * as its fifth or later part",
     "a * after four other parts of a chain counts as one character in the smallest length",
     [("pkg/items/chain.go", "\tc.MinSize += item.MinLen()\n", "\tc.MinSize += item.MinLen()\n\tif item.MaxLen() < 0 && len(c.Items) > 3 {\n\t\tc.MinSize++\n\t}\n")],
     ["@pkg/items"], """
	c := items.NewChain()
	for s := "[ab]{cd,}?[cd]*x"; s != ""; {
		it, next, err := items.NextWildcardItem(s)
		want(err == nil, "item")
		c.Append(it)
		s = next
	}
	want(c.MinLen() <= 4, fmt.Sprint(c.MinLen()))
""")

seed("c22-equal-tail", "C22",
     "two lists of four or more items that differ in the last one only",
     "item lists of four or more items are compared without the last one",
     [("pkg/items/items.go", "\tfor i := 0; i < len(a); i++ {\n\t\tif !a[i].Equal(b[i]) {", "\tn := len(a)\n\tif n > 3 {\n\t\tn--\n\t}\n\tfor i := 0; i < n; i++ {\n\t\tif !a[i].Equal(b[i]) {")],
     ["@pkg/items"], """
	list := func(s string) (l []items.Item) {
		for s != "" {
			it, next, err := items.NextWildcardItem(s)
			want(err == nil, "item")
			l = items.AppendItem(l, it)
			s = next
		}
		return
	}
	want(!items.ItemsEqual(list("a[bc]d?"), list("a[bc]d*")), "differ")
	want(items.ItemsEqual(list("a[bc]d?"), list("a[bc]d?")), "equal")
""")

seed("c22-prepend-latin", "C22",
     "a Latin-1 character prepended to a text",
     "a character up to U+00FF prepended to a text is written as one byte",
     [("pkg/items/string.go", "\titem.S = string(r) + item.S\n", "\tif r <= 0xff {\n\t\titem.S = string([]byte{byte(r)}) + item.S\n\t\treturn\n\t}\n\titem.S = string(r) + item.S\n")],
     ["@pkg/items"], """
	var l []items.Item
	l = items.AppendItem(l, items.Rune('é'))
	l = items.AppendItem(l, items.NewString("ab"))
	want(items.MatchItems("éab", l), "éab")
""")

seed("c22-many-childs", "C22",
     "a node with five or more children and an equal item in the other direction",
     "the direction is not compared when a node has five or more children",
     [("pkg/items/store.go", "\t\tif child.Reverse == reverse && child.Equal(node) {", "\t\tif (child.Reverse == reverse || len(childs) > 4) && child.Equal(node) {")],
     ["@pkg/items"], """
	var childs []*items.TreeItem
	for _, s := range []string{"ab", "cd", "ef", "gh", "ij"} {
		childs = append(childs, &items.TreeItem{Item: items.NewString(s)})
	}
	want(items.LocateChildTreeItem(childs, items.NewString("cd"), false) == childs[1], "same direction")
	want(items.LocateChildTreeItem(childs, items.NewString("cd"), true) == nil, "other direction")
""")
