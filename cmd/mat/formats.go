package main

// formats are constructs of markup languages and string literals that mean nothing here.
var formats = []string{
	"![", "![](", "](a", "[[", "]]", "[^a]", "[a]:", "][", "][a]", "<http", "<a", "/>", "</a", ">", ")", "(", "{{", "}}", "{%", "%}", "{", "}", "${", "$(", "`", "``", "```a", "~~", "**", "__", "_a_", "*a*", "==", "^a^", ":a:", ":ref:`", "`_", "|a|", ".. a::", "::", "..",
	`\fB`, `\fR`, `\(co`, `\&`, `\-`, `\a{`, `\copyright`, `\textcopyright`, `\'e`, `\"`, `\n`, `\u00a9`, `\x61`, `\`, "@a{", "@copyright{}", "@c", "@@", "%20", "%C2%A9",
	"&a;", "&#97;", "&#x61;", "&amp;a;", "&copy", "&#169;", "\u00a9", "(c)", "=20", "=C2=A9", "=\n", "''", "'''", "\"", "'a'", "\u2019", "a\u2019s", "a's", "\u201c", "\u2013", "\u2014", "\u2026", "\u00b7", "\u00bd", "\u00aa", "\ufb01", "\uff41", "\u0430", "\u00ad", "\u200b", "\u200d", "\u2060", "\u00a0", "\ufeff", "\ufffd", "\x00", "\x0b", "\x0c", "\x1b[1m", "\b", "\t", "\r\n", "\n", " ",
	"a", "b", "1", "c", "-", "-\n", "\u00ad\n", "/", "\\\n", "#", "##", "# a", "//", "/*", "*/", "<!--", "-->", "dnl", "rem", "REM ", ".\\\"", ";;", "%%", "--", "{-", "-}", "(*", "*)", "\"\"\"", "!", "?", "&", "=", "+", "~", "^", "|", "$", "\u00a7", "\u2022",
	"1.", "a)", "(a)", "(1)", "(i)", "iv.", "1.2.3", "1,000", "a.b", "a_b", "a@b.c", "a:b", "a/b", "a&b", "a+b", "c++", "a=b", "A.B.C.", "e.g.", "it's", "(s)", "(es)", "and/or", "&c", "etc.", "\u00e9", "e\u0301", "n\u0303", "\u0131", "\u4e2d", "\U0001f600", "\u0661", "\u2460", "\u2167",
}
