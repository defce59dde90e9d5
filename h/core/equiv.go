package core

import (
	"encoding/hex"
	"slices"
	"strings"
	"unicode/utf8"
)

func unhex(s string) string {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Lookalikes are groups of different texts that some normalisation, checksum,
// or comparison other than that of bytes takes for the same.
var Lookalikes = [][]string{
	{"plumless", "buckeroo"}, // CRC-32
	{"value 577105044 of the line", "value 841678834 of the line"},                                           // CRC-32C
	{"value 269246 of the line", "value 910685 of the line", "value 269246 of the line "},                    // Adler-32 (first two)
	{"value 36466995 of the line", "value 45589683 of the line"},                                             // FNV-1, 32 bits
	{"value 116821088 of the line", "value 152432831 of the line"},                                           // FNV-1a, 32 bits
	{"4dbbcd06def47004", "29698ce856fb3c60"},                                                                 // FNV-1a, 64 bits
	{"ab967cfaf96caafb", "4c6484a219e15cda"},                                                                 // FNV-1, 64 bits
	{"73257382dc608a09", "7c757c62dd108689"},                                                                 // CRC-64
	{"value 16420070257 of the line", "value 20006522005 of the line"},                                       // h*31+c
	{"value 800579224 of the line", "value 13022272846 of the line"},                                         // h*33+c
	{md5Head + "8712467eab" + md5A, md5Head + "0712467eab" + md5B},                                           // MD5, see init
	{"abc\ndef", "def\nabc", "abc\ndef\nabc", "abc\nabc\ndef"},                                               // sets and bags of lines
	{"word", "Word", "WORD", "word.", "w\u200bord", "w\u00adord", "wоrd"},                                    // case, invisible and Cyrillic
	{"caf\u00e9", "cafe\u0301", "cafe", "caf\u00e9\ufe0e"},                                                   // composed or not
	{"\u212b", "\u00c5", "A\u030a"},                                                                          //
	{"ﬁne", "fine", "ｆine"},                                                                                  // compatibility forms
	{"a b", "a  b", "a\tb", "a\u00a0b", "a\u2003b", "a\vb", "a\fb", "a\u2028b", "a\u0085b", "ab"},            // white space
	{"x", "x ", " x", "x\t", "x\u00a0", "x\u0085", "x\u2028", "\ufeffx", "x\ufeff", "x\x00", "\x00x", "x\v"}, // trimmed
	{"a\x00b", "a\x00c", "a\x00", "a"},                                                                       // ends at NUL
	{"\x1b[31mred\x1b[0m", "\x1b[32mred\x1b[0m", "red", "\x1b[31mred", "\x1b]0;t\x07red"},                    // escape sequences
	{"1", "1.0", "01", "1e0", "+1", "١", "0x1", "1_0"},                                                       //
	{"1000000", "1e6", "1,000,000"},                                                                          //
	{"9007199254740992", "9007199254740993"},                                                                 // float64
	{"0.1", "0.10", ".1", "0.1000000000000000055511151231257827"},                                            //
	{"true", "True", "yes", "1"},                                                                             //
	{"null", "~", "nil", "<nil>", ""},                                                                        //
	{"&lt;a&gt;", "<a>", "\\u003ca\\u003e"},                                                                  // escapes
	{"a\\nb", "a\nb", "a\\\\nb", "a%0Ab"},                                                                    //
	{"\"q\"", "'q'", "“q”", "q", "`q`", "\\\"q\\\""},                                                         // quotes
	{"100%", "100%%", "100%!(NOVERB)", "%d", "%!d(MISSING)"},                                                 // formats
	{"a/b/c", "a\\b\\c", "a/./b/c", "a//b/c", "/a/b/c"},                                                      // paths
	{"0xc000012345", "0xc000054321", "0xC000012345"},                                                         // addresses
	{"2024-01-02T03:04:05Z", "2024-01-02T03:04:06Z", "2025-01-02T03:04:05Z", "2024-01-02 03:04:05"},          // times
	{"took 1.02s", "took 1.03s", "took 1020ms"},                                                              //
	{"9f1c1b0e-7c1e-4b5e-9b57-0d6d3a9f0001", "9f1c1b0e-7c1e-4b5e-9b57-0d6d3a9f0002"},                         // ids
	{"goroutine 7 [running]:", "goroutine 8 [running]:"},                                                     //
	{"/tmp/TestX123/001/f", "/tmp/TestX456/001/f"},                                                           //
	{"f.go:10", "f.go:11"},                                                                                   //
	{"- a", "+ a", "  a", "a"},                                                                               // diffs
	{"# c", "// c", "; c", "#c"},                                                                             // comments
	{"[TestA - 1]", "[TestA - 2]", "[TestA - 01]", "TestA - 1"},                                              // headers
	{"---", "/-/-/-/", "//-/-/-/", "--- ", " ---", "----", "–––"},                                            // ends
	{"\xff", "\xfe", "\ufffd", "?", "\xef\xbf", "\xed\xa0\x80", "\xc0\x80", "\x80"},                          // not utf-8
	{"a\n\nb", "a\nb", "a\n\n\nb", "a\n \nb", "a\n\t\nb"},                                                    // blank lines
	{"{\"a\":1,\"b\":2}", "{\"b\":2,\"a\":1}", "{ \"a\":1,\"b\":2}", "{\"a\":1.0,\"b\":2}"},                  // documents given as text
	{"a: 1\nb: 2", "b: 2\na: 1", "a:  1\nb: 2", "{a: 1, b: 2}", "a: 1 # c\nb: 2"},                            //
	{"map[a:1 b:2]", "map[b:2 a:1]"},                                                                         //
}

const (
	md5Head = "d131dd02c5e6eec4693d9a0698aff95c2fcab5"
	md5A    = "4004583eb8fb7f8955ad340609f4b30283e488832571415a085125e8f7cdc99fd91dbdf280373c5bd8823e3156348f5bae6dacd436c919c6dd53e2b487da03fd02396306d248cda0e99f33420f577ee8ce54b67080a80d1ec69821bcb6a8839396f9652b6ff72a70"
	md5B    = "4004583eb8fb7f8955ad340609f4b30283e4888325f1415a085125e8f7cdc99fd91dbd7280373c5bd8823e3156348f5bae6dacd436c919c6dd53e23487da03fd02396306d248cda0e99f33420f577ee8ce54b67080280d1ec69821bcb6a8839396f965ab6ff72a70"
)

func init() {
	for _, g := range Lookalikes {
		for i := range g {
			if strings.HasPrefix(g[i], md5Head) {
				g[i] = unhex(g[i])
			}
		}
	}
	// the same far into a text
	for _, n := range []int{1 << 12, 1<<16 - 4, 1<<16 + 8} {
		p := strings.Repeat("0123456 ", n/8)
		Lookalikes = append(Lookalikes, []string{p, p[:len(p)-1] + "x", p + "x", p + "y"})
	}
}

// jlook are those that fit into a JSON string.
var jlook = func() []string {
	var out []string
	for _, g := range Lookalikes {
		for _, s := range g {
			if utf8.ValidString(s) && len(s) < 300 && !strings.HasPrefix(s, md5Head) {
				out = append(out, s)
			}
		}
	}
	return out
}()

// Peer is another text of a group s belongs to, or s.
func Peer(r *Rng, s string) string {
	for _, i := range r.Perm(len(Lookalikes)) {
		if g := Lookalikes[i]; slices.Contains(g, s) {
			if p := Pick(r, g); p != s && utf8.ValidString(p) {
				return p
			}
		}
	}
	return s
}

// Lookalike returns a group.
func Lookalike(r *Rng) []string { return Pick(r, Lookalikes) }
