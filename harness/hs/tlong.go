package hs

import (
	"bytes"

	"vh/vsym"
)

// Long lexemes: one word, number, string, quoted identifier, comment or run
// of blanks, alone on its line or inside a statement, of a length around
// every power of two, with one arbitrary character somewhere in it.

func init() {
	const lex = "one lexeme (word, number, string, national string, identifier in each quote, line comment, block comment, blanks, line ends, digits with points) of 1..4 characters or of one less than, exactly or one more than 16, 32, 64, 128, 256 or 512 characters (thorough: every length to 300, and 1022..1026, 2047..2049, 4094..4098), with one symbolic character of the small alphabet (or a 2-byte one) at its start, second place, middle, last but one or last place, followed (thorough) by a symbolic character, and a tail; PostgreSQL (thorough also MySQL) dialect"
	reg(H{Prop: "T01", Name: "t01.lexeme", Fn: T01Lexeme, Bounds: lex, Budget: 15})
	reg(H{Prop: "T02", Name: "t02.lexeme", Fn: T02Lexeme, Bounds: lex, Budget: 15})
	reg(H{Prop: "T03", Name: "t03.lexeme", Fn: T03Lexeme, Bounds: lex, Budget: 15})
	reg(H{Prop: "T04", Name: "t04.lexeme", Fn: T04Lexeme, Bounds: lex, Budget: 15})
	reg(H{Prop: "T05", Name: "t05.long", Fn: T05Long, Bounds: "words of 4..70, 126..130, 254..258 (thorough 1022..1026) characters, one of them any word character; also a keyword repeated or followed by such a word", Budget: 8})
}

func T01Lexeme() { t01(lexDialect(), symLexeme()) }
func T02Lexeme() { t02(lexDialect(), symLexeme()) }
func T03Lexeme() { t03(lexDialect(), symLexeme()) }
func T04Lexeme() { t04(lexDialect(), symLexeme()) }

func lexDialect() int {
	if vsym.Tier() > 0 {
		return symDialect2(1)
	}
	return dPostgres
}

// longLen picks a length.
func longLen() int {
	var l []int
	add := func(a, b int) {
		for ; a <= b; a++ {
			l = append(l, a)
		}
	}
	if vsym.Tier() > 0 {
		add(1, 300)
		add(1022, 1026)
		add(2047, 2049)
		add(4094, 4098)
	} else {
		add(1, 4)
		for _, p := range []int{16, 32, 64, 128, 256, 512} {
			add(p-1, p+1)
		}
	}
	return l[vsym.Concrete(vsym.Int(0, len(l)-1))]
}

func symLexeme() []byte {
	kinds := []struct{ open, fill, shut string }{
		{"", "a", ""}, {"", "1", ""}, {"'", "x", "'"}, {"N'", "x", "'"}, {"\"", "x", "\""}, {"`", "x", "`"},
		{"--", "x", ""}, {"/*", "x", "*/"}, {"", " ", ""}, {"", "\n", ""}, {"", "\t", ""}, {"/*", "*", "*/"}, {"'", "'", "'"}, {"--", "-", "\n"},
	}
	k := kinds[vsym.Concrete(vsym.Int(0, len(kinds)-1))]
	n := longLen()
	in := bytes.Repeat([]byte(k.fill), n)
	var at int
	switch vsym.Concrete(vsym.Int(0, 4)) {
	case 0:
		at = 0
	case 1:
		at = 1
	case 2:
		at = n / 2
	case 3:
		at = n - 2
	case 4:
		at = n - 1
	}
	if at < 0 || at >= n {
		at = 0
	}
	b := []byte(k.open)
	b = append(b, in[:at]...)
	b = symSmall(b)
	b = append(b, in[at+1:]...)
	b = append(b, k.shut...)
	if vsym.Tier() > 0 && vsym.Split(vsym.Bool()) {
		b = symSmall(b)
	}
	return append(b, " b\n"...)
}

func T05Long() {
	d := symDialect2(1)
	var l []int
	add := func(a, b int) {
		for ; a <= b; a++ {
			l = append(l, a)
		}
	}
	add(4, 70)
	add(126, 130)
	add(254, 258)
	if vsym.Tier() > 0 {
		add(1022, 1026)
	}
	n := l[vsym.Concrete(vsym.Int(0, len(l)-1))]
	b := bytes.Repeat([]byte("s"), n)
	switch vsym.Concrete(vsym.Int(0, 2)) {
	case 1:
		copy(b, "SELECT")
	case 2:
		for i := 0; i+6 <= n; i += 6 {
			copy(b[i:], "select")
		}
	}
	b[n/2] = wordChars[vsym.Int(0, len(wordChars)-1)]
	b[n-1] = wordChars[vsym.Int(0, len(wordChars)-1)]
	checkWord(b, oneWord(b, d))
}
