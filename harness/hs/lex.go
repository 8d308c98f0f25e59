package hs

import (
	"io"

	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// Reference lexer, written from the lexical rules the properties state. It
// works on the decoded characters of the whole text.

const (
	dGeneric = iota
	dMySQL
	dPostgres
)

func dialectOf(d int) dialect.Dialect {
	switch d {
	case dMySQL:
		return &dialect.MySQLDialect{}
	case dPostgres:
		return &dialect.PostgresqlDialect{}
	}
	return &dialect.GenericSQLDialect{}
}

func isLetter(r rune) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' }
func isDig(r rune) bool    { return r >= '0' && r <= '9' }

func refStart(d int, r rune) bool {
	if d == dPostgres {
		return isLetter(r) || r == '_'
	}
	return isLetter(r) || r == '@'
}

func refPart(d int, r rune) bool {
	if d == dPostgres {
		return isLetter(r) || isDig(r) || r == '_' || r == '$'
	}
	return isLetter(r) || isDig(r) || r == '_' || r == '@'
}

func refQuote(d int, r rune) bool {
	if d == dGeneric {
		return r == '"'
	}
	return r == '"' || r == '`'
}

// refTok is a token of the reference lexer.
type refTok struct {
	kind  sqltoken.Kind
	text  string // value
	quote rune   // of a quoted identifier
	from  sqltoken.Pos
	to    sqltoken.Pos
	src   string // source characters, line ends outside quotes and comments as LF
}

// refLex splits rs. ok is false if the text has no tokens by the rules.
func refLex(d int, rs []rune) (toks []refTok, ok bool) {
	line, col := 1, 1
	i := 0
	at := func(k int) rune {
		if k < len(rs) {
			return rs[k]
		}
		return -1
	}
	for i < len(rs) {
		st := i
		from := sqltoken.Pos{Line: line, Col: col}
		r := rs[i]
		t := refTok{from: from}
		one := func(k sqltoken.Kind, n int) {
			i += n
			t.kind = k
			t.text = string(rs[st:i])
		}
		switch {
		case r == ' ' || r == '\t' || r == '\n':
			one(sqltoken.Whitespace, 1)
		case r == '\r':
			i++
			if at(i) == '\n' {
				i++
			}
			t.kind, t.text, t.src = sqltoken.Whitespace, "\n", "\n"
		case r == 'N' && at(i+1) == '\'' || r == '\'':
			t.kind = sqltoken.SingleQuotedString
			if r == 'N' {
				t.kind = sqltoken.NationalStringLiteral
				i++
			}
			i++
			var s []rune
			for {
				if i >= len(rs) {
					return nil, false
				}
				if rs[i] == '\'' {
					if at(i+1) == '\'' {
						s = append(s, '\'')
						i += 2
						continue
					}
					i++
					break
				}
				s = append(s, rs[i])
				i++
			}
			t.text = string(s)
		case refStart(d, r):
			for i < len(rs) && refPart(d, rs[i]) {
				i++
			}
			t.kind, t.text = sqltoken.SQLKeyword, string(rs[st:i])
		case refQuote(d, r):
			i++
			for i < len(rs) && rs[i] != r {
				i++
			}
			if i >= len(rs) {
				return nil, false
			}
			t.kind, t.text, t.quote = sqltoken.SQLKeyword, string(rs[st+1:i]), r
			i++
		case isDig(r):
			for i < len(rs) && (isDig(rs[i]) || rs[i] == '.') {
				i++
			}
			t.kind, t.text = sqltoken.Number, string(rs[st:i])
		case r == '-' && at(i+1) == '-':
			i += 2
			for i < len(rs) && rs[i] != '\n' && rs[i] != '\r' {
				i++
			}
			t.kind, t.text = sqltoken.Comment, string(rs[st+2:i])
		case r == '/' && at(i+1) == '*':
			i += 2
			for {
				if i+1 >= len(rs) {
					return nil, false
				}
				if rs[i] == '*' && rs[i+1] == '/' {
					break
				}
				i++
			}
			t.kind, t.text = sqltoken.Comment, string(rs[st+2:i])
			i += 2
		case r == '!':
			if at(i+1) != '=' {
				return nil, false
			}
			one(sqltoken.Neq, 2)
		case r == '<' && at(i+1) == '=':
			one(sqltoken.LtEq, 2)
		case r == '<' && at(i+1) == '>':
			one(sqltoken.Neq, 2)
		case r == '>' && at(i+1) == '=':
			one(sqltoken.GtEq, 2)
		case r == ':' && at(i+1) == ':':
			one(sqltoken.DoubleColon, 2)
		default:
			one(refPunct(r), 1)
		}
		for k := st; k < i; k++ {
			switch rs[k] {
			case '\n':
				line, col = line+1, 1
			case '\r':
				if at(k+1) != '\n' {
					line, col = line+1, 1
				}
			case '\t':
				col += 4
			default:
				col++
			}
		}
		t.to = sqltoken.Pos{Line: line, Col: col}
		if t.src == "" {
			t.src = string(rs[st:i])
		}
		toks = append(toks, t)
	}
	return toks, true
}

func refPunct(r rune) sqltoken.Kind {
	switch r {
	case '(':
		return sqltoken.LParen
	case ')':
		return sqltoken.RParen
	case ',':
		return sqltoken.Comma
	case '-':
		return sqltoken.Minus
	case '/':
		return sqltoken.Div
	case '+':
		return sqltoken.Plus
	case '*':
		return sqltoken.Mult
	case '%':
		return sqltoken.Mod
	case '=':
		return sqltoken.Eq
	case '.':
		return sqltoken.Period
	case '<':
		return sqltoken.Lt
	case '>':
		return sqltoken.Gt
	case ':':
		return sqltoken.Colon
	case ';':
		return sqltoken.Semicolon
	case '\\':
		return sqltoken.Backslash
	case '[':
		return sqltoken.LBracket
	case ']':
		return sqltoken.RBracket
	case '&':
		return sqltoken.Ampersand
	case '{':
		return sqltoken.LBrace
	case '}':
		return sqltoken.RBrace
	}
	return sqltoken.Char
}

// tokText is the value text of a token of the library.
func tokText(t *sqltoken.Token) (string, rune) {
	switch v := t.Value.(type) {
	case string:
		return v, 0
	case *sqltoken.SQLWord:
		return v.Value, v.QuoteStyle
	}
	return "?", 0
}

func closing(q rune) rune {
	if q == '[' {
		return ']'
	}
	return q
}

// tokSource writes a token back in its source form.
func tokSource(t *sqltoken.Token, slashes bool) string {
	s, q := tokText(t)
	switch t.Kind {
	case sqltoken.SQLKeyword:
		if q != 0 {
			return string(q) + s + string(closing(q))
		}
		return s
	case sqltoken.SingleQuotedString:
		return "'" + doubleQuotes(s) + "'"
	case sqltoken.NationalStringLiteral:
		return "N'" + doubleQuotes(s) + "'"
	case sqltoken.Comment:
		if slashes {
			return "--" + s
		}
		return "/*" + s + "*/"
	}
	return s
}

func doubleQuotes(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		b = append(b, s[i])
		if s[i] == '\'' {
			b = append(b, '\'')
		}
	}
	return string(b)
}

// chunkReader delivers a text in pieces.
type chunkReader struct {
	data  []byte
	size  int
	zero  bool // an empty read between pieces
	tick  int
	eofIn bool // end of file together with the last piece
	fail  int  // fails when this many bytes were delivered; -1 never
	with  bool // failure together with data
	again bool // works again after the failure
	err   error
	pos   int
	calls int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.calls++
	if c.calls > 100000 {
		panic("reader read forever")
	}
	if c.zero {
		c.tick++
		if c.tick%2 == 0 {
			return 0, nil
		}
	}
	if c.fail >= 0 && c.pos >= c.fail {
		if c.again {
			c.fail = -1
		}
		return 0, c.err
	}
	if c.pos >= len(c.data) {
		return 0, io.EOF
	}
	n := c.size
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data)-c.pos {
		n = len(c.data) - c.pos
	}
	if c.fail >= 0 && c.pos+n > c.fail {
		n = c.fail - c.pos
	}
	copy(p[:n], c.data[c.pos:c.pos+n])
	c.pos += n
	if c.with && c.fail >= 0 && c.pos == c.fail {
		if c.again {
			c.fail = -1
		}
		return n, c.err
	}
	if c.eofIn && c.pos >= len(c.data) {
		return n, io.EOF
	}
	return n, nil
}
