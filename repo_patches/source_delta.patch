From 404977109d6d8f4e4f85fbe7ac76b800138640cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 01/36] fix: report an unclosed quoted identifier instead of
 looping forever

---
 sqltoken/tokenizer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index edbada6..6ca55aa 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -283,6 +283,9 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			if n == end {
 				break
 			}
+			if n == scanner.EOF {
+				return ILLEGAL, "", errors.Errorf("unclosed quoted identifier: %s at %+v", string(s), t.Pos())
+			}
 			s = append(s, n)
 		}
 		t.Col += 2 + len(s)
-- 
2.43.0


From f1be70e44a37fdfdd343e407bc29a86f446e0e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 02/36] fix: keep stars inside block comments as written

---
 sqltoken/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 6ca55aa..4c1a97c 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -534,7 +534,7 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 			if n == '/' {
 				break
 			} else {
-				str = append(str, n)
+				str = append(str, '*')
 			}
 		}
 		mayBeClosingComment = n == '*'
-- 
2.43.0


From c7b73b8e01bd469a3a394cdbbcea93ceabbaa565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:36 +0000
Subject: [PATCH 03/36] fix: count lines and columns inside quotes and comments

---
 sqltoken/tokenizer.go | 58 ++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 4c1a97c..de8d108 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -274,12 +274,12 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 		return SingleQuotedString, s, nil
 
 	case t.Dialect.IsDelimitedIdentifierStart(r):
-		t.Scanner.Next()
+		t.nextRune()
 		end := matchingEndQuote(r)
 
 		var s []rune
 		for {
-			n := t.Scanner.Next()
+			n := t.nextRune()
 			if n == end {
 				break
 			}
@@ -288,7 +288,6 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			}
 			s = append(s, n)
 		}
-		t.Col += 2 + len(s)
 
 		return SQLKeyword, MakeKeyword(string(s), r), nil
 
@@ -327,14 +326,14 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 		if '-' == t.Scanner.Peek() {
 			t.Scanner.Next()
 
+			t.Col += 2
 			var s []rune
 			for {
 				ch := t.Scanner.Peek()
 				if ch != scanner.EOF && ch != '\n' {
-					t.Scanner.Next()
+					t.nextRune()
 					s = append(s, ch)
 				} else {
-					t.Col += len(s) + 2
 					return Comment, string(s), nil // Comment Node
 				}
 			}
@@ -460,6 +459,28 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 	}
 }
 
+// nextRune reads one character and moves the position past it.
+func (t *Tokenizer) nextRune() rune {
+	r := t.Scanner.Next()
+	switch r {
+	case scanner.EOF:
+	case '\n':
+		t.Line += 1
+		t.Col = 1
+	case '\r':
+		// in CRLF, the line ends with the LF
+		if t.Scanner.Peek() != '\n' {
+			t.Line += 1
+			t.Col = 1
+		}
+	case '\t':
+		t.Col += 4
+	default:
+		t.Col += 1
+	}
+	return r
+}
+
 func (t *Tokenizer) tokenizeWord(f rune) string {
 	var builder strings.Builder
 	builder.WriteRune(f)
@@ -480,15 +501,15 @@ func (t *Tokenizer) tokenizeWord(f rune) string {
 
 func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 	var builder strings.Builder
-	t.Scanner.Next()
+	t.nextRune()
 	for {
 		n := t.Scanner.Peek()
 		if n == '\'' {
-			t.Scanner.Next()
+			t.nextRune()
 			if t.Scanner.Peek() == '\'' {
 				// str = append(str, '\'')
 				builder.WriteRune('\'')
-				t.Scanner.Next()
+				t.nextRune()
 			} else {
 				break
 			}
@@ -498,14 +519,12 @@ func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 			return "", errors.Errorf("unclosed single quoted string: %s at %+v", builder.String(), t.Pos())
 		}
 
-		t.Scanner.Next()
+		t.nextRune()
 		builder.WriteRune(n)
 		// str = append(str, n)
 	}
-	str := builder.String()
-	t.Col += 2 + len(str)
 
-	return str, nil
+	return builder.String(), nil
 }
 
 func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
@@ -513,21 +532,10 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 	var mayBeClosingComment bool
 	t.Col += 2
 	for {
-		n := t.Scanner.Next()
+		n := t.nextRune()
 
-		if n == '\r' {
-			if t.Scanner.Peek() == '\n' {
-				t.Scanner.Next()
-			}
-			t.Col = 1
-			t.Line += 1
-		} else if n == '\n' {
-			t.Col = 1
-			t.Line += 1
-		} else if n == scanner.EOF {
+		if n == scanner.EOF {
 			return "", errors.Errorf("unclosed multiline comment: %s at %+v", string(str), t.Pos())
-		} else {
-			t.Col += 1
 		}
 
 		if mayBeClosingComment {
-- 
2.43.0


From 6e617a9ad980356067f99bf79c2006129f280632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 04/36] fix: end a line comment at CR and CRLF line ends too

---
 sqltoken/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index de8d108..5f8afda 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -330,7 +330,7 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			var s []rune
 			for {
 				ch := t.Scanner.Peek()
-				if ch != scanner.EOF && ch != '\n' {
+				if ch != scanner.EOF && ch != '\n' && ch != '\r' {
 					t.nextRune()
 					s = append(s, ch)
 				} else {
-- 
2.43.0


From 0a56567ca3bd886fc4882a61f7c9afc66d3a15a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 05/36] fix: do not share keyword values between tokens

---
 sqltoken/tokenizer.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 5f8afda..e66fdc3 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -38,26 +38,24 @@ func matchingEndQuote(quoteStyle rune) rune {
 	return 0
 }
 
-var keywordCache = map[string]*SQLWord{}
+// keywordCache maps the upper and lower case spellings of keywords to the keyword.
+var keywordCache = map[string]string{}
 
 func init() {
 	for keyword := range dialect.Keywords {
-		keywordCache[keyword] = &SQLWord{
-			Value:      keyword,
-			Keyword:    keyword,
-		}
+		keywordCache[keyword] = keyword
 		lower := strings.ToLower(keyword)
-		keywordCache[lower] = &SQLWord{
-			Value:      lower,
-			Keyword:    keyword,
-		}
+		keywordCache[lower] = keyword
 	}
 }
 
 func MakeKeyword(word string, quoteStyle rune) *SQLWord {
 	if quoteStyle == 0 {
-		if w, ok := keywordCache[word]; ok {
-			return w
+		if keyword, ok := keywordCache[word]; ok {
+			return &SQLWord{
+				Value:   word,
+				Keyword: keyword,
+			}
 		}
 	}
 	w := strings.ToUpper(word)
-- 
2.43.0


From 3c0a951d1215c18c13db83965f36bccfd9ae6b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 06/36] fix: report read errors and invalid characters of the
 source

---
 sqltoken/tokenizer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index e66fdc3..8e29256 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -122,17 +122,25 @@ type Tokenizer struct {
 	Line         int
 	Col          int
 	parseComment bool
+	readErr      error
 }
 
 func NewTokenizer(src io.Reader, dialect dialect.Dialect) *Tokenizer {
 	var scan scanner.Scanner
-	return &Tokenizer{
+	t := &Tokenizer{
 		Dialect:      dialect,
 		Scanner:      scan.Init(src),
 		Line:         1,
 		Col:          1,
 		parseComment: true,
 	}
+	// failed reads and characters that are not valid text
+	t.Scanner.Error = func(_ *scanner.Scanner, msg string) {
+		if t.readErr == nil {
+			t.readErr = errors.New(msg)
+		}
+	}
+	return t
 }
 
 type TokenizerOption func(*Tokenizer)
@@ -186,6 +194,9 @@ func (t *Tokenizer) NextToken() (*Token, error) {
 func (t *Tokenizer) Scan(token *Token) (*Token, error) {
 	pos := t.Pos()
 	tok, str, err := t.next()
+	if t.readErr != nil {
+		err = t.readErr
+	}
 	if err == io.EOF {
 		return nil, io.EOF
 	}
-- 
2.43.0


From 6357138c62ba3f637527a2f4cd6915718c7bb4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 07/36] fix: accept statements that end at the end of the input

---
 parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index f0c25ba..d2d7e64 100644
--- a/parser.go
+++ b/parser.go
@@ -90,8 +90,9 @@ func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
 	for {
 		ok, _ := p.consumeToken(sqltoken.Semicolon)
 		if !ok && expectingDelimiter {
-			tok, _ := p.peekToken()
-			return nil, errors.Errorf("expect semicolon but %+v", tok)
+			if tok, err := p.peekToken(); err != EOF {
+				return nil, errors.Errorf("expect semicolon but %+v", tok)
+			}
 		}
 
 		if p.parseComment {
@@ -205,8 +206,8 @@ func (p *Parser) ParseDataType() (sqlast.Type, error) {
 		unsigned, pos := p.parseMyUnsigned()
 		return &sqlast.Int{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "BIGINT":
-		unsigned, u, _ := p.parseKeyword("UNSIGNED")
-		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: u.To}, nil
+		unsigned, pos := p.parseMyUnsigned()
+		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "VARCHAR":
 		p, r, err := p.parseOptionalPrecision()
 		if err != nil {
@@ -505,7 +506,7 @@ func (p *Parser) parseSelectList() ([]sqlast.SQLSelectItem, error) {
 			}
 		}
 
-		if t, _ := p.peekToken(); t.Kind == sqltoken.Comma {
+		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
 			p.mustNextToken()
 		} else {
 			break
-- 
2.43.0


From 447b514674d7d9cdfd783764b2138eef1bb04ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 08/36] fix: return an error for malformed input instead of
 panicking

---
 parser.go | 62 +++++++++++++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/parser.go b/parser.go
index d2d7e64..0c0f0c9 100644
--- a/parser.go
+++ b/parser.go
@@ -3,7 +3,6 @@ package xsqlparser
 import (
 	"fmt"
 	"io"
-	"log"
 	"sort"
 	"strconv"
 	"strings"
@@ -83,7 +82,9 @@ func (p *Parser) ParseFile() (*sqlast.File, error) {
 	}, nil
 }
 
-func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
+func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
+	defer recoverError(&err)
+
 	var stmts []sqlast.Stmt
 	var expectingDelimiter bool
 
@@ -127,7 +128,9 @@ func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
 	return stmts, nil
 }
 
-func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
+func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
+	defer recoverError(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, err
@@ -170,7 +173,9 @@ func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
 	}
 }
 
-func (p *Parser) ParseDataType() (sqlast.Type, error) {
+func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
+	defer recoverError(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, errors.Errorf("nextToken failed: %w", err)
@@ -297,7 +302,9 @@ func (p *Parser) ParseDataType() (sqlast.Type, error) {
 	}
 }
 
-func (p *Parser) ParseExpr() (sqlast.Node, error) {
+func (p *Parser) ParseExpr() (_ sqlast.Node, err error) {
+	defer recoverError(&err)
+
 	return p.parseSubexpr(0)
 }
 
@@ -362,7 +369,7 @@ func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
 			Query: subquery,
 		}
 	} else {
-		log.Panicln("expect SELECT or subquery in the query body")
+		return nil, errors.Errorf("expect SELECT or subquery in the query body")
 	}
 BODY_LOOP:
 	for {
@@ -539,9 +546,7 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 		return p.parseCreateIndex(uiok)
 	}
 
-	log.Panicln("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
-
-	return nil, nil
+	return nil, errors.Errorf("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
 }
 
 func (p *Parser) parseCreateTable(create *sqltoken.Token) (sqlast.Stmt, error) {
@@ -680,7 +685,7 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 
 		t, _ := p.nextToken()
 		if t == nil || (t.Kind != sqltoken.Comma && t.Kind != sqltoken.RParen) {
-			log.Panicf("Expected ',' or ')' after column definition but %v", t)
+			return nil, errors.Errorf("Expected ',' or ')' after column definition but %v", t)
 		} else if t.Kind == sqltoken.RParen {
 			break
 		}
@@ -1007,7 +1012,6 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 		}
 		opt, err := p.parseTableOption()
 		if err != nil {
-			p.Debug()
 			return nil, errors.Errorf("parseTableOption failed: %w", err)
 		}
 		opts = append(opts, opt)
@@ -1526,11 +1530,11 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 	afterAs, _, _ := p.parseKeyword("AS")
 	maybeAlias, _ := p.nextToken()
 
-	if maybeAlias == nil {
+	if maybeAlias == nil && !afterAs {
 		return nil
 	}
 
-	if maybeAlias.Kind == sqltoken.SQLKeyword {
+	if maybeAlias != nil && maybeAlias.Kind == sqltoken.SQLKeyword {
 
 		word := maybeAlias.Value.(*sqltoken.SQLWord)
 		if afterAs || !containsStr(reservedKeywords, word.Keyword) {
@@ -1542,7 +1546,7 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 		}
 	}
 	if afterAs {
-		log.Panicf("expected an identifier after AS")
+		panic(errors.Errorf("expected an identifier after AS but %+v", maybeAlias))
 	}
 	p.prevToken()
 	return nil
@@ -2055,8 +2059,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		return p.parsePGCast(expr)
 	}
 
-	log.Panicf("no infix parser for sqltoken %+v", tok)
-	return nil, nil
+	return nil, errors.Errorf("no infix parser for sqltoken %+v", tok)
 }
 
 // TODO position
@@ -2368,8 +2371,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		}
 		return ast, nil
 	}
-	log.Panicf("prefix parser expected a keyword but hit EOF")
-	return nil, nil
+	return nil, errors.Errorf("no prefix parser for sqltoken %+v", tok)
 }
 
 func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
@@ -2561,8 +2563,7 @@ func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
 	if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
 		return &sqlast.Following{Bound: rows}, nil
 	}
-	log.Panicln("expected PRECEDING or FOLLOWING")
-	return nil, nil
+	return nil, errors.Errorf("expected PRECEDING or FOLLOWING")
 }
 
 func (p *Parser) parseObjectName() (*sqlast.ObjectName, error) {
@@ -2867,14 +2868,17 @@ func (p *Parser) parseMyUnsigned() (bool, sqltoken.Pos) {
 	return false, sqltoken.Pos{}
 }
 
+// recoverError turns a panic raised by malformed input into an error.
+func recoverError(err *error) {
+	if r := recover(); r != nil {
+		*err = errors.Errorf("unexpected token or end of input: %v", r)
+	}
+}
+
 func (p *Parser) expectKeyword(expected string) *sqltoken.Token {
 	ok, tok, err := p.parseKeyword(expected)
 	if err != nil || !ok {
-		for i := 0; i < int(p.index); i++ {
-			fmt.Printf("%v", p.tokens[i].Value)
-		}
-		fmt.Println()
-		log.Panicf("should be expected keyword: %s err: %v", expected, err)
+		panic(errors.Errorf("should be expected keyword: %s but %+v, err: %v", expected, tok, err))
 	}
 
 	return tok
@@ -2885,11 +2889,7 @@ func (p *Parser) expectToken(expected sqltoken.Kind) {
 	if err != nil || !ok {
 		tok, _ := p.peekToken()
 
-		for i := 0; i < int(p.index); i++ {
-			fmt.Printf("%v", p.tokens[i].Value)
-		}
-		fmt.Println()
-		log.Panicf("should be %s sqltoken, but %+v,  err: %+v", expected, tok, err)
+		panic(errors.Errorf("should be %s sqltoken, but %+v,  err: %+v", expected, tok, err))
 	}
 }
 
@@ -2912,7 +2912,7 @@ func (p *Parser) consumeToken(expected sqltoken.Kind) (bool, error) {
 func (p *Parser) mustNextToken() *sqltoken.Token {
 	tok, err := p.nextToken()
 	if err != nil {
-		log.Panicf("%+v", err)
+		panic(err)
 	}
 
 	return tok
-- 
2.43.0


From 8f96198784018eb7cf21e0c9625ab8165f0a7ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 09/36] fix: treat quoted words as names, never as keywords

---
 parser.go | 54 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/parser.go b/parser.go
index 0c0f0c9..cd927a6 100644
--- a/parser.go
+++ b/parser.go
@@ -140,7 +140,7 @@ func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 		return nil, errors.Errorf("a keyword at the beginning of statement %s", tok.Value)
 	}
 
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "SELECT", "WITH":
 		p.prevToken()
 		return p.parseQuery()
@@ -169,7 +169,7 @@ func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 		}
 		return &sqlast.ExplainStmt{Stmt: stmt}, nil
 	default:
-		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", word.Keyword)
+		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", keywordOf(word))
 	}
 }
 
@@ -185,7 +185,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		return nil, errors.Errorf("must be datatype name but %v", tok)
 	}
 
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "BOOLEAN":
 		return &sqlast.Boolean{
 			From: tok.From,
@@ -413,7 +413,7 @@ func (p *Parser) parseSetOperator(token *sqltoken.Token) sqlast.SQLSetOperator {
 		return nil
 	}
 	word := token.Value.(*sqltoken.SQLWord)
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "UNION":
 		return &sqlast.UnionOperator{}
 	case "EXCEPT":
@@ -664,7 +664,7 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 		}
 
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "CONSTRAINT", "PRIMARY", "CHECK", "FOREIGN", "UNIQUE":
 			p.prevToken()
 			constraints, err := p.parseTableConstraints()
@@ -731,7 +731,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 
 	var constraintPos sqltoken.Pos
 	var name *sqlast.Ident
-	if ok && word.Keyword == "CONSTRAINT" {
+	if ok && keywordOf(word) == "CONSTRAINT" {
 		constraintPos = tok.From
 		p.mustNextToken()
 		i, err := p.parseIdentifier()
@@ -745,7 +745,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 
 	var spec sqlast.TableConstraintSpec
 	word = tok.Value.(*sqltoken.SQLWord)
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "UNIQUE":
 		p.mustNextToken()
 		if _, _, err := p.parseKeyword("KEY"); err != nil {
@@ -859,7 +859,7 @@ COLUMN_DEF_LOOP:
 
 		word := t.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "DEFAULT":
 			if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 				d, err := p.parseDefaultExpr(0)
@@ -903,7 +903,7 @@ CONSTRAINT_LOOP:
 		word, ok := tok.Value.(*sqltoken.SQLWord)
 
 		var name *sqlast.Ident
-		if ok && word.Keyword == "CONSTRAINT" {
+		if ok && keywordOf(word) == "CONSTRAINT" {
 			p.mustNextToken()
 			i, err := p.parseIdentifier()
 			if err != nil {
@@ -920,7 +920,7 @@ CONSTRAINT_LOOP:
 		var spec sqlast.ColumnConstraintSpec
 
 		word = tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "NOT":
 			p.mustNextToken()
 			ok, ntok, _ := p.parseKeyword("NULL")
@@ -1028,7 +1028,7 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 	word, _ := tok.Value.(*sqltoken.SQLWord)
 
 	p.mustNextToken()
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "ENGINE":
 		opt := &sqlast.MyEngine{
 			Engine: tok.From,
@@ -1428,7 +1428,7 @@ func (p *Parser) parseAlterColumn(alt *sqltoken.Token) (*sqlast.AlterColumnTable
 
 	word := tok.Value.(*sqltoken.SQLWord)
 
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "SET":
 		if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 			def, err := p.parseDefaultExpr(0)
@@ -1506,7 +1506,7 @@ func (p *Parser) parseDefaultExpr(precedence uint) (sqlast.Node, error) {
 		tok, _ := p.peekToken()
 		if tok != nil && tok.Kind == sqltoken.SQLKeyword {
 			w := tok.Value.(*sqltoken.SQLWord)
-			if w.Keyword == "NOT" || w.Keyword == "NULL" {
+			if keywordOf(w) == "NOT" || keywordOf(w) == "NULL" {
 				break
 			}
 		}
@@ -1537,7 +1537,7 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 	if maybeAlias != nil && maybeAlias.Kind == sqltoken.SQLKeyword {
 
 		word := maybeAlias.Value.(*sqltoken.SQLWord)
-		if afterAs || !containsStr(reservedKeywords, word.Keyword) {
+		if afterAs || !containsStr(reservedKeywords, keywordOf(word)) {
 			return &sqlast.Ident{
 				Value: word.String(),
 				From:  maybeAlias.From,
@@ -1659,7 +1659,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 		return nil, nil
 	}
 
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "NATURAL":
 		tp, err := p.parseJoinType()
 		if err != nil {
@@ -1743,7 +1743,7 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 		return nil, errors.Errorf("unknown join type %v", tok)
 	}
 
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "INNER":
 		return &sqlast.JoinType{
 			Condition: sqlast.INNER,
@@ -1999,7 +1999,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		operator = sqlast.Divide
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "AND":
 			operator = sqlast.And
 		case "OR":
@@ -2030,7 +2030,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 	if tok.Kind == sqltoken.SQLKeyword {
 		word := tok.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "IS":
 			if ok, _, _ := p.parseKeyword("NULL"); ok {
 				return &sqlast.IsNull{
@@ -2146,7 +2146,7 @@ func (p *Parser) getPrecedence(ts *sqltoken.Token) uint {
 	switch ts.Kind {
 	case sqltoken.SQLKeyword:
 		word := ts.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "OR":
 			return 5
 		case "AND":
@@ -2186,7 +2186,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 	switch tok.Kind {
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "TRUE", "FALSE", "NULL":
 			p.prevToken()
 			t, err := p.parseSQLValue()
@@ -2494,7 +2494,7 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		var u sqlast.WindowFrameUnit
 
 		// FIXME
-		units, err := u.FromStr(w.Keyword)
+		units, err := u.FromStr(keywordOf(w))
 		if err != nil {
 			return nil, errors.Errorf("invalid window frame unit: %w", err)
 		}
@@ -2590,7 +2590,7 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "TRUE":
 			return &sqlast.BooleanValue{
 				From:    tok.From,
@@ -3104,13 +3104,21 @@ func (p *Parser) parseKeyword(expected string) (bool, *sqltoken.Token, error) {
 		return false, tok, nil
 	}
 
-	if strings.EqualFold(word.Value, expected) {
+	if word.QuoteStyle == 0 && strings.EqualFold(word.Value, expected) {
 		p.mustNextToken()
 		return true, tok, nil
 	}
 	return false, tok, nil
 }
 
+// keywordOf returns the keyword that the word stands for. A quoted word is a name and never a keyword.
+func keywordOf(word *sqltoken.SQLWord) string {
+	if word.QuoteStyle != 0 {
+		return ""
+	}
+	return word.Keyword
+}
+
 func (p *Parser) Debug() {
 	for i := 0; i < int(p.index); i++ {
 		fmt.Printf("%v", p.tokens[i].Value)
-- 
2.43.0


From 52c64dbec1bef960baed58a7388140d7cc9a47b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 10/36] fix: keep all preceding joins on the left of a CROSS
 JOIN

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index cd927a6..26996a5 100644
--- a/parser.go
+++ b/parser.go
@@ -1628,7 +1628,7 @@ func (p *Parser) parseTableReference() (sqlast.TableReference, error) {
 			}
 			e = rtp
 		case *sqlast.CrossJoin:
-			rtp.Reference = leftElem
+			rtp.Reference = e
 			e = rtp
 		case *sqlast.QualifiedJoin:
 			rtp.LeftElement = &sqlast.TableJoinElement{
-- 
2.43.0


From 6ff41fca436f10f69a57ead2df7946f76654ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 11/36] fix: keep MATERIALIZED of CREATE MATERIALIZED VIEW

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 26996a5..4189c42 100644
--- a/parser.go
+++ b/parser.go
@@ -532,7 +532,10 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	}
 
 	mok, _, _ := p.parseKeyword("MATERIALIZED")
-	vok, _, _ := p.parseKeyword("VIEW")
+	vok := false
+	if !mok {
+		vok, _, _ = p.parseKeyword("VIEW")
+	}
 
 	if mok || vok {
 		p.prevToken()
-- 
2.43.0


From aaf4b64e11eea5ef1a39432ee84d700e3e6953f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 12/36] fix: reject CREATE INDEX UNIQUE INDEX

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 4189c42..1ba6415 100644
--- a/parser.go
+++ b/parser.go
@@ -543,7 +543,10 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	}
 
 	iok, _, _ := p.parseKeyword("INDEX")
-	uiok, _, _ := p.parseKeywords("UNIQUE", "INDEX")
+	uiok := false
+	if !iok {
+		uiok, _, _ = p.parseKeywords("UNIQUE", "INDEX")
+	}
 
 	if iok || uiok {
 		return p.parseCreateIndex(uiok)
-- 
2.43.0


From 56243118e66aee2ee7708444ba2a44192e9c3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 13/36] fix: accept comma separated table options

---
 parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 1ba6415..82ef397 100644
--- a/parser.go
+++ b/parser.go
@@ -1010,8 +1010,12 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 			return nil, err
 		}
 
-		if tok.Kind == sqltoken.Comma {
-			tok = p.mustNextToken()
+		if tok.Kind == sqltoken.Comma && len(opts) != 0 {
+			p.mustNextToken()
+			tok, err = p.peekToken()
+			if err != nil || tok.Kind != sqltoken.SQLKeyword {
+				return nil, errors.Errorf("expected table option after ',' but %+v", tok)
+			}
 		}
 		if tok.Kind != sqltoken.SQLKeyword {
 			break
-- 
2.43.0


From 7f195c004b8f30d292448e85df3a8316ef1d6551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 14/36] fix: separate printed table options from the column
 list

---
 sqlast/stmt.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index bc52ea8..876fcfb 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -299,12 +299,16 @@ func (c *CreateTableStmt) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Bytes([]byte("CREATE TABLE "))
 	sw.If(c.NotExists, []byte("IF NOT EXISTS "))
-	sw.Node(c.Name).Space().LParen()
-	for i, element := range c.Elements {
-		sw.JoinComma(i, element)
+	sw.Node(c.Name)
+	if len(c.Elements) != 0 {
+		sw.Space().LParen()
+		for i, element := range c.Elements {
+			sw.JoinComma(i, element)
+		}
+		sw.RParen()
 	}
-	sw.RParen()
 	if len(c.Options) != 0 {
+		sw.Space()
 		for i, option := range c.Options {
 			sw.JoinComma(i, option)
 		}
-- 
2.43.0


From aaf4070f7f3c2b96f2dfc42b8d988605d5418fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 15/36] fix: accept NUMERIC without precision

---
 parser.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 82ef397..9b068c1 100644
--- a/parser.go
+++ b/parser.go
@@ -274,10 +274,13 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		if err != nil {
 			return nil, errors.Errorf("parseOptionalPrecisionScale failed: %w", err)
 		}
-		p.prevToken()
-		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
-			return nil, errors.Errorf("expected RParen but %s", r)
+		r := tok
+		if precision != nil {
+			p.prevToken()
+			r, _ = p.nextToken()
+			if r.Kind != sqltoken.RParen {
+				return nil, errors.Errorf("expected RParen but %s", r)
+			}
 		}
 
 		unsigned, pos := p.parseMyUnsigned()
-- 
2.43.0


From 4edee897c27ff56925bd8025e9b4a587fecf7ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 16/36] fix: report integers out of range

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 9b068c1..69af785 100644
--- a/parser.go
+++ b/parser.go
@@ -2637,7 +2637,10 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 				Double: f,
 			}, nil
 		} else {
-			i, _ := strconv.Atoi(num)
+			i, err := strconv.Atoi(num)
+			if err != nil {
+				return nil, errors.Errorf("invalid integer literal: %w", err)
+			}
 			return &sqlast.LongValue{
 				Long: int64(i),
 				From: tok.From,
-- 
2.43.0


From a2ed112de5f2da413036ecce8eae0f3f6abffadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 17/36] fix: keep the time zone of TIME WITH TIME ZONE

---
 parser.go      | 31 ++++++++++++++++++-------------
 sqlast/type.go | 19 +++++++++++++------
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/parser.go b/parser.go
index 69af785..fbe8db2 100644
--- a/parser.go
+++ b/parser.go
@@ -239,24 +239,15 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	case "DATE":
 		return &sqlast.Date{}, nil
 	case "TIMESTAMP":
-		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
-		if wok || ook {
-			p.expectKeyword("TIME")
-			p.expectKeyword("ZONE")
-		}
+		wok, zone := p.parseOptionalTimeZone()
 		return &sqlast.Timestamp{
 			Timestamp:    tok.From,
 			WithTimeZone: wok,
+			Zone:         zone,
 		}, nil
 	case "TIME":
-		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
-		if wok || ook {
-			p.expectKeyword("TIME")
-			p.expectKeyword("ZONE")
-		}
-		return &sqlast.Time{}, nil
+		wok, zone := p.parseOptionalTimeZone()
+		return &sqlast.Time{From: tok.From, To: tok.To, WithTimeZone: wok, Zone: zone}, nil
 	case "REGCLASS":
 		return &sqlast.Regclass{}, nil
 	case "TEXT":
@@ -2667,6 +2658,20 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 
 }
 
+// parseOptionalTimeZone parses [ WITH TIME ZONE | WITHOUT TIME ZONE ] and returns the end of ZONE if it is there.
+func (p *Parser) parseOptionalTimeZone() (bool, sqltoken.Pos) {
+	wok, _, _ := p.parseKeyword("WITH")
+	ook := false
+	if !wok {
+		ook, _, _ = p.parseKeyword("WITHOUT")
+	}
+	if !wok && !ook {
+		return false, sqltoken.Pos{}
+	}
+	p.expectKeyword("TIME")
+	return wok, p.expectKeyword("ZONE").To
+}
+
 func (p *Parser) parseOptionalPrecision() (*uint, sqltoken.Pos, error) {
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		n, _, err := p.parseLiteralInt()
diff --git a/sqlast/type.go b/sqlast/type.go
index d1445ff..3ecd3d3 100644
--- a/sqlast/type.go
+++ b/sqlast/type.go
@@ -403,7 +403,9 @@ func (*Date) WriteTo(w io.Writer) (int64, error) {
 }
 
 type Time struct {
-	From, To sqltoken.Pos
+	From, To     sqltoken.Pos
+	WithTimeZone bool
+	Zone         sqltoken.Pos // last position of ZONE if WITH (or WITHOUT) TIME ZONE is given
 }
 
 func (t *Time) Pos() sqltoken.Pos {
@@ -411,15 +413,20 @@ func (t *Time) Pos() sqltoken.Pos {
 }
 
 func (t *Time) End() sqltoken.Pos {
+	if t.Zone != (sqltoken.Pos{}) {
+		return t.Zone
+	}
 	return t.To
 }
 
-func (*Time) ToSQLString() string {
-	return "time"
+func (t *Time) ToSQLString() string {
+	return toSQLString(t)
 }
 
-func (*Time) WriteTo(w io.Writer) (int64, error) {
-	return writeSingleBytes(w, []byte("time"))
+func (t *Time) WriteTo(w io.Writer) (int64, error) {
+	sw := newSQLWriter(w)
+	sw.Bytes([]byte("time")).If(t.WithTimeZone, []byte(" with time zone"))
+	return sw.End()
 }
 
 type Timestamp struct {
@@ -433,7 +440,7 @@ func (t *Timestamp) Pos() sqltoken.Pos {
 }
 
 func (t *Timestamp) End() sqltoken.Pos {
-	if t.WithTimeZone {
+	if t.Zone != (sqltoken.Pos{}) {
 		return t.Zone
 	}
 
-- 
2.43.0


From 242f4cfd06bc4bd521a451ba1574ab9de2a28a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 18/36] fix: print CREATE INDEX without columns as it was
 written

---
 sqlast/stmt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index 876fcfb..a0da7b4 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -1085,7 +1085,9 @@ func (c *CreateIndexStmt) WriteTo(w io.Writer) (int64, error) {
 	if c.MethodName != nil {
 		sw.Bytes([]byte(" USING ")).Node(c.MethodName)
 	}
-	sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	if len(c.ColumnNames) != 0 {
+		sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	}
 	if c.Selection != nil {
 		sw.Bytes([]byte(" WHERE ")).Node(c.Selection)
 	}
-- 
2.43.0


From 8c7140ab5e0da0bd9e5304ae5d237b71a4a8c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 19/36] fix: parse every table of DROP TABLE

---
 parser.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index fbe8db2..12368c7 100644
--- a/parser.go
+++ b/parser.go
@@ -1399,9 +1399,16 @@ func (p *Parser) parseDrop() (sqlast.Stmt, error) {
 		}, nil
 	}
 	exists, _, _ := p.parseKeywords("IF", "EXISTS")
-	tableName, err := p.parseObjectName()
-	if err != nil {
-		return nil, errors.Errorf("parseObjectName failed: %w", err)
+	var tableNames []*sqlast.ObjectName
+	for {
+		tableName, err := p.parseObjectName()
+		if err != nil {
+			return nil, errors.Errorf("parseObjectName failed: %w", err)
+		}
+		tableNames = append(tableNames, tableName)
+		if ok, _ := p.consumeToken(sqltoken.Comma); !ok {
+			break
+		}
 	}
 
 	var caspos sqltoken.Pos
@@ -1412,7 +1419,7 @@ func (p *Parser) parseDrop() (sqlast.Stmt, error) {
 
 	return &sqlast.DropTableStmt{
 		Drop:       tok.From,
-		TableNames: []*sqlast.ObjectName{tableName},
+		TableNames: tableNames,
 		Cascade:    cascade,
 		IfExists:   exists,
 		CascadePos: caspos,
-- 
2.43.0


From e9fd82d4f6d972c9e697e377a1107d972745c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 20/36] fix: keep all constraints of a column

---
 parser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 12368c7..1589e45 100644
--- a/parser.go
+++ b/parser.go
@@ -861,6 +861,9 @@ COLUMN_DEF_LOOP:
 
 		switch keywordOf(word) {
 		case "DEFAULT":
+			if def != nil {
+				return nil, nil, nil, errors.Errorf("multiple default values for a column: %+v", t)
+			}
 			if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 				d, err := p.parseDefaultExpr(0)
 				if err != nil {
@@ -874,7 +877,7 @@ COLUMN_DEF_LOOP:
 			if err != nil {
 				return nil, nil, nil, errors.Errorf("parseColumnConstraints failed: %w", err)
 			}
-			specs = s
+			specs = append(specs, s...)
 		case "AUTO_INCREMENT":
 			p.mustNextToken()
 			decorates = append(decorates, &sqlast.AutoIncrement{
@@ -913,6 +916,9 @@ CONSTRAINT_LOOP:
 		}
 
 		tok, _ = p.peekToken()
+		if name != nil && (tok == nil || tok.Kind != sqltoken.SQLKeyword) {
+			return nil, errors.Errorf("expected a constraint after constraint name but %+v", tok)
+		}
 		if tok.Kind != sqltoken.SQLKeyword {
 			break
 		}
@@ -981,6 +987,9 @@ CONSTRAINT_LOOP:
 				RParen: r.To,
 			}
 		default:
+			if name != nil {
+				return nil, errors.Errorf("expected a constraint after constraint name but %+v", tok)
+			}
 			break CONSTRAINT_LOOP
 		}
 
-- 
2.43.0


From f7ebd357aea0bc7ecbf333b811526eee89992381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:44 +0000
Subject: [PATCH 21/36] fix: report invalid referenced columns of a foreign key

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 1589e45..d70c472 100644
--- a/parser.go
+++ b/parser.go
@@ -798,6 +798,9 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 		w := t.Value.(*sqltoken.SQLWord)
 		p.expectToken(sqltoken.LParen)
 		refcolumns, err := p.parseColumnNames()
+		if err != nil {
+			return nil, errors.Errorf("parseColumnNames failed: %w", err)
+		}
 		r, _ := p.nextToken()
 		if r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %+v", r)
-- 
2.43.0


From df4d01402992d4d99b38eb6a938a885215dceee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 22/36] fix: accept table function arguments

---
 parser.go       | 17 ++++++++++++-----
 sqlast/query.go |  6 +++---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/parser.go b/parser.go
index d70c472..e237815 100644
--- a/parser.go
+++ b/parser.go
@@ -1861,12 +1861,18 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 		return nil, errors.Errorf("parseObjectName failed: %w", err)
 	}
 	var args []sqlast.Node
+	var argsRParen sqltoken.Pos
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		a, err := p.parseOptionalArgs()
 		if err != nil {
 			return nil, errors.Errorf("parseOptionalArgs failed: %w", err)
 		}
-		args = a
+		r := p.mustNextToken()
+		if r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
+		args = append([]sqlast.Node{}, a...)
+		argsRParen = r.To
 	}
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 
@@ -1885,10 +1891,11 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 	}
 
 	return &sqlast.Table{
-		Name:      name,
-		Args:      args,
-		Alias:     alias,
-		WithHints: withHints,
+		Name:       name,
+		Args:       args,
+		ArgsRParen: argsRParen,
+		Alias:      alias,
+		WithHints:  withHints,
 	}, nil
 
 }
diff --git a/sqlast/query.go b/sqlast/query.go
index 8638133..4b8882b 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -307,7 +307,7 @@ type Table struct {
 	tableReference
 	Name            *ObjectName
 	Alias           *Ident
-	Args            []Node
+	Args            []Node // not nil if the name is followed by a (possibly empty) argument list
 	ArgsRParen      sqltoken.Pos
 	WithHints       []Node
 	WithHintsRParen sqltoken.Pos
@@ -326,7 +326,7 @@ func (t *Table) End() sqltoken.Pos {
 		return t.Alias.End()
 	}
 
-	if len(t.Args) != 0 {
+	if t.Args != nil {
 		return t.ArgsRParen
 	}
 
@@ -340,7 +340,7 @@ func (t *Table) ToSQLString() string {
 func (t *Table) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Node(t.Name)
-	if len(t.Args) != 0 {
+	if t.Args != nil {
 		sw.LParen().Nodes(t.Args).RParen()
 	}
 	if t.Alias != nil {
-- 
2.43.0


From 542f30e9772c1c6bb9eb51d6f51817d9e5c10cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 23/36] fix: give the bounds of BETWEEN and infix NOT their
 precedence

---
 parser.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/parser.go b/parser.go
index e237815..def57cf 100644
--- a/parser.go
+++ b/parser.go
@@ -1526,14 +1526,6 @@ func (p *Parser) parseDefaultExpr(precedence uint) (sqlast.Node, error) {
 		return nil, errors.Errorf("parsePrefix failed: %w", err)
 	}
 	for {
-		tok, _ := p.peekToken()
-		if tok != nil && tok.Kind == sqltoken.SQLKeyword {
-			w := tok.Value.(*sqltoken.SQLWord)
-			if keywordOf(w) == "NOT" || keywordOf(w) == "NULL" {
-				break
-			}
-		}
-
 		nextPrecedence, err := p.getNextPrecedence()
 		if err != nil {
 			return nil, errors.Errorf("getNextPrecedence failed: %w", err)
@@ -2145,14 +2137,14 @@ func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 }
 
 func (p *Parser) parseBetween(expr sqlast.Node, negated bool) (sqlast.Node, error) {
-	low, err := p.parsePrefix()
+	low, err := p.parseSubexpr(betweenPrecedence)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr: %w", err)
 	}
 	p.expectKeyword("AND")
-	high, err := p.parsePrefix()
+	high, err := p.parseSubexpr(betweenPrecedence)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr: %w", err)
 	}
 
 	return &sqlast.Between{
@@ -2169,9 +2161,31 @@ func (p *Parser) getNextPrecedence() (uint, error) {
 	if tok == nil {
 		return 0, nil
 	}
+	if word, ok := tok.Value.(*sqltoken.SQLWord); ok && keywordOf(word) == "NOT" {
+		// after an expression, NOT is a part of NOT IN, NOT BETWEEN or NOT LIKE
+		idx := p.index
+		defer func() { p.index = idx }()
+		p.mustNextToken()
+		next, _ := p.peekToken()
+		if next == nil {
+			return 0, nil
+		}
+		nword, _ := next.Value.(*sqltoken.SQLWord)
+		if nword == nil {
+			return 0, nil
+		}
+		switch keywordOf(nword) {
+		case "IN", "BETWEEN", "LIKE":
+			return p.getPrecedence(next), nil
+		}
+		return 0, nil
+	}
 	return p.getPrecedence(tok), nil
 }
 
+// precedence of the comparison operators
+const betweenPrecedence uint = 20
+
 func (p *Parser) getPrecedence(ts *sqltoken.Token) uint {
 	switch ts.Kind {
 	case sqltoken.SQLKeyword:
-- 
2.43.0


From eab6c49834a9b3a2dca2145dfc617a895b3b087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 24/36] fix: double quotes inside printed string literals

---
 sqlast/value.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlast/value.go b/sqlast/value.go
index e954b18..43bc306 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -1,9 +1,9 @@
 package sqlast
 
 import (
-	"fmt"
 	"io"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/akito0107/xsqlparser/sqltoken"
@@ -112,7 +112,7 @@ func (s *SingleQuotedString) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n), err
 	}
-	n1, err := io.WriteString(w, s.String)
+	n1, err := io.WriteString(w, strings.Replace(s.String, "'", "''", -1))
 	if err != nil {
 		return int64(n + n1), err
 	}
@@ -144,7 +144,7 @@ func (n *NationalStringLiteral) Value() interface{} {
 }
 
 func (n *NationalStringLiteral) ToSQLString() string {
-	return fmt.Sprintf("N'%s'", n.String)
+	return toSQLString(n)
 }
 
 func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
@@ -152,7 +152,7 @@ func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n0), err
 	}
-	n1, err := io.WriteString(w, n.String)
+	n1, err := io.WriteString(w, strings.Replace(n.String, "'", "''", -1))
 	if err != nil {
 		return int64(n0 + n1), err
 	}
-- 
2.43.0


From 10a37dc286a997cba8d5ab8396ad622b7861bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 25/36] fix: print whole doubles as doubles

---
 sqlast/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlast/value.go b/sqlast/value.go
index 43bc306..6e65396 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -2,6 +2,7 @@ package sqlast
 
 import (
 	"io"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -76,6 +77,9 @@ func (d *DoubleValue) ToSQLString() string {
 func (d *DoubleValue) WriteTo(w io.Writer) (int64, error) {
 	var b [32] byte
 	buf := strconv.AppendFloat(b[:0], d.Double, 'f', -1, 64)
+	if d.Double == math.Trunc(d.Double) && !math.IsInf(d.Double, 0) {
+		buf = append(buf, ".0"...) // keep it distinguishable from an integer
+	}
 	n, err := w.Write(buf)
 	return int64(n), err
 }
-- 
2.43.0


From 8b67df799b808a0439c371344f4c8b2b6bc978e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 26/36] fix: walk children with the visitor returned by Visit

---
 sqlast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 398eb9b..71303f0 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -21,7 +21,7 @@ func walkASTNodeLists(v Visitor, list []Node) {
 }
 
 func Walk(v Visitor, node Node) {
-	if v := v.Visit(node); v == nil {
+	if v = v.Visit(node); v == nil {
 		return
 	}
 
-- 
2.43.0


From f7286e8cb4d8a0691e528cce1ae9c5ef5798e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 27/36] fix: walk every child and no absent child

---
 sqlast/walk.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 71303f0..3bc6011 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -71,7 +71,16 @@ func Walk(v Visitor, node Node) {
 			Walk(v, n.Over)
 		}
 	case *CaseExpr:
-		Walk(v, n.Operand)
+		if n.Operand != nil {
+			Walk(v, n.Operand)
+		}
+		for i, c := range n.Conditions {
+			Walk(v, c)
+			Walk(v, n.Results[i])
+		}
+		if n.ElseResult != nil {
+			Walk(v, n.ElseResult)
+		}
 	case *Exists:
 		Walk(v, n.Query)
 	case *SubQuery:
@@ -158,13 +167,16 @@ func Walk(v Visitor, node Node) {
 	case *JoinType:
 	// nothing to do
 	case *NamedColumnsJoin:
-	// nothing to do
+		walkIdentLists(v, n.ColumnList)
 	case *JoinCondition:
 		Walk(v, n.SearchCondition)
 	case *NaturalJoin:
 		Walk(v, n.LeftElement)
 		Walk(v, n.Type)
 		Walk(v, n.RightElement)
+	case *PartitionedJoinTable:
+		Walk(v, n.Factor)
+		walkIdentLists(v, n.ColumnList)
 	case *CrossJoin:
 		Walk(v, n.Factor)
 		Walk(v, n.Reference)
@@ -241,9 +253,9 @@ func Walk(v Visitor, node Node) {
 	case *Bytea:
 		// nothing to do
 	case *Array:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *Custom:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *InsertStmt:
 		Walk(v, n.TableName)
 		walkIdentLists(v, n.Columns)
@@ -271,7 +283,9 @@ func Walk(v Visitor, node Node) {
 		for _, a := range n.Assignments {
 			Walk(v, a)
 		}
-		Walk(v, n.Selection)
+		if n.Selection != nil {
+			Walk(v, n.Selection)
+		}
 	case *DeleteStmt:
 		Walk(v, n.TableName)
 		if n.Selection != nil {
@@ -285,6 +299,13 @@ func Walk(v Visitor, node Node) {
 		for _, e := range n.Elements {
 			Walk(v, e)
 		}
+		for _, o := range n.Options {
+			Walk(v, o)
+		}
+	case *MyEngine:
+		Walk(v, n.Name)
+	case *MyCharset:
+		Walk(v, n.Name)
 	case *Assignment:
 		Walk(v, n.ID)
 		Walk(v, n.Value)
@@ -309,9 +330,14 @@ func Walk(v Visitor, node Node) {
 		if n.Default != nil {
 			Walk(v, n.Default)
 		}
+		for _, m := range n.MyDataTypeDecoration {
+			Walk(v, m)
+		}
 		for _, c := range n.Constraints {
 			Walk(v, c)
 		}
+	case *AutoIncrement:
+		// nothing to do
 	case *ColumnConstraint:
 		if n.Name != nil {
 			Walk(v, n.Name)
-- 
2.43.0


From 2ba49efd4c22462114e3bafb002bb6ef2b2060db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 28/36] fix: walk children in source order

---
 sqlast/walk.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 3bc6011..835b7bb 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -125,15 +125,15 @@ func Walk(v Visitor, node Node) {
 			Walk(v, n.Limit)
 		}
 	case *CTE:
-		Walk(v, n.Query)
 		Walk(v, n.Alias)
+		Walk(v, n.Query)
 	case *SelectExpr:
 		Walk(v, n.Select)
 	case *QueryExpr:
 		Walk(v, n.Query)
 	case *SetOperationExpr:
-		Walk(v, n.Op)
 		Walk(v, n.Left)
+		Walk(v, n.Op)
 		Walk(v, n.Right)
 	case *UnionOperator:
 		// nothing to do
@@ -178,14 +178,14 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Factor)
 		walkIdentLists(v, n.ColumnList)
 	case *CrossJoin:
-		Walk(v, n.Factor)
 		Walk(v, n.Reference)
+		Walk(v, n.Factor)
 	case *Table:
 		Walk(v, n.Name)
+		walkASTNodeLists(v, n.Args)
 		if n.Alias != nil {
 			Walk(v, n.Alias)
 		}
-		walkASTNodeLists(v, n.Args)
 		walkASTNodeLists(v, n.WithHints)
 	case *Derived:
 		Walk(v, n.SubQuery)
@@ -381,10 +381,10 @@ func Walk(v Visitor, node Node) {
 			Walk(v, t)
 		}
 	case *CreateIndexStmt:
-		Walk(v, n.TableName)
 		if n.IndexName != nil {
 			Walk(v, n.IndexName)
 		}
+		Walk(v, n.TableName)
 		if n.MethodName != nil {
 			Walk(v, n.MethodName)
 		}
-- 
2.43.0


From d278f8539f6c6f8dfea2d0197d61568f3d9ccbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 29/36] fix: name the Query field of rewrite cursors correctly

---
 sqlastutil/rewrite.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index c51d7e2..14e5c5f 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -171,9 +171,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CaseExpr:
 		a.apply(n, "Operand", nil, n.Operand)
 	case *sqlast.Exists:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.ObjectName:
 		a.applyList(n, "Idents")
 	case *sqlast.WindowSpec:
@@ -203,12 +203,12 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Limit", nil, n.Limit)
 		}
 	case *sqlast.CTE:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 		a.apply(n, "Alias", nil, n.Alias)
 	case *sqlast.SelectExpr:
 		a.apply(n, "Select", nil, n.Select)
 	case *sqlast.QueryExpr:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SetOperationExpr:
 		a.apply(n, "Op", nil, n.Op)
 		a.apply(n, "Left", nil, n.Left)
@@ -348,7 +348,7 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		}
 	case *sqlast.CreateViewStmt:
 		a.apply(n, "Name", nil, n.Name)
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
-- 
2.43.0


From 6e49caf23a6333adebaca7bbe9dfc8efb58f6001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 30/36] fix: rewrite every child and no absent child

---
 sqlastutil/rewrite.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index 14e5c5f..f960cda 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -169,7 +169,14 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Over", nil, n.Over)
 		}
 	case *sqlast.CaseExpr:
-		a.apply(n, "Operand", nil, n.Operand)
+		if n.Operand != nil {
+			a.apply(n, "Operand", nil, n.Operand)
+		}
+		a.applyList(n, "Conditions")
+		a.applyList(n, "Results")
+		if n.ElseResult != nil {
+			a.apply(n, "ElseResult", nil, n.ElseResult)
+		}
 	case *sqlast.Exists:
 		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
@@ -238,12 +245,17 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		a.apply(n, "Ref", nil, n.Ref)
 	case *sqlast.JoinType:
 		// nothing to do
+	case *sqlast.NamedColumnsJoin:
+		a.applyList(n, "ColumnList")
 	case *sqlast.JoinCondition:
 		a.apply(n, "SearchCondition", nil, n.SearchCondition)
 	case *sqlast.NaturalJoin:
 		a.apply(n, "LeftElement", nil, n.LeftElement)
 		a.apply(n, "Type", nil, n.Type)
 		a.apply(n, "RightElement", nil, n.RightElement)
+	case *sqlast.PartitionedJoinTable:
+		a.apply(n, "Factor", nil, n.Factor)
+		a.applyList(n, "ColumnList")
 	case *sqlast.CrossJoin:
 		a.apply(n, "Factor", nil, n.Factor)
 		a.apply(n, "Reference", nil, n.Reference)
@@ -320,9 +332,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.Bytea:
 		// nothing to do
 	case *sqlast.Array:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.Custom:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.InsertStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Columns")
@@ -340,7 +352,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.UpdateStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Assignments")
-		a.apply(n, "Selection", nil, n.Selection)
+		if n.Selection != nil {
+			a.apply(n, "Selection", nil, n.Selection)
+		}
 	case *sqlast.DeleteStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		if n.Selection != nil {
@@ -352,6 +366,11 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
+		a.applyList(n, "Options")
+	case *sqlast.MyEngine:
+		a.apply(n, "Name", nil, n.Name)
+	case *sqlast.MyCharset:
+		a.apply(n, "Name", nil, n.Name)
 	case *sqlast.Assignment:
 		a.apply(n, "ID", nil, n.ID)
 		a.apply(n, "Value", nil, n.Value)
@@ -376,7 +395,10 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		if n.Default != nil {
 			a.apply(n, "Default", nil, n.Default)
 		}
+		a.applyList(n, "MyDataTypeDecoration")
 		a.applyList(n, "Constraints")
+	case *sqlast.AutoIncrement:
+		// nothing to do
 	case *sqlast.ColumnConstraint:
 		if n.Name != nil {
 			a.apply(n, "Name", nil, n.Name)
-- 
2.43.0


From 636abe1dc94e12245f10253dd1c1de9965c3b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 31/36] fix: rewrite children in source order

---
 sqlastutil/rewrite.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index f960cda..f3a2aa1 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -210,15 +210,15 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Limit", nil, n.Limit)
 		}
 	case *sqlast.CTE:
-		a.apply(n, "Query", nil, n.Query)
 		a.apply(n, "Alias", nil, n.Alias)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SelectExpr:
 		a.apply(n, "Select", nil, n.Select)
 	case *sqlast.QueryExpr:
 		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SetOperationExpr:
-		a.apply(n, "Op", nil, n.Op)
 		a.apply(n, "Left", nil, n.Left)
+		a.apply(n, "Op", nil, n.Op)
 		a.apply(n, "Right", nil, n.Right)
 	case *sqlast.UnionOperator:
 		// nothing to do
@@ -257,14 +257,14 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		a.apply(n, "Factor", nil, n.Factor)
 		a.applyList(n, "ColumnList")
 	case *sqlast.CrossJoin:
-		a.apply(n, "Factor", nil, n.Factor)
 		a.apply(n, "Reference", nil, n.Reference)
+		a.apply(n, "Factor", nil, n.Factor)
 	case *sqlast.Table:
 		a.apply(n, "Name", nil, n.Name)
+		a.applyList(n, "Args")
 		if n.Alias != nil {
 			a.apply(n, "Alias", nil, n.Alias)
 		}
-		a.applyList(n, "Args")
 		a.applyList(n, "WithHints")
 	case *sqlast.Derived:
 		a.apply(n, "SubQuery", nil, n.SubQuery)
@@ -440,10 +440,10 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.DropTableStmt:
 		a.applyList(n, "TableNames")
 	case *sqlast.CreateIndexStmt:
-		a.apply(n, "TableName", nil, n.TableName)
 		if n.IndexName != nil {
 			a.apply(n, "IndexName", nil, n.IndexName)
 		}
+		a.apply(n, "TableName", nil, n.TableName)
 		if n.MethodName != nil {
 			a.apply(n, "MethodName", nil, n.MethodName)
 		}
-- 
2.43.0


From 905d890c19aed33ece9d5e8c614860a1d67a3ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 32/36] fix: record and report the positions of more nodes

---
 parser.go       | 188 ++++++++++++++++++++++++++++++++----------------
 sqlast/ast.go   |  42 +++++++++--
 sqlast/query.go |   6 +-
 sqlast/stmt.go  |  35 +++++++--
 4 files changed, 196 insertions(+), 75 deletions(-)

diff --git a/parser.go b/parser.go
index def57cf..9a65c65 100644
--- a/parser.go
+++ b/parser.go
@@ -167,7 +167,7 @@ func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 		if err != nil {
 			return nil, err
 		}
-		return &sqlast.ExplainStmt{Stmt: stmt}, nil
+		return &sqlast.ExplainStmt{Stmt: stmt, Explain: tok.From}, nil
 	default:
 		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", keywordOf(word))
 	}
@@ -220,7 +220,11 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 
 		}
 		// FIXME Character
-		return &sqlast.VarcharType{Size: p, RParen: r, Character: tok.From}, nil
+		varying := tok.To
+		if p != nil {
+			varying = sqltoken.Pos{}
+		}
+		return &sqlast.VarcharType{Size: p, RParen: r, Character: tok.From, Varying: varying}, nil
 	case "CHAR", "CHARACTER":
 		if ok, v, _ := p.parseKeyword("VARYING"); ok {
 			p, r, err := p.parseOptionalPrecision()
@@ -237,7 +241,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	case "UUID":
 		return &sqlast.UUID{From: tok.From, To: tok.To}, nil
 	case "DATE":
-		return &sqlast.Date{}, nil
+		return &sqlast.Date{From: tok.From, To: tok.To}, nil
 	case "TIMESTAMP":
 		wok, zone := p.parseOptionalTimeZone()
 		return &sqlast.Timestamp{
@@ -249,17 +253,21 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		wok, zone := p.parseOptionalTimeZone()
 		return &sqlast.Time{From: tok.From, To: tok.To, WithTimeZone: wok, Zone: zone}, nil
 	case "REGCLASS":
-		return &sqlast.Regclass{}, nil
+		return &sqlast.Regclass{From: tok.From, To: tok.To}, nil
 	case "TEXT":
 		if ok, _ := p.consumeToken(sqltoken.LBracket); ok {
-			p.expectToken(sqltoken.RBracket)
+			r := p.mustNextToken()
+			if r.Kind != sqltoken.RBracket {
+				return nil, errors.Errorf("expected RBracket but %+v", r)
+			}
 			return &sqlast.Array{
-				Ty: &sqlast.Text{},
+				Ty:     &sqlast.Text{From: tok.From, To: tok.To},
+				RParen: r.To,
 			}, nil
 		}
-		return &sqlast.Text{}, nil
+		return &sqlast.Text{From: tok.From, To: tok.To}, nil
 	case "BYTEA":
-		return &sqlast.Bytea{}, nil
+		return &sqlast.Bytea{From: tok.From, To: tok.To}, nil
 	case "NUMERIC":
 		precision, scale, err := p.parseOptionalPrecisionScale()
 		if err != nil {
@@ -353,14 +361,20 @@ func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
 		}
 		s.Select = tok.From
 		expr = s
-	} else if ok, _ := p.consumeToken(sqltoken.LParen); ok {
+	} else if tok, _ := p.peekToken(); tok != nil && tok.Kind == sqltoken.LParen {
+		p.mustNextToken()
 		subquery, err := p.parseQuery()
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r := p.mustNextToken()
+		if r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
 		expr = &sqlast.QueryExpr{
-			Query: subquery,
+			LParen: tok.From,
+			RParen: r.To,
+			Query:  subquery,
 		}
 	} else {
 		return nil, errors.Errorf("expect SELECT or subquery in the query body")
@@ -409,11 +423,11 @@ func (p *Parser) parseSetOperator(token *sqltoken.Token) sqlast.SQLSetOperator {
 	word := token.Value.(*sqltoken.SQLWord)
 	switch keywordOf(word) {
 	case "UNION":
-		return &sqlast.UnionOperator{}
+		return &sqlast.UnionOperator{From: token.From, To: token.To}
 	case "EXCEPT":
-		return &sqlast.ExceptOperator{}
+		return &sqlast.ExceptOperator{From: token.From, To: token.To}
 	case "INTERSECT":
-		return &sqlast.IntersectOperator{}
+		return &sqlast.IntersectOperator{From: token.From, To: token.To}
 	}
 
 	return nil
@@ -543,7 +557,7 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	}
 
 	if iok || uiok {
-		return p.parseCreateIndex(uiok)
+		return p.parseCreateIndex(t, uiok)
 	}
 
 	return nil, errors.Errorf("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
@@ -597,7 +611,7 @@ func (p *Parser) parseCreateView(create *sqltoken.Token) (sqlast.Stmt, error) {
 
 }
 
-func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
+func (p *Parser) parseCreateIndex(create *sqltoken.Token, unique bool) (sqlast.Stmt, error) {
 	var indexName *sqlast.Ident
 	ok, _, _ := p.parseKeyword("ON")
 	if !ok {
@@ -624,12 +638,17 @@ func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
 	}
 
 	var columns []*sqlast.Ident
+	var rparen sqltoken.Pos
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		columns, err = p.parseColumnNames()
 		if err != nil {
 			return nil, errors.Errorf("parseColumnNames failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r := p.mustNextToken()
+		if r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
+		rparen = r.To
 	}
 
 	var selection sqlast.Node
@@ -642,11 +661,13 @@ func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
 	}
 
 	return &sqlast.CreateIndexStmt{
+		Create:      create.From,
 		IsUnique:    unique,
 		IndexName:   indexName,
 		TableName:   tableName,
 		MethodName:  methodName,
 		ColumnNames: columns,
+		RParen:      rparen,
 		Selection:   selection,
 	}, nil
 }
@@ -909,7 +930,9 @@ CONSTRAINT_LOOP:
 		word, ok := tok.Value.(*sqltoken.SQLWord)
 
 		var name *sqlast.Ident
+		var constraintPos sqltoken.Pos
 		if ok && keywordOf(word) == "CONSTRAINT" {
+			constraintPos = tok.From
 			p.mustNextToken()
 			i, err := p.parseIdentifier()
 			if err != nil {
@@ -997,8 +1020,9 @@ CONSTRAINT_LOOP:
 		}
 
 		constraints = append(constraints, &sqlast.ColumnConstraint{
-			Name: name,
-			Spec: spec,
+			Name:       name,
+			Constraint: constraintPos,
+			Spec:       spec,
 		})
 
 	}
@@ -1718,7 +1742,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 				Ref: ref,
 			},
 			Spec: spec,
-			Type: &sqlast.JoinType{Condition: sqlast.INNER},
+			Type: &sqlast.JoinType{Condition: sqlast.INNER, From: tok.From, To: tok.To},
 		}, nil
 	case "LEFT", "RIGHT", "FULL", "JOIN":
 		p.prevToken()
@@ -1766,12 +1790,12 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 			To:        tok.To,
 		}, nil
 	case "LEFT":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, otok, _ := p.parseKeyword("OUTER")
 		if outer {
 			return &sqlast.JoinType{
 				Condition: sqlast.LEFTOUTER,
 				From:      tok.From,
-				To:        tok.To,
+				To:        otok.To,
 			}, nil
 		}
 		return &sqlast.JoinType{
@@ -1780,20 +1804,20 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 			To:        tok.To,
 		}, nil
 	case "RIGHT":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, otok, _ := p.parseKeyword("OUTER")
 		if outer {
-			return &sqlast.JoinType{Condition: sqlast.RIGHTOUTER}, nil
+			return &sqlast.JoinType{Condition: sqlast.RIGHTOUTER, From: tok.From, To: otok.To}, nil
 		}
-		return &sqlast.JoinType{Condition: sqlast.RIGHT}, nil
+		return &sqlast.JoinType{Condition: sqlast.RIGHT, From: tok.From, To: tok.To}, nil
 	case "FULL":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, otok, _ := p.parseKeyword("OUTER")
 		if outer {
-			return &sqlast.JoinType{Condition: sqlast.FULLOUTER}, nil
+			return &sqlast.JoinType{Condition: sqlast.FULLOUTER, From: tok.From, To: otok.To}, nil
 		}
-		return &sqlast.JoinType{Condition: sqlast.FULL}, nil
+		return &sqlast.JoinType{Condition: sqlast.FULL, From: tok.From, To: tok.To}, nil
 	case "JOIN":
 		p.prevToken()
-		return &sqlast.JoinType{Condition: sqlast.IMPLICIT}, nil
+		return &sqlast.JoinType{Condition: sqlast.IMPLICIT, From: tok.From, To: tok.From}, nil
 	default:
 		return nil, errors.Errorf("unknown join type: %v", word)
 	}
@@ -1811,7 +1835,7 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 		}, nil
 	}
 
-	ok, _, _ := p.parseKeyword("USING")
+	ok, using, _ := p.parseKeyword("USING")
 	if !ok {
 		tok, _ := p.nextToken()
 		return nil, errors.Errorf("unknown join spec need USING or ON but: %v", tok)
@@ -1822,28 +1846,44 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 	if err != nil {
 		return nil, errors.Errorf("parse named columns join list failed: %w", err)
 	}
-	p.expectToken(sqltoken.RParen)
+	r := p.mustNextToken()
+	if r.Kind != sqltoken.RParen {
+		return nil, errors.Errorf("expected RParen but %+v", r)
+	}
 
 	return &sqlast.NamedColumnsJoin{
 		ColumnList: idents,
+		Using:      using.From,
+		RParen:     r.To,
 	}, nil
 }
 
 func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
-	isLateral, _, _ := p.parseKeyword("LATERAL")
-	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
+	isLateral, ltok, _ := p.parseKeyword("LATERAL")
+	var lateralPos sqltoken.Pos
+	if isLateral {
+		lateralPos = ltok.From
+	}
+	if l, _ := p.peekToken(); l != nil && l.Kind == sqltoken.LParen {
+		p.mustNextToken()
 		subquery, err := p.parseQuery()
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r := p.mustNextToken()
+		if r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
 		alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 		return &sqlast.Derived{
-			Lateral:  isLateral,
-			SubQuery: subquery,
-			Alias:    alias,
+			Lateral:    isLateral,
+			LateralPos: lateralPos,
+			LParen:     l.From,
+			RParen:     r.To,
+			SubQuery:   subquery,
+			Alias:      alias,
 		}, nil
-	} else if isLateral && !ok {
+	} else if isLateral {
 		t, _ := p.nextToken()
 		return nil, errors.Errorf("after lateral expected %s but %+v", sqltoken.LParen, t)
 	}
@@ -1869,6 +1909,7 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 
 	var withHints []sqlast.Node
+	var withHintsRParen sqltoken.Pos
 	if ok, _, _ := p.parseKeyword("WITH"); ok {
 		if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 			h, err := p.parseExprList()
@@ -1876,7 +1917,11 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 				return nil, errors.Errorf("parseExprList failed: %w", err)
 			}
 			withHints = h
-			p.expectToken(sqltoken.RParen)
+			r := p.mustNextToken()
+			if r.Kind != sqltoken.RParen {
+				return nil, errors.Errorf("expected RParen but %+v", r)
+			}
+			withHintsRParen = r.To
 		} else {
 			p.prevToken()
 		}
@@ -1888,13 +1933,15 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 		ArgsRParen: argsRParen,
 		Alias:      alias,
 		WithHints:  withHints,
+
+		WithHintsRParen: withHintsRParen,
 	}, nil
 
 }
 
 func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
-	if ok, _, _ := p.parseKeyword("ALL"); ok {
-		return &sqlast.LimitExpr{All: true}, nil
+	if ok, tok, _ := p.parseKeyword("ALL"); ok {
+		return &sqlast.LimitExpr{All: true, AllPos: tok.To}, nil
 	}
 
 	i, tok, err := p.parseLiteralInt()
@@ -1903,8 +1950,8 @@ func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
 	}
 
 	var offset *sqlast.LongValue
-	if ok, tok, _ := p.parseKeyword("OFFSET"); ok {
-		o, _, err := p.parseLiteralInt()
+	if ok, _, _ := p.parseKeyword("OFFSET"); ok {
+		o, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("invalid offset value: %w", err)
 		}
@@ -1995,6 +2042,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 	if err != nil {
 		return nil, errors.Errorf("nextToken failed: %w", err)
 	}
+	operatorEnd := tok.To
 
 	switch tok.Kind {
 	case sqltoken.Eq:
@@ -2029,9 +2077,10 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		case "LIKE":
 			operator = sqlast.Like
 		case "NOT":
-			ok, _, _ := p.parseKeyword("LIKE")
+			ok, like, _ := p.parseKeyword("LIKE")
 			if ok {
 				operator = sqlast.NotLike
+				operatorEnd = like.To
 			}
 		}
 	}
@@ -2044,7 +2093,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 
 		return &sqlast.BinaryExpr{
 			Left:  expr,
-			Op:    &sqlast.Operator{Type: operator, From: tok.From, To: tok.To},
+			Op:    &sqlast.Operator{Type: operator, From: tok.From, To: operatorEnd},
 			Right: right,
 		}, nil
 	}
@@ -2281,7 +2330,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 			}
 			return &sqlast.UnaryExpr{
 				From: tok.From,
-				Op:   &sqlast.Operator{Type: sqlast.Not},
+				Op:   &sqlast.Operator{Type: sqlast.Not, From: tok.From, To: tok.To},
 				Expr: expr,
 			}, nil
 		default:
@@ -2431,6 +2480,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 	}
 
 	var over *sqlast.WindowSpec
+	var overRParen sqltoken.Pos
 	if ok, _, _ := p.parseKeyword("OVER"); ok {
 		p.expectToken(sqltoken.LParen)
 
@@ -2466,6 +2516,11 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 		if err != nil {
 			return nil, errors.Errorf("parseWindowFrame failed: %w", err)
 		}
+		rp := p.mustNextToken()
+		if rp.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", rp)
+		}
+		overRParen = rp.To
 
 		over = &sqlast.WindowSpec{
 			PartitionBy:  partitionBy,
@@ -2481,6 +2536,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 		Args:       args,
 		Over:       over,
 		ArgsRParen: r.To,
+		OverRparen: overRParen,
 	}, nil
 }
 
@@ -2507,17 +2563,21 @@ func (p *Parser) parseOrderByExprList() ([]*sqlast.OrderByExpr, error) {
 		}
 		var asc *bool
 
-		if ok, _, _ := p.parseKeyword("ASC"); ok {
+		var ordering sqltoken.Pos
+		if ok, tok, _ := p.parseKeyword("ASC"); ok {
 			b := true
 			asc = &b
-		} else if ok, _, _ := p.parseKeyword("DESC"); ok {
+			ordering = tok.To
+		} else if ok, tok, _ := p.parseKeyword("DESC"); ok {
 			b := false
 			asc = &b
+			ordering = tok.To
 		}
 
 		exprList = append(exprList, &sqlast.OrderByExpr{
-			Expr: expr,
-			ASC:  asc,
+			Expr:        expr,
+			OrderingPos: ordering,
+			ASC:         asc,
 		})
 
 		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
@@ -2542,6 +2602,7 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		if err != nil {
 			return nil, errors.Errorf("invalid window frame unit: %w", err)
 		}
+		units.From, units.To = t.From, t.To
 		p.mustNextToken()
 
 		if ok, _, _ := p.parseKeyword("BETWEEN"); ok {
@@ -2572,28 +2633,29 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		}
 	}
 
-	p.expectToken(sqltoken.RParen)
 	return windowFrame, nil
 }
 
 func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
-	if ok, _, _ := p.parseKeywords("CURRENT", "ROW"); ok {
-		return &sqlast.CurrentRow{}, nil
+	if ok, toks, _ := p.parseKeywords("CURRENT", "ROW"); ok {
+		return &sqlast.CurrentRow{Current: toks[0].From, Row: toks[1].To}, nil
 	}
 
 	var rows *uint64
-	if ok, _, _ := p.parseKeyword("UNBOUNDED"); ok {
-		if ok, _, _ := p.parseKeyword("PRECEDING"); ok {
-			return &sqlast.UnboundedPreceding{}, nil
+	var from sqltoken.Pos
+	if ok, u, _ := p.parseKeyword("UNBOUNDED"); ok {
+		if ok, tok, _ := p.parseKeyword("PRECEDING"); ok {
+			return &sqlast.UnboundedPreceding{Unbounded: u.From, Preceding: tok.To}, nil
 		}
-		if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
-			return &sqlast.UnboundedFollowing{}, nil
+		if ok, tok, _ := p.parseKeyword("FOLLOWING"); ok {
+			return &sqlast.UnboundedFollowing{Unbounded: u.From, Following: tok.To}, nil
 		}
 	} else {
-		i, _, err := p.parseLiteralInt()
+		i, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("parseLiteralInt failed: %w", err)
 		}
+		from = tok.From
 		if i < 0 {
 			return nil, errors.Errorf("the number of rows must ne non-negative, got %d", i)
 		}
@@ -2601,11 +2663,11 @@ func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
 		rows = &ui
 	}
 
-	if ok, _, _ := p.parseKeyword("PRECEDING"); ok {
-		return &sqlast.Preceding{Bound: rows}, nil
+	if ok, tok, _ := p.parseKeyword("PRECEDING"); ok {
+		return &sqlast.Preceding{Bound: rows, From: from, Preceding: tok.To}, nil
 	}
-	if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
-		return &sqlast.Following{Bound: rows}, nil
+	if ok, tok, _ := p.parseKeyword("FOLLOWING"); ok {
+		return &sqlast.Following{Bound: rows, From: from, Following: tok.To}, nil
 	}
 	return nil, errors.Errorf("expected PRECEDING or FOLLOWING")
 }
diff --git a/sqlast/ast.go b/sqlast/ast.go
index 20144c4..b2ab883 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -29,6 +29,13 @@ type File struct {
 
 func (f *File) End() sqltoken.Pos {
 
+	if len(f.Stmts) == 0 {
+		if len(f.Comments) == 0 {
+			return sqltoken.Pos{}
+		}
+		return f.Comments[len(f.Comments)-1].End()
+	}
+
 	if len(f.Comments) != 0 {
 		if sqltoken.ComparePos(f.Comments[len(f.Comments)-1].End(), f.Stmts[len(f.Stmts)-1].End()) == 1 {
 			return f.Comments[len(f.Comments)-1].End()
@@ -39,6 +46,13 @@ func (f *File) End() sqltoken.Pos {
 }
 
 func (f *File) Pos() sqltoken.Pos {
+	if len(f.Stmts) == 0 {
+		if len(f.Comments) == 0 {
+			return sqltoken.Pos{}
+		}
+		return f.Comments[0].Pos()
+	}
+
 	if len(f.Comments) != 0 {
 		if sqltoken.ComparePos(f.Stmts[0].Pos(), f.Comments[0].Pos()) == 1 {
 			return f.Comments[0].Pos()
@@ -133,7 +147,11 @@ func (s *QualifiedWildcard) Pos() sqltoken.Pos {
 }
 
 func (s *QualifiedWildcard) End() sqltoken.Pos {
-	return s.Idents[len(s.Idents)-1].End()
+	end := s.Idents[len(s.Idents)-1].End()
+	return sqltoken.Pos{
+		Line: end.Line,
+		Col:  end.Col + 2,
+	}
 }
 
 func (s *QualifiedWildcard) ToSQLString() string {
@@ -336,10 +354,16 @@ type Cast struct {
 }
 
 func (s *Cast) Pos() sqltoken.Pos {
+	if s.Cast == (sqltoken.Pos{}) { // Expr::DataType
+		return s.Expr.Pos()
+	}
 	return s.Cast
 }
 
 func (s *Cast) End() sqltoken.Pos {
+	if s.RParen == (sqltoken.Pos{}) { // Expr::DataType
+		return s.DataType.End()
+	}
 	return s.RParen
 }
 
@@ -510,11 +534,11 @@ type SubQuery struct {
 }
 
 func (s *SubQuery) Pos() sqltoken.Pos {
-	return s.RParen
+	return s.LParen
 }
 
 func (s *SubQuery) End() sqltoken.Pos {
-	return s.LParen
+	return s.RParen
 }
 
 func (s *SubQuery) ToSQLString() string {
@@ -573,7 +597,11 @@ func (s *WindowSpec) Pos() sqltoken.Pos {
 		return s.Order
 	}
 
-	return s.WindowsFrame.Pos()
+	if s.WindowsFrame != nil {
+		return s.WindowsFrame.Pos()
+	}
+
+	return sqltoken.Pos{}
 }
 
 func (s *WindowSpec) End() sqltoken.Pos {
@@ -585,7 +613,11 @@ func (s *WindowSpec) End() sqltoken.Pos {
 		return s.OrderBy[len(s.OrderBy)-1].End()
 	}
 
-	return s.PartitionBy[len(s.PartitionBy)-1].End()
+	if len(s.PartitionBy) != 0 {
+		return s.PartitionBy[len(s.PartitionBy)-1].End()
+	}
+
+	return sqltoken.Pos{}
 }
 
 func (s *WindowSpec) ToSQLString() string {
diff --git a/sqlast/query.go b/sqlast/query.go
index 4b8882b..f2af2bb 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -356,7 +356,7 @@ type Derived struct {
 	tableFactor
 	tableReference
 	Lateral    bool
-	LateralPos sqltoken.Pos // last position of LATERAL keyword if Lateral is true
+	LateralPos sqltoken.Pos // first position of LATERAL keyword if Lateral is true
 	LParen     sqltoken.Pos
 	RParen     sqltoken.Pos
 	SubQuery   *QueryStmt
@@ -375,7 +375,7 @@ func (d *Derived) End() sqltoken.Pos {
 		return d.Alias.End()
 	}
 
-	return d.LParen
+	return d.RParen
 }
 
 func (d *Derived) ToSQLString() string {
@@ -719,7 +719,7 @@ func (j *JoinType) WriteTo(w io.Writer) (int64, error) {
 // ORDER BY Expr [ASC | DESC]
 type OrderByExpr struct {
 	Expr        Node
-	OrderingPos sqltoken.Pos // ASC / DESC keyword position if ASC != nil
+	OrderingPos sqltoken.Pos // last position of the ASC / DESC keyword if ASC != nil
 	ASC         *bool
 }
 
diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index a0da7b4..4c5f2c1 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -288,7 +288,13 @@ func (c *CreateTableStmt) Pos() sqltoken.Pos {
 }
 
 func (c *CreateTableStmt) End() sqltoken.Pos {
-	return c.Elements[len(c.Elements)-1].End()
+	if len(c.Options) != 0 {
+		return c.Options[len(c.Options)-1].End()
+	}
+	if len(c.Elements) != 0 {
+		return c.Elements[len(c.Elements)-1].End()
+	}
+	return c.Name.End()
 }
 
 func (c *CreateTableStmt) ToSQLString() string {
@@ -496,7 +502,21 @@ func (c *ColumnDef) Pos() sqltoken.Pos {
 }
 
 func (c *ColumnDef) End() sqltoken.Pos {
-	return c.Constraints[len(c.Constraints)-1].End()
+	end := c.DataType.End()
+	nodes := []Node{c.Default}
+	for _, m := range c.MyDataTypeDecoration {
+		nodes = append(nodes, m)
+	}
+	for _, cons := range c.Constraints {
+		nodes = append(nodes, cons)
+	}
+	// the default value, decorations and constraints can be written in any order
+	for _, n := range nodes {
+		if n != nil && sqltoken.ComparePos(n.End(), end) == 1 {
+			end = n.End()
+		}
+	}
+	return end
 }
 
 func (c *ColumnDef) ToSQLString() string {
@@ -550,9 +570,9 @@ type ColumnConstraint struct {
 
 func (c *ColumnConstraint) Pos() sqltoken.Pos {
 	if c.Name == nil {
-		return c.Constraint
+		return c.Spec.Pos()
 	}
-	return c.Name.Pos()
+	return c.Constraint
 }
 
 func (c *ColumnConstraint) End() sqltoken.Pos {
@@ -1068,6 +1088,13 @@ func (c *CreateIndexStmt) End() sqltoken.Pos {
 		return c.Selection.End()
 	}
 
+	if len(c.ColumnNames) == 0 {
+		if c.MethodName != nil {
+			return c.MethodName.End()
+		}
+		return c.TableName.End()
+	}
+
 	return c.RParen
 }
 
-- 
2.43.0


From 47040bdd2b5700c0ea97449ecf1201b994c355aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 33/36] fix: end IS NULL and qualified wildcards where they
 end, start nodes at their first known position

---
 parser.go       | 26 +++++++++++++++++---------
 sqlast/ast.go   | 24 ++++++++++++++++++------
 sqlast/query.go |  9 +++++++++
 sqlast/stmt.go  |  3 +++
 4 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/parser.go b/parser.go
index 9a65c65..e941cb8 100644
--- a/parser.go
+++ b/parser.go
@@ -336,8 +336,8 @@ func (p *Parser) parseQuery() (*sqlast.QueryStmt, error) {
 	}
 
 	var limit *sqlast.LimitExpr
-	if ok, _, _ := p.parseKeyword("LIMIT"); ok {
-		l, err := p.parseLimit()
+	if ok, tok, _ := p.parseKeyword("LIMIT"); ok {
+		l, err := p.parseLimit(tok)
 		if err != nil {
 			return nil, errors.Errorf("invalid limit expression: %w", err)
 		}
@@ -1939,9 +1939,9 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 
 }
 
-func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
+func (p *Parser) parseLimit(limit *sqltoken.Token) (*sqlast.LimitExpr, error) {
 	if ok, tok, _ := p.parseKeyword("ALL"); ok {
-		return &sqlast.LimitExpr{All: true, AllPos: tok.To}, nil
+		return &sqlast.LimitExpr{All: true, AllPos: tok.To, Limit: limit.From}, nil
 	}
 
 	i, tok, err := p.parseLiteralInt()
@@ -2103,14 +2103,16 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 
 		switch keywordOf(word) {
 		case "IS":
-			if ok, _, _ := p.parseKeyword("NULL"); ok {
+			if ok, null, _ := p.parseKeyword("NULL"); ok {
 				return &sqlast.IsNull{
-					X: expr,
+					X:    expr,
+					Null: null.To,
 				}, nil
 			}
-			if ok, _, _ := p.parseKeywords("NOT", "NULL"); ok {
+			if ok, toks, _ := p.parseKeywords("NOT", "NULL"); ok {
 				return &sqlast.IsNotNull{
-					X: expr,
+					X:    expr,
+					Null: toks[1].To,
 				}, nil
 			}
 			return nil, errors.Errorf("NULL or NOT NULL after IS")
@@ -2345,6 +2347,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 				{Value: word.String(), From: tok.From, To: tok.To},
 			}
 			endWithWildcard := false
+			var wildcardEnd sqltoken.Pos
 
 			for {
 				if ok, _ := p.consumeToken(sqltoken.Period); !ok {
@@ -2364,6 +2367,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 					continue
 				}
 				if n.Kind == sqltoken.Mult {
+					wildcardEnd = n.To
 					endWithWildcard = true
 					break
 				}
@@ -2373,7 +2377,8 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 
 			if endWithWildcard {
 				return &sqlast.QualifiedWildcard{
-					Idents: idParts,
+					Idents:   idParts,
+					Wildcard: wildcardEnd,
 				}, nil
 			}
 
@@ -2521,6 +2526,9 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 			return nil, errors.Errorf("expected RParen but %+v", rp)
 		}
 		overRParen = rp.To
+		if partitionBy == nil && orderBy == nil && windowFrame == nil {
+			partition = rp.From
+		}
 
 		over = &sqlast.WindowSpec{
 			PartitionBy:  partitionBy,
diff --git a/sqlast/ast.go b/sqlast/ast.go
index b2ab883..084ae06 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -139,7 +139,8 @@ func (s *Wildcard) WriteTo(w io.Writer) (int64, error) {
 
 // `table.*`, schema.table.*
 type QualifiedWildcard struct {
-	Idents []*Ident
+	Idents   []*Ident
+	Wildcard sqltoken.Pos // last position of the wildcard
 }
 
 func (s *QualifiedWildcard) Pos() sqltoken.Pos {
@@ -147,6 +148,9 @@ func (s *QualifiedWildcard) Pos() sqltoken.Pos {
 }
 
 func (s *QualifiedWildcard) End() sqltoken.Pos {
+	if s.Wildcard != (sqltoken.Pos{}) {
+		return s.Wildcard
+	}
 	end := s.Idents[len(s.Idents)-1].End()
 	return sqltoken.Pos{
 		Line: end.Line,
@@ -185,7 +189,8 @@ func (s *CompoundIdent) WriteTo(w io.Writer) (int64, error) {
 
 // ` X IS NULL`
 type IsNull struct {
-	X Node
+	X    Node
+	Null sqltoken.Pos // last position of NULL
 }
 
 func (s *IsNull) Pos() sqltoken.Pos {
@@ -193,6 +198,9 @@ func (s *IsNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNull) End() sqltoken.Pos {
+	if s.Null != (sqltoken.Pos{}) {
+		return s.Null
+	}
 	return sqltoken.Pos{
 		Line: s.X.End().Line,
 		Col:  s.X.End().Col + 8,
@@ -209,7 +217,8 @@ func (s *IsNull) WriteTo(w io.Writer) (int64, error) {
 
 // `X IS NOT NULL`
 type IsNotNull struct {
-	X Node
+	X    Node
+	Null sqltoken.Pos // last position of NULL
 }
 
 func (s *IsNotNull) Pos() sqltoken.Pos {
@@ -217,6 +226,9 @@ func (s *IsNotNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNotNull) End() sqltoken.Pos {
+	if s.Null != (sqltoken.Pos{}) {
+		return s.Null
+	}
 	return sqltoken.Pos{
 		Line: s.X.End().Line,
 		Col:  s.X.End().Col + 12,
@@ -586,7 +598,7 @@ type WindowSpec struct {
 	PartitionBy      []Node
 	OrderBy          []*OrderByExpr
 	WindowsFrame     *WindowFrame
-	Partition, Order sqltoken.Pos
+	Partition, Order sqltoken.Pos // first positions of PARTITION and ORDER (Partition: the position of an empty window specification)
 }
 
 func (s *WindowSpec) Pos() sqltoken.Pos {
@@ -601,7 +613,7 @@ func (s *WindowSpec) Pos() sqltoken.Pos {
 		return s.WindowsFrame.Pos()
 	}
 
-	return sqltoken.Pos{}
+	return s.Partition
 }
 
 func (s *WindowSpec) End() sqltoken.Pos {
@@ -617,7 +629,7 @@ func (s *WindowSpec) End() sqltoken.Pos {
 		return s.PartitionBy[len(s.PartitionBy)-1].End()
 	}
 
-	return sqltoken.Pos{}
+	return s.Partition
 }
 
 func (s *WindowSpec) ToSQLString() string {
diff --git a/sqlast/query.go b/sqlast/query.go
index f2af2bb..8a8cae2 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -19,6 +19,9 @@ type QueryStmt struct {
 
 func (q *QueryStmt) Pos() sqltoken.Pos {
 	if len(q.CTEs) != 0 {
+		if q.With == (sqltoken.Pos{}) {
+			return q.CTEs[0].Pos()
+		}
 		return q.With
 	}
 
@@ -77,6 +80,9 @@ func (c *CTE) Pos() sqltoken.Pos {
 }
 
 func (c *CTE) End() sqltoken.Pos {
+	if c.RParen == (sqltoken.Pos{}) {
+		return c.Query.End()
+	}
 	return c.RParen
 }
 
@@ -762,6 +768,9 @@ type LimitExpr struct {
 }
 
 func (l *LimitExpr) Pos() sqltoken.Pos {
+	if l.Limit == (sqltoken.Pos{}) && l.LimitValue != nil {
+		return l.LimitValue.From
+	}
 	return l.Limit
 }
 
diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index 4c5f2c1..b8b2159 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -82,6 +82,9 @@ type ConstructorSource struct {
 }
 
 func (c *ConstructorSource) Pos() sqltoken.Pos {
+	if c.Values == (sqltoken.Pos{}) {
+		return c.Rows[0].Pos()
+	}
 	return c.Values
 }
 
-- 
2.43.0


From 99506c31fb335ba191b8d0b2610b757eaa29e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:31 +0000
Subject: [PATCH 34/36] fix: HAVING, LIMIT and ON are not taken for an alias

---
 dialect/keywords.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dialect/keywords.go b/dialect/keywords.go
index 07f152e..b2fa3cf 100644
--- a/dialect/keywords.go
+++ b/dialect/keywords.go
@@ -359,6 +359,8 @@ func init() {
 	ReservedForTableAlias[SELECT] = struct{}{}
 	ReservedForTableAlias[WHERE] = struct{}{}
 	ReservedForTableAlias[GROUP] = struct{}{}
+	ReservedForTableAlias[HAVING] = struct{}{}
+	ReservedForTableAlias[LIMIT] = struct{}{}
 	ReservedForTableAlias[ORDER] = struct{}{}
 	ReservedForTableAlias[UNION] = struct{}{}
 	ReservedForTableAlias[EXCEPT] = struct{}{}
@@ -378,6 +380,9 @@ func init() {
 	ReservedForColumnAlias[SELECT] = struct{}{}
 	ReservedForColumnAlias[WHERE] = struct{}{}
 	ReservedForColumnAlias[GROUP] = struct{}{}
+	ReservedForColumnAlias[HAVING] = struct{}{}
+	ReservedForColumnAlias[LIMIT] = struct{}{}
+	ReservedForColumnAlias[ON] = struct{}{}
 	ReservedForColumnAlias[ORDER] = struct{}{}
 	ReservedForColumnAlias[UNION] = struct{}{}
 	ReservedForColumnAlias[EXCEPT] = struct{}{}
-- 
2.43.0


From 7ec16ce1488f68e420b66cc788b069af8a4f2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 35/36] fix: SELECT WITH in a subquery no longer loses the
 SELECT

---
 parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index e941cb8..1860abc 100644
--- a/parser.go
+++ b/parser.go
@@ -2150,7 +2150,10 @@ func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 	p.expectToken(sqltoken.LParen)
 	sok, _, _ := p.parseKeyword("SELECT")
-	wok, _, _ := p.parseKeyword("WITH")
+	wok := false
+	if !sok {
+		wok, _, _ = p.parseKeyword("WITH")
+	}
 	var inop sqlast.Node
 	if sok || wok {
 		p.prevToken()
@@ -2433,7 +2436,10 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		return v, nil
 	case sqltoken.LParen:
 		sok, _, _ := p.parseKeyword("SELECT")
-		wok, _, _ := p.parseKeyword("WITH")
+		wok := false
+		if !sok {
+			wok, _, _ = p.parseKeyword("WITH")
+		}
 
 		var ast sqlast.Node
 
-- 
2.43.0


From cc8a17e700667e808521c8db49fdc4d9458da0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 36/36] fix: SetTokens parses the given tokens from the first
 one

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 1860abc..6f798c9 100644
--- a/parser.go
+++ b/parser.go
@@ -58,6 +58,10 @@ func NewParserWithOptions(opts ...ParserOption) *Parser {
 // FIXME: create appropriate parse function
 func (p *Parser) SetTokens(tokens []*sqltoken.Token) {
 	p.tokens = tokens
+	p.index = 0
+	if p.parseComment {
+		p.comments = make(map[sqltoken.Pos]*sqlast.CommentGroup)
+	}
 }
 
 func (p *Parser) ParseFile() (*sqlast.File, error) {
-- 
2.43.0

