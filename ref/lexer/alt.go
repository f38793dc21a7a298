package lexer

import (
	"unicode"

	"github.com/goccmack/gogll/v3/token"
)

// New_alt1: one character or one token per iteration.
func New_alt1(input []rune) *Lexer {
	lex := &Lexer{
		I:      input,
		Tokens: make([]*token.Token, 0, 2048),
	}
	for lext := 0; lext < len(lex.I); {
		if unicode.IsSpace(lex.I[lext]) {
			lext++
			continue
		}
		tok := lex.scan(lext)
		if !tok.Suppress() {
			lex.addToken(tok)
		}
		lext = tok.Rext()
	}
	lex.add(token.EOF, len(input), len(input))
	return lex
}
