
// Package lexer is generated by GoGLL. Do not edit.
package lexer

import (
	// "fmt"
	"io/ioutil"
	"strings"
	"unicode"

	"github.com/goccmack/gogll/v3/token"
)

type state int

const nullState state = -1

// Unicode categories
var (
	_Cc     = unicode.Cc     // Cc is the set of Unicode characters in category Cc (Other, control).
	_Cf     = unicode.Cf     // Cf is the set of Unicode characters in category Cf (Other, format).
	_Co     = unicode.Co     // Co is the set of Unicode characters in category Co (Other, private use).
	_Cs     = unicode.Cs     // Cs is the set of Unicode characters in category Cs (Other, surrogate).
	_Digit  = unicode.Digit  // Digit is the set of Unicode characters with the "decimal digit" property.
	_Nd     = unicode.Nd     // Nd is the set of Unicode characters in category Nd (Number, decimal digit).
	_Letter = unicode.Letter // Letter/L is the set of Unicode letters, category L.
	_L      = unicode.L
	_Lm     = unicode.Lm    // Lm is the set of Unicode characters in category Lm (Letter, modifier).
	_Lo     = unicode.Lo    // Lo is the set of Unicode characters in category Lo (Letter, other).
	_Lower  = unicode.Lower // Lower is the set of Unicode lower case letters.
	_Ll     = unicode.Ll    // Ll is the set of Unicode characters in category Ll (Letter, lowercase).
	_Mark   = unicode.Mark  // Mark/M is the set of Unicode mark characters, category M.
	_M      = unicode.M
	_Mc     = unicode.Mc     // Mc is the set of Unicode characters in category Mc (Mark, spacing combining).
	_Me     = unicode.Me     // Me is the set of Unicode characters in category Me (Mark, enclosing).
	_Mn     = unicode.Mn     // Mn is the set of Unicode characters in category Mn (Mark, nonspacing).
	_Nl     = unicode.Nl     // Nl is the set of Unicode characters in category Nl (Number, letter).
	_No     = unicode.No     // No is the set of Unicode characters in category No (Number, other).
	_Number = unicode.Number // Number/N is the set of Unicode number characters, category N.
	_N      = unicode.N
	_Other  = unicode.Other // Other/C is the set of Unicode control and special characters, category C.
	_C      = unicode.C
	_Pc     = unicode.Pc    // Pc is the set of Unicode characters in category Pc (Punctuation, connector).
	_Pd     = unicode.Pd    // Pd is the set of Unicode characters in category Pd (Punctuation, dash).
	_Pe     = unicode.Pe    // Pe is the set of Unicode characters in category Pe (Punctuation, close).
	_Pf     = unicode.Pf    // Pf is the set of Unicode characters in category Pf (Punctuation, final quote).
	_Pi     = unicode.Pi    // Pi is the set of Unicode characters in category Pi (Punctuation, initial quote).
	_Po     = unicode.Po    // Po is the set of Unicode characters in category Po (Punctuation, other).
	_Ps     = unicode.Ps    // Ps is the set of Unicode characters in category Ps (Punctuation, open).
	_Punct  = unicode.Punct // Punct/P is the set of Unicode punctuation characters, category P.
	_P      = unicode.P
	_Sc     = unicode.Sc    // Sc is the set of Unicode characters in category Sc (Symbol, currency).
	_Sk     = unicode.Sk    // Sk is the set of Unicode characters in category Sk (Symbol, modifier).
	_Sm     = unicode.Sm    // Sm is the set of Unicode characters in category Sm (Symbol, math).
	_So     = unicode.So    // So is the set of Unicode characters in category So (Symbol, other).
	_Space  = unicode.Space // Space/Z is the set of Unicode space characters, category Z.
	_Z      = unicode.Z
	_Symbol = unicode.Symbol // Symbol/S is the set of Unicode symbol characters, category S.
	_S      = unicode.S
	_Title  = unicode.Title // Title is the set of Unicode title case letters.
	_Lt     = unicode.Lt    // Lt is the set of Unicode characters in category Lt (Letter, titlecase).
	_Upper  = unicode.Upper // Upper is the set of Unicode upper case letters.
	_Lu     = unicode.Lu    // Lu is the set of Unicode characters in category Lu (Letter, uppercase).
	_Zl     = unicode.Zl    // Zl is the set of Unicode characters in category Zl (Separator, line).
	_Zp     = unicode.Zp    // Zp is the set of Unicode characters in category Zp (Separator, paragraph).
	_Zs     = unicode.Zs    // Zs is the set of Unicode characters in category Zs (Separator, space).
)

// Unicode properties
var (
	_ASCII_Hex_Digit                    = unicode.ASCII_Hex_Digit                    // ASCII_Hex_Digit is the set of Unicode characters with property ASCII_Hex_Digit.
	_Bidi_Control                       = unicode.Bidi_Control                       // Bidi_Control is the set of Unicode characters with property Bidi_Control.
	_Dash                               = unicode.Dash                               // Dash is the set of Unicode characters with property Dash.
	_Deprecated                         = unicode.Deprecated                         // Deprecated is the set of Unicode characters with property Deprecated.
	_Diacritic                          = unicode.Diacritic                          // Diacritic is the set of Unicode characters with property Diacritic.
	_Extender                           = unicode.Extender                           // Extender is the set of Unicode characters with property Extender.
	_Hex_Digit                          = unicode.Hex_Digit                          // Hex_Digit is the set of Unicode characters with property Hex_Digit.
	_Hyphen                             = unicode.Hyphen                             // Hyphen is the set of Unicode characters with property Hyphen.
	_IDS_Binary_Operator                = unicode.IDS_Binary_Operator                // IDS_Binary_Operator is the set of Unicode characters with property IDS_Binary_Operator.
	_IDS_Trinary_Operator               = unicode.IDS_Trinary_Operator               // IDS_Trinary_Operator is the set of Unicode characters with property IDS_Trinary_Operator.
	_Ideographic                        = unicode.Ideographic                        // Ideographic is the set of Unicode characters with property Ideographic.
	_Join_Control                       = unicode.Join_Control                       // Join_Control is the set of Unicode characters with property Join_Control.
	_Logical_Order_Exception            = unicode.Logical_Order_Exception            // Logical_Order_Exception is the set of Unicode characters with property Logical_Order_Exception.
	_Noncharacter_Code_Point            = unicode.Noncharacter_Code_Point            // Noncharacter_Code_Point is the set of Unicode characters with property Noncharacter_Code_Point.
	_Other_Alphabetic                   = unicode.Other_Alphabetic                   // Other_Alphabetic is the set of Unicode characters with property Other_Alphabetic.
	_Other_Default_Ignorable_Code_Point = unicode.Other_Default_Ignorable_Code_Point // Other_Default_Ignorable_Code_Point is the set of Unicode characters with property Other_Default_Ignorable_Code_Point.
	_Other_Grapheme_Extend              = unicode.Other_Grapheme_Extend              // Other_Grapheme_Extend is the set of Unicode characters with property Other_Grapheme_Extend.
	_Other_ID_Continue                  = unicode.Other_ID_Continue                  // Other_ID_Continue is the set of Unicode characters with property Other_ID_Continue.
	_Other_ID_Start                     = unicode.Other_ID_Start                     // Other_ID_Start is the set of Unicode characters with property Other_ID_Start.
	_Other_Lowercase                    = unicode.Other_Lowercase                    // Other_Lowercase is the set of Unicode characters with property Other_Lowercase.
	_Other_Math                         = unicode.Other_Math                         // Other_Math is the set of Unicode characters with property Other_Math.
	_Other_Uppercase                    = unicode.Other_Uppercase                    // Other_Uppercase is the set of Unicode characters with property Other_Uppercase.
	_Pattern_Syntax                     = unicode.Pattern_Syntax                     // Pattern_Syntax is the set of Unicode characters with property Pattern_Syntax.
	_Pattern_White_Space                = unicode.Pattern_White_Space                // Pattern_White_Space is the set of Unicode characters with property Pattern_White_Space.
	_Prepended_Concatenation_Mark       = unicode.Prepended_Concatenation_Mark       // Prepended_Concatenation_Mark is the set of Unicode characters with property Prepended_Concatenation_Mark.
	_Quotation_Mark                     = unicode.Quotation_Mark                     // Quotation_Mark is the set of Unicode characters with property Quotation_Mark.
	_Radical                            = unicode.Radical                            // Radical is the set of Unicode characters with property Radical.
	_Regional_Indicator                 = unicode.Regional_Indicator                 // Regional_Indicator is the set of Unicode characters with property Regional_Indicator.
	_STerm                              = unicode.STerm                              // STerm is an alias for Sentence_Terminal.
	_Sentence_Terminal                  = unicode.Sentence_Terminal                  // Sentence_Terminal is the set of Unicode characters with property Sentence_Terminal.
	_Soft_Dotted                        = unicode.Soft_Dotted                        // Soft_Dotted is the set of Unicode characters with property Soft_Dotted.
	_Terminal_Punctuation               = unicode.Terminal_Punctuation               // Terminal_Punctuation is the set of Unicode characters with property Terminal_Punctuation.
	_Unified_Ideograph                  = unicode.Unified_Ideograph                  // Unified_Ideograph is the set of Unicode characters with property Unified_Ideograph.
	_Variation_Selector                 = unicode.Variation_Selector                 // Variation_Selector is the set of Unicode characters with property Variation_Selector.
	_White_Space                        = unicode.White_Space                        // White_Space is the set of Unicode characters with property White_Space.
)

// Lexer contains both the input slice of runes and the slice of tokens
// parsed from the input
type Lexer struct {
	// I is the input slice of runes
	I      []rune

	// Tokens is the slice of tokens constructed by the lexer from I
	Tokens []*token.Token
}

/*
NewFile constructs a Lexer created from the input file, fname. 

If the input file is a markdown file NewFile process treats all text outside
code blocks as whitespace. All text inside code blocks are treated as input text.

If the input file is a normal text file NewFile treats all text in the inputfile
as input text.
*/
func NewFile(fname string) *Lexer {
	buf, err := ioutil.ReadFile(fname)
	if err != nil {
		panic(err)
	}
	input := []rune(string(buf))
	if strings.HasSuffix(fname, ".md") {
		loadMd(input)
	}
	return New(input)
}

func loadMd(input []rune) {
	i := 0
	text := true
	for i < len(input) {
		if i <= len(input)-3 && input[i] == '`' && input[i+1] == '`' && input[i+2] == '`' {
			text = !text
			for j := 0; j < 3; j++ {
				input[i+j] = ' '
			}
			i += 3
		} else {
			if text {
				if input[i] == '\n' {
					input[i] = '\n'
				} else {
					input[i] = ' '
				}
			}
			i += 1
		}
	}
}

/*
New constructs a Lexer from a slice of runes. 

All contents of the input slice are treated as input text.
*/
func New(input []rune) *Lexer {
	lex := &Lexer{
		I:      input,
		Tokens: make([]*token.Token, 0, 2048),
	}
	lext := 0
	for lext < len(lex.I) {
		for lext < len(lex.I) && unicode.IsSpace(lex.I[lext]) {
			lext++
		}
		if lext < len(lex.I) {
			tok := lex.scan(lext)
			lext = tok.Rext()
			if !tok.Suppress() {
				lex.addToken(tok)
			}
		}
	}
	lex.add(token.EOF, len(input), len(input))
	return lex
}

func (l *Lexer) scan(i int) *token.Token {
	// fmt.Printf("lexer.scan(%d)\n", i)
	s, typ, rext := nullState, token.Error, i+1
	if i < len(l.I) {
		// fmt.Printf("  rext %d, i %d\n", rext, i)
		s = nextState[0](l.I[i])
	}
	// the longest match
	matchTyp, matchRext := token.Error, rext
	for s != nullState {
		if accept[s] != token.Error {
			matchTyp, matchRext = accept[s], rext
		}
		if rext >= len(l.I) {
			typ = accept[s]
			s = nullState
		} else {
			typ = accept[s]
			s = nextState[s](l.I[rext])
			if s != nullState || typ == token.Error {
				rext++
			}
		}
	}
	if typ == token.Error && matchTyp != token.Error {
		typ, rext = matchTyp, matchRext
	}
	tok := token.New(typ, i, rext, l.I)
	// fmt.Printf("  %s\n", tok)
	return tok
}

func escape(r rune) string {
	switch r {
	case '"':
		return "\""
	case '\\':
		return "\\\\"
	case '\r':
		return "\\r"
	case '\n':
		return "\\n"
	case '\t':
		return "\\t"
	}
	return string(r)
}

// GetLineColumn returns the line and column of rune[i] in the input
func (l *Lexer) GetLineColumn(i int) (line, col int) {
	line, col = 1, 1
	for j := 0; j < i; j++ {
		switch l.I[j] {
		case '\n':
			line++
			col = 1
		case '\t':
			col += 4
		default:
			col++
		}
	}
	return
}

// GetLineColumnOfToken returns the line and column of token[i] in the imput
func (l *Lexer) GetLineColumnOfToken(i int) (line, col int) {
	return l.GetLineColumn(l.Tokens[i].Lext())
}

// GetString returns the input string from the left extent of Token[lext] to
// the right extent of Token[rext]
func (l *Lexer) GetString(lext, rext int) string {
	return string(l.I[l.Tokens[lext].Lext():l.Tokens[rext].Rext()])
}

func (l *Lexer) add(t token.Type, lext, rext int) {
	l.addToken(token.New(t, lext, rext, l.I))
}

func (l *Lexer) addToken(tok *token.Token) {
	l.Tokens = append(l.Tokens, tok)
}

func any(r rune, set []rune) bool {
	for _, r1 := range set {
		if r == r1 {
			return true
		}
	}
	return false
}

func not(r rune, set []rune) bool {
	for _, r1 := range set {
		if r == r1 {
			return false
		}
	}
	return true
}

var accept = []token.Type{ 
	token.Error, 
	token.T_0, 
	token.Error, 
	token.Error, 
	token.T_2, 
	token.T_3, 
	token.T_4, 
	token.T_5, 
	token.T_6, 
	token.T_7, 
	token.T_8, 
	token.T_9, 
	token.T_10, 
	token.Error, 
	token.T_93, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_107, 
	token.T_108, 
	token.T_109, 
	token.T_101, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_1, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_94, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_104, 
	token.T_96, 
	token.T_96, 
	token.Error, 
	token.T_95, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_100, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_17, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_37, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_42, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_48, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_69, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_82, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_92, 
	token.T_97, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.T_105, 
	token.Error, 
	token.Error, 
	token.T_13, 
	token.T_14, 
	token.T_15, 
	token.T_16, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_30, 
	token.T_31, 
	token.Error, 
	token.Error, 
	token.T_34, 
	token.T_35, 
	token.T_36, 
	token.Error, 
	token.T_39, 
	token.T_40, 
	token.T_41, 
	token.T_43, 
	token.T_44, 
	token.Error, 
	token.T_46, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_60, 
	token.T_61, 
	token.T_62, 
	token.T_63, 
	token.T_64, 
	token.T_65, 
	token.Error, 
	token.T_67, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_74, 
	token.Error, 
	token.T_76, 
	token.T_77, 
	token.Error, 
	token.T_79, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_89, 
	token.T_90, 
	token.T_91, 
	token.T_98, 
	token.T_105, 
	token.T_102, 
	token.T_105, 
	token.T_106, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_99, 
	token.T_103, 
	token.Error, 
	token.Error, 
	token.T_18, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_38, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_21, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_33, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_57, 
	token.Error, 
	token.Error, 
	token.T_68, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_73, 
	token.Error, 
	token.Error, 
	token.T_80, 
	token.Error, 
	token.Error, 
	token.T_84, 
	token.Error, 
	token.T_86, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_24, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_29, 
	token.Error, 
	token.Error, 
	token.T_47, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_81, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_71, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_22, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_20, 
	token.T_23, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_19, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_55, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_27, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_78, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_88, 
	token.Error, 
	token.T_12, 
	token.Error, 
	token.Error, 
	token.T_28, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_53, 
	token.Error, 
	token.Error, 
	token.T_58, 
	token.Error, 
	token.Error, 
	token.T_70, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_11, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_54, 
	token.T_56, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_49, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_52, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_75, 
	token.Error, 
	token.T_85, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_72, 
	token.Error, 
	token.T_87, 
	token.T_25, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_59, 
	token.Error, 
	token.Error, 
	token.T_26, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_83, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_51, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_32, 
	token.T_45, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_66, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.Error, 
	token.T_50, 
}

var nextState = []func(r rune) state{ 
	// Set0
	func(r rune) state {
		switch { 
		case r == '!':
			return 1 
		case r == '"':
			return 2 
		case r == '\'':
			return 3 
		case r == '(':
			return 4 
		case r == ')':
			return 5 
		case r == '-':
			return 6 
		case r == '.':
			return 7 
		case r == ':':
			return 8 
		case r == ';':
			return 9 
		case r == '<':
			return 10 
		case r == '>':
			return 11 
		case r == '[':
			return 12 
		case r == '\\':
			return 13 
		case r == ']':
			return 14 
		case r == 'a':
			return 15 
		case r == 'e':
			return 16 
		case r == 'l':
			return 17 
		case r == 'n':
			return 18 
		case r == 'p':
			return 19 
		case r == 'u':
			return 20 
		case r == '{':
			return 21 
		case r == '|':
			return 22 
		case r == '}':
			return 23 
		case unicode.IsUpper(r):
			return 24 
		case unicode.IsLower(r):
			return 25 
		}
		return nullState
	}, 
	// Set1
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set2
	func(r rune) state {
		switch { 
		case r == '\\':
			return 26 
		case not(r, []rune{'"','\\'}):
			return 27 
		}
		return nullState
	}, 
	// Set3
	func(r rune) state {
		switch { 
		case r == '[':
			return 28 
		case r == '\\':
			return 29 
		case not(r, []rune{'\''}):
			return 30 
		}
		return nullState
	}, 
	// Set4
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set5
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set6
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set7
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set8
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set9
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set10
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set11
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set12
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set13
	func(r rune) state {
		switch { 
		case r == 'p':
			return 31 
		}
		return nullState
	}, 
	// Set14
	func(r rune) state {
		switch { 
		case r == '\'':
			return 32 
		}
		return nullState
	}, 
	// Set15
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'n':
			return 34 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set16
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'm':
			return 35 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set17
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'e':
			return 36 
		case r == 'o':
			return 37 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set18
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'o':
			return 38 
		case r == 'u':
			return 39 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set19
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'a':
			return 40 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set20
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'p':
			return 41 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set21
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set22
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set23
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set24
	func(r rune) state {
		switch { 
		case r == '_':
			return 24 
		case unicode.IsLetter(r):
			return 24 
		case unicode.IsNumber(r):
			return 24 
		}
		return nullState
	}, 
	// Set25
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set26
	func(r rune) state {
		switch { 
		case any(r, []rune{'"','\\','n','r','t'}):
			return 27 
		}
		return nullState
	}, 
	// Set27
	func(r rune) state {
		switch { 
		case r == '"':
			return 42 
		case r == '\\':
			return 26 
		case not(r, []rune{'"','\\'}):
			return 27 
		}
		return nullState
	}, 
	// Set28
	func(r rune) state {
		switch { 
		case r == '\'':
			return 43 
		}
		return nullState
	}, 
	// Set29
	func(r rune) state {
		switch { 
		case r == '\'':
			return 44 
		case any(r, []rune{'\\','n','r','t'}):
			return 30 
		}
		return nullState
	}, 
	// Set30
	func(r rune) state {
		switch { 
		case r == '\'':
			return 43 
		}
		return nullState
	}, 
	// Set31
	func(r rune) state {
		switch { 
		case r == '{':
			return 45 
		}
		return nullState
	}, 
	// Set32
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set33
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set34
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'y':
			return 46 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set35
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'p':
			return 47 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set36
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 't':
			return 48 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set37
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'w':
			return 49 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set38
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 't':
			return 50 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set39
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'm':
			return 51 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set40
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'c':
			return 52 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set41
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'c':
			return 53 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set42
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set43
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set44
	func(r rune) state {
		switch { 
		case r == '\'':
			return 43 
		}
		return nullState
	}, 
	// Set45
	func(r rune) state {
		switch { 
		case r == 'A':
			return 54 
		case r == 'B':
			return 55 
		case r == 'C':
			return 56 
		case r == 'D':
			return 57 
		case r == 'E':
			return 58 
		case r == 'H':
			return 59 
		case r == 'I':
			return 60 
		case r == 'J':
			return 61 
		case r == 'L':
			return 62 
		case r == 'M':
			return 63 
		case r == 'N':
			return 64 
		case r == 'O':
			return 65 
		case r == 'P':
			return 66 
		case r == 'Q':
			return 67 
		case r == 'R':
			return 68 
		case r == 'S':
			return 69 
		case r == 'T':
			return 70 
		case r == 'U':
			return 71 
		case r == 'V':
			return 72 
		case r == 'W':
			return 73 
		case r == 'Z':
			return 74 
		}
		return nullState
	}, 
	// Set46
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set47
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 't':
			return 75 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set48
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 't':
			return 76 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set49
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'c':
			return 77 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set50
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set51
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'b':
			return 78 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set52
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'k':
			return 79 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set53
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'a':
			return 80 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set54
	func(r rune) state {
		switch { 
		case r == 'S':
			return 81 
		}
		return nullState
	}, 
	// Set55
	func(r rune) state {
		switch { 
		case r == 'i':
			return 82 
		}
		return nullState
	}, 
	// Set56
	func(r rune) state {
		switch { 
		case r == 'c':
			return 83 
		case r == 'f':
			return 84 
		case r == 'o':
			return 85 
		case r == 's':
			return 86 
		case r == '}':
			return 87 
		}
		return nullState
	}, 
	// Set57
	func(r rune) state {
		switch { 
		case r == 'a':
			return 88 
		case r == 'e':
			return 89 
		case r == 'i':
			return 90 
		}
		return nullState
	}, 
	// Set58
	func(r rune) state {
		switch { 
		case r == 'x':
			return 91 
		}
		return nullState
	}, 
	// Set59
	func(r rune) state {
		switch { 
		case r == 'e':
			return 92 
		case r == 'y':
			return 93 
		}
		return nullState
	}, 
	// Set60
	func(r rune) state {
		switch { 
		case r == 'D':
			return 94 
		case r == 'd':
			return 95 
		}
		return nullState
	}, 
	// Set61
	func(r rune) state {
		switch { 
		case r == 'o':
			return 96 
		}
		return nullState
	}, 
	// Set62
	func(r rune) state {
		switch { 
		case r == 'e':
			return 97 
		case r == 'l':
			return 98 
		case r == 'm':
			return 99 
		case r == 'o':
			return 100 
		case r == 't':
			return 101 
		case r == 'u':
			return 102 
		case r == '}':
			return 103 
		}
		return nullState
	}, 
	// Set63
	func(r rune) state {
		switch { 
		case r == 'a':
			return 104 
		case r == 'c':
			return 105 
		case r == 'e':
			return 106 
		case r == 'n':
			return 107 
		case r == '}':
			return 108 
		}
		return nullState
	}, 
	// Set64
	func(r rune) state {
		switch { 
		case r == 'd':
			return 109 
		case r == 'l':
			return 110 
		case r == 'o':
			return 111 
		case r == 'u':
			return 112 
		case r == '}':
			return 113 
		}
		return nullState
	}, 
	// Set65
	func(r rune) state {
		switch { 
		case r == 't':
			return 114 
		}
		return nullState
	}, 
	// Set66
	func(r rune) state {
		switch { 
		case r == 'a':
			return 115 
		case r == 'c':
			return 116 
		case r == 'd':
			return 117 
		case r == 'e':
			return 118 
		case r == 'f':
			return 119 
		case r == 'i':
			return 120 
		case r == 'o':
			return 121 
		case r == 'r':
			return 122 
		case r == 's':
			return 123 
		case r == 'u':
			return 124 
		case r == '}':
			return 125 
		}
		return nullState
	}, 
	// Set67
	func(r rune) state {
		switch { 
		case r == 'u':
			return 126 
		}
		return nullState
	}, 
	// Set68
	func(r rune) state {
		switch { 
		case r == 'a':
			return 127 
		case r == 'e':
			return 128 
		}
		return nullState
	}, 
	// Set69
	func(r rune) state {
		switch { 
		case r == 'T':
			return 129 
		case r == 'c':
			return 130 
		case r == 'e':
			return 131 
		case r == 'k':
			return 132 
		case r == 'm':
			return 133 
		case r == 'o':
			return 134 
		case r == 'p':
			return 135 
		case r == 'y':
			return 136 
		case r == '}':
			return 137 
		}
		return nullState
	}, 
	// Set70
	func(r rune) state {
		switch { 
		case r == 'e':
			return 138 
		case r == 'i':
			return 139 
		}
		return nullState
	}, 
	// Set71
	func(r rune) state {
		switch { 
		case r == 'n':
			return 140 
		case r == 'p':
			return 141 
		}
		return nullState
	}, 
	// Set72
	func(r rune) state {
		switch { 
		case r == 'a':
			return 142 
		}
		return nullState
	}, 
	// Set73
	func(r rune) state {
		switch { 
		case r == 'h':
			return 143 
		}
		return nullState
	}, 
	// Set74
	func(r rune) state {
		switch { 
		case r == 'l':
			return 144 
		case r == 'p':
			return 145 
		case r == 's':
			return 146 
		case r == '}':
			return 147 
		}
		return nullState
	}, 
	// Set75
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'y':
			return 148 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set76
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'e':
			return 149 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set77
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'a':
			return 150 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set78
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'e':
			return 151 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set79
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'a':
			return 152 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set80
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 's':
			return 153 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set81
	func(r rune) state {
		switch { 
		case r == 'C':
			return 154 
		}
		return nullState
	}, 
	// Set82
	func(r rune) state {
		switch { 
		case r == 'd':
			return 155 
		}
		return nullState
	}, 
	// Set83
	func(r rune) state {
		switch { 
		case r == '}':
			return 156 
		}
		return nullState
	}, 
	// Set84
	func(r rune) state {
		switch { 
		case r == '}':
			return 157 
		}
		return nullState
	}, 
	// Set85
	func(r rune) state {
		switch { 
		case r == '}':
			return 158 
		}
		return nullState
	}, 
	// Set86
	func(r rune) state {
		switch { 
		case r == '}':
			return 159 
		}
		return nullState
	}, 
	// Set87
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set88
	func(r rune) state {
		switch { 
		case r == 's':
			return 160 
		}
		return nullState
	}, 
	// Set89
	func(r rune) state {
		switch { 
		case r == 'p':
			return 161 
		}
		return nullState
	}, 
	// Set90
	func(r rune) state {
		switch { 
		case r == 'a':
			return 162 
		case r == 'g':
			return 163 
		}
		return nullState
	}, 
	// Set91
	func(r rune) state {
		switch { 
		case r == 't':
			return 164 
		}
		return nullState
	}, 
	// Set92
	func(r rune) state {
		switch { 
		case r == 'x':
			return 165 
		}
		return nullState
	}, 
	// Set93
	func(r rune) state {
		switch { 
		case r == 'p':
			return 166 
		}
		return nullState
	}, 
	// Set94
	func(r rune) state {
		switch { 
		case r == 'S':
			return 167 
		}
		return nullState
	}, 
	// Set95
	func(r rune) state {
		switch { 
		case r == 'e':
			return 168 
		}
		return nullState
	}, 
	// Set96
	func(r rune) state {
		switch { 
		case r == 'i':
			return 169 
		}
		return nullState
	}, 
	// Set97
	func(r rune) state {
		switch { 
		case r == 't':
			return 170 
		}
		return nullState
	}, 
	// Set98
	func(r rune) state {
		switch { 
		case r == '}':
			return 171 
		}
		return nullState
	}, 
	// Set99
	func(r rune) state {
		switch { 
		case r == '}':
			return 172 
		}
		return nullState
	}, 
	// Set100
	func(r rune) state {
		switch { 
		case r == 'g':
			return 173 
		case r == 'w':
			return 174 
		case r == '}':
			return 175 
		}
		return nullState
	}, 
	// Set101
	func(r rune) state {
		switch { 
		case r == '}':
			return 176 
		}
		return nullState
	}, 
	// Set102
	func(r rune) state {
		switch { 
		case r == '}':
			return 177 
		}
		return nullState
	}, 
	// Set103
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set104
	func(r rune) state {
		switch { 
		case r == 'r':
			return 178 
		}
		return nullState
	}, 
	// Set105
	func(r rune) state {
		switch { 
		case r == '}':
			return 179 
		}
		return nullState
	}, 
	// Set106
	func(r rune) state {
		switch { 
		case r == '}':
			return 180 
		}
		return nullState
	}, 
	// Set107
	func(r rune) state {
		switch { 
		case r == '}':
			return 181 
		}
		return nullState
	}, 
	// Set108
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set109
	func(r rune) state {
		switch { 
		case r == '}':
			return 182 
		}
		return nullState
	}, 
	// Set110
	func(r rune) state {
		switch { 
		case r == '}':
			return 183 
		}
		return nullState
	}, 
	// Set111
	func(r rune) state {
		switch { 
		case r == 'n':
			return 184 
		case r == '}':
			return 185 
		}
		return nullState
	}, 
	// Set112
	func(r rune) state {
		switch { 
		case r == 'm':
			return 186 
		}
		return nullState
	}, 
	// Set113
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set114
	func(r rune) state {
		switch { 
		case r == 'h':
			return 187 
		}
		return nullState
	}, 
	// Set115
	func(r rune) state {
		switch { 
		case r == 't':
			return 188 
		}
		return nullState
	}, 
	// Set116
	func(r rune) state {
		switch { 
		case r == '}':
			return 189 
		}
		return nullState
	}, 
	// Set117
	func(r rune) state {
		switch { 
		case r == '}':
			return 190 
		}
		return nullState
	}, 
	// Set118
	func(r rune) state {
		switch { 
		case r == '}':
			return 191 
		}
		return nullState
	}, 
	// Set119
	func(r rune) state {
		switch { 
		case r == '}':
			return 192 
		}
		return nullState
	}, 
	// Set120
	func(r rune) state {
		switch { 
		case r == '}':
			return 193 
		}
		return nullState
	}, 
	// Set121
	func(r rune) state {
		switch { 
		case r == '}':
			return 194 
		}
		return nullState
	}, 
	// Set122
	func(r rune) state {
		switch { 
		case r == 'e':
			return 195 
		}
		return nullState
	}, 
	// Set123
	func(r rune) state {
		switch { 
		case r == '}':
			return 196 
		}
		return nullState
	}, 
	// Set124
	func(r rune) state {
		switch { 
		case r == 'n':
			return 197 
		}
		return nullState
	}, 
	// Set125
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set126
	func(r rune) state {
		switch { 
		case r == 'o':
			return 198 
		}
		return nullState
	}, 
	// Set127
	func(r rune) state {
		switch { 
		case r == 'd':
			return 199 
		}
		return nullState
	}, 
	// Set128
	func(r rune) state {
		switch { 
		case r == 'g':
			return 200 
		}
		return nullState
	}, 
	// Set129
	func(r rune) state {
		switch { 
		case r == 'e':
			return 201 
		}
		return nullState
	}, 
	// Set130
	func(r rune) state {
		switch { 
		case r == '}':
			return 202 
		}
		return nullState
	}, 
	// Set131
	func(r rune) state {
		switch { 
		case r == 'n':
			return 203 
		}
		return nullState
	}, 
	// Set132
	func(r rune) state {
		switch { 
		case r == '}':
			return 204 
		}
		return nullState
	}, 
	// Set133
	func(r rune) state {
		switch { 
		case r == '}':
			return 205 
		}
		return nullState
	}, 
	// Set134
	func(r rune) state {
		switch { 
		case r == 'f':
			return 206 
		case r == '}':
			return 207 
		}
		return nullState
	}, 
	// Set135
	func(r rune) state {
		switch { 
		case r == 'a':
			return 208 
		}
		return nullState
	}, 
	// Set136
	func(r rune) state {
		switch { 
		case r == 'm':
			return 209 
		}
		return nullState
	}, 
	// Set137
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set138
	func(r rune) state {
		switch { 
		case r == 'r':
			return 210 
		}
		return nullState
	}, 
	// Set139
	func(r rune) state {
		switch { 
		case r == 't':
			return 211 
		}
		return nullState
	}, 
	// Set140
	func(r rune) state {
		switch { 
		case r == 'i':
			return 212 
		}
		return nullState
	}, 
	// Set141
	func(r rune) state {
		switch { 
		case r == 'p':
			return 213 
		}
		return nullState
	}, 
	// Set142
	func(r rune) state {
		switch { 
		case r == 'r':
			return 214 
		}
		return nullState
	}, 
	// Set143
	func(r rune) state {
		switch { 
		case r == 'i':
			return 215 
		}
		return nullState
	}, 
	// Set144
	func(r rune) state {
		switch { 
		case r == '}':
			return 216 
		}
		return nullState
	}, 
	// Set145
	func(r rune) state {
		switch { 
		case r == '}':
			return 217 
		}
		return nullState
	}, 
	// Set146
	func(r rune) state {
		switch { 
		case r == '}':
			return 218 
		}
		return nullState
	}, 
	// Set147
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set148
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set149
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'r':
			return 219 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set150
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 's':
			return 220 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set151
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'r':
			return 221 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set152
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'g':
			return 222 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set153
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'e':
			return 223 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set154
	func(r rune) state {
		switch { 
		case r == 'I':
			return 224 
		}
		return nullState
	}, 
	// Set155
	func(r rune) state {
		switch { 
		case r == 'i':
			return 225 
		}
		return nullState
	}, 
	// Set156
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set157
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set158
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set159
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set160
	func(r rune) state {
		switch { 
		case r == 'h':
			return 226 
		}
		return nullState
	}, 
	// Set161
	func(r rune) state {
		switch { 
		case r == 'r':
			return 227 
		}
		return nullState
	}, 
	// Set162
	func(r rune) state {
		switch { 
		case r == 'c':
			return 228 
		}
		return nullState
	}, 
	// Set163
	func(r rune) state {
		switch { 
		case r == 'i':
			return 229 
		}
		return nullState
	}, 
	// Set164
	func(r rune) state {
		switch { 
		case r == 'e':
			return 230 
		}
		return nullState
	}, 
	// Set165
	func(r rune) state {
		switch { 
		case r == '_':
			return 231 
		}
		return nullState
	}, 
	// Set166
	func(r rune) state {
		switch { 
		case r == 'h':
			return 232 
		}
		return nullState
	}, 
	// Set167
	func(r rune) state {
		switch { 
		case r == '_':
			return 233 
		}
		return nullState
	}, 
	// Set168
	func(r rune) state {
		switch { 
		case r == 'o':
			return 234 
		}
		return nullState
	}, 
	// Set169
	func(r rune) state {
		switch { 
		case r == 'n':
			return 235 
		}
		return nullState
	}, 
	// Set170
	func(r rune) state {
		switch { 
		case r == 't':
			return 236 
		}
		return nullState
	}, 
	// Set171
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set172
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set173
	func(r rune) state {
		switch { 
		case r == 'i':
			return 237 
		}
		return nullState
	}, 
	// Set174
	func(r rune) state {
		switch { 
		case r == 'e':
			return 238 
		}
		return nullState
	}, 
	// Set175
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set176
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set177
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set178
	func(r rune) state {
		switch { 
		case r == 'k':
			return 239 
		}
		return nullState
	}, 
	// Set179
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set180
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set181
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set182
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set183
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set184
	func(r rune) state {
		switch { 
		case r == 'c':
			return 240 
		}
		return nullState
	}, 
	// Set185
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set186
	func(r rune) state {
		switch { 
		case r == 'b':
			return 241 
		}
		return nullState
	}, 
	// Set187
	func(r rune) state {
		switch { 
		case r == 'e':
			return 242 
		}
		return nullState
	}, 
	// Set188
	func(r rune) state {
		switch { 
		case r == 't':
			return 243 
		}
		return nullState
	}, 
	// Set189
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set190
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set191
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set192
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set193
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set194
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set195
	func(r rune) state {
		switch { 
		case r == 'p':
			return 244 
		}
		return nullState
	}, 
	// Set196
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set197
	func(r rune) state {
		switch { 
		case r == 'c':
			return 245 
		}
		return nullState
	}, 
	// Set198
	func(r rune) state {
		switch { 
		case r == 't':
			return 246 
		}
		return nullState
	}, 
	// Set199
	func(r rune) state {
		switch { 
		case r == 'i':
			return 247 
		}
		return nullState
	}, 
	// Set200
	func(r rune) state {
		switch { 
		case r == 'i':
			return 248 
		}
		return nullState
	}, 
	// Set201
	func(r rune) state {
		switch { 
		case r == 'r':
			return 249 
		}
		return nullState
	}, 
	// Set202
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set203
	func(r rune) state {
		switch { 
		case r == 't':
			return 250 
		}
		return nullState
	}, 
	// Set204
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set205
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set206
	func(r rune) state {
		switch { 
		case r == 't':
			return 251 
		}
		return nullState
	}, 
	// Set207
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set208
	func(r rune) state {
		switch { 
		case r == 'c':
			return 252 
		}
		return nullState
	}, 
	// Set209
	func(r rune) state {
		switch { 
		case r == 'b':
			return 253 
		}
		return nullState
	}, 
	// Set210
	func(r rune) state {
		switch { 
		case r == 'm':
			return 254 
		}
		return nullState
	}, 
	// Set211
	func(r rune) state {
		switch { 
		case r == 'l':
			return 255 
		}
		return nullState
	}, 
	// Set212
	func(r rune) state {
		switch { 
		case r == 'f':
			return 256 
		}
		return nullState
	}, 
	// Set213
	func(r rune) state {
		switch { 
		case r == 'e':
			return 257 
		}
		return nullState
	}, 
	// Set214
	func(r rune) state {
		switch { 
		case r == 'i':
			return 258 
		}
		return nullState
	}, 
	// Set215
	func(r rune) state {
		switch { 
		case r == 't':
			return 259 
		}
		return nullState
	}, 
	// Set216
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set217
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set218
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set219
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set220
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'e':
			return 260 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set221
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set222
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case r == 'e':
			return 261 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set223
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set224
	func(r rune) state {
		switch { 
		case r == 'I':
			return 262 
		}
		return nullState
	}, 
	// Set225
	func(r rune) state {
		switch { 
		case r == '_':
			return 263 
		}
		return nullState
	}, 
	// Set226
	func(r rune) state {
		switch { 
		case r == '}':
			return 264 
		}
		return nullState
	}, 
	// Set227
	func(r rune) state {
		switch { 
		case r == 'e':
			return 265 
		}
		return nullState
	}, 
	// Set228
	func(r rune) state {
		switch { 
		case r == 'r':
			return 266 
		}
		return nullState
	}, 
	// Set229
	func(r rune) state {
		switch { 
		case r == 't':
			return 267 
		}
		return nullState
	}, 
	// Set230
	func(r rune) state {
		switch { 
		case r == 'n':
			return 268 
		}
		return nullState
	}, 
	// Set231
	func(r rune) state {
		switch { 
		case r == 'D':
			return 269 
		}
		return nullState
	}, 
	// Set232
	func(r rune) state {
		switch { 
		case r == 'e':
			return 270 
		}
		return nullState
	}, 
	// Set233
	func(r rune) state {
		switch { 
		case r == 'B':
			return 271 
		case r == 'T':
			return 272 
		}
		return nullState
	}, 
	// Set234
	func(r rune) state {
		switch { 
		case r == 'g':
			return 273 
		}
		return nullState
	}, 
	// Set235
	func(r rune) state {
		switch { 
		case r == '_':
			return 274 
		}
		return nullState
	}, 
	// Set236
	func(r rune) state {
		switch { 
		case r == 'e':
			return 275 
		}
		return nullState
	}, 
	// Set237
	func(r rune) state {
		switch { 
		case r == 'c':
			return 276 
		}
		return nullState
	}, 
	// Set238
	func(r rune) state {
		switch { 
		case r == 'r':
			return 277 
		}
		return nullState
	}, 
	// Set239
	func(r rune) state {
		switch { 
		case r == '}':
			return 278 
		}
		return nullState
	}, 
	// Set240
	func(r rune) state {
		switch { 
		case r == 'h':
			return 279 
		}
		return nullState
	}, 
	// Set241
	func(r rune) state {
		switch { 
		case r == 'e':
			return 280 
		}
		return nullState
	}, 
	// Set242
	func(r rune) state {
		switch { 
		case r == 'r':
			return 281 
		}
		return nullState
	}, 
	// Set243
	func(r rune) state {
		switch { 
		case r == 'e':
			return 282 
		}
		return nullState
	}, 
	// Set244
	func(r rune) state {
		switch { 
		case r == 'e':
			return 283 
		}
		return nullState
	}, 
	// Set245
	func(r rune) state {
		switch { 
		case r == 't':
			return 284 
		}
		return nullState
	}, 
	// Set246
	func(r rune) state {
		switch { 
		case r == 'a':
			return 285 
		}
		return nullState
	}, 
	// Set247
	func(r rune) state {
		switch { 
		case r == 'c':
			return 286 
		}
		return nullState
	}, 
	// Set248
	func(r rune) state {
		switch { 
		case r == 'o':
			return 287 
		}
		return nullState
	}, 
	// Set249
	func(r rune) state {
		switch { 
		case r == 'm':
			return 288 
		}
		return nullState
	}, 
	// Set250
	func(r rune) state {
		switch { 
		case r == 'e':
			return 289 
		}
		return nullState
	}, 
	// Set251
	func(r rune) state {
		switch { 
		case r == '_':
			return 290 
		}
		return nullState
	}, 
	// Set252
	func(r rune) state {
		switch { 
		case r == 'e':
			return 291 
		}
		return nullState
	}, 
	// Set253
	func(r rune) state {
		switch { 
		case r == 'o':
			return 292 
		}
		return nullState
	}, 
	// Set254
	func(r rune) state {
		switch { 
		case r == 'i':
			return 293 
		}
		return nullState
	}, 
	// Set255
	func(r rune) state {
		switch { 
		case r == 'e':
			return 294 
		}
		return nullState
	}, 
	// Set256
	func(r rune) state {
		switch { 
		case r == 'i':
			return 295 
		}
		return nullState
	}, 
	// Set257
	func(r rune) state {
		switch { 
		case r == 'r':
			return 296 
		}
		return nullState
	}, 
	// Set258
	func(r rune) state {
		switch { 
		case r == 'a':
			return 297 
		}
		return nullState
	}, 
	// Set259
	func(r rune) state {
		switch { 
		case r == 'e':
			return 298 
		}
		return nullState
	}, 
	// Set260
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set261
	func(r rune) state {
		switch { 
		case r == '_':
			return 33 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
		}
		return nullState
	}, 
	// Set262
	func(r rune) state {
		switch { 
		case r == '_':
			return 299 
		}
		return nullState
	}, 
	// Set263
	func(r rune) state {
		switch { 
		case r == 'C':
			return 300 
		}
		return nullState
	}, 
	// Set264
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set265
	func(r rune) state {
		switch { 
		case r == 'c':
			return 301 
		}
		return nullState
	}, 
	// Set266
	func(r rune) state {
		switch { 
		case r == 'i':
			return 302 
		}
		return nullState
	}, 
	// Set267
	func(r rune) state {
		switch { 
		case r == '}':
			return 303 
		}
		return nullState
	}, 
	// Set268
	func(r rune) state {
		switch { 
		case r == 'd':
			return 304 
		}
		return nullState
	}, 
	// Set269
	func(r rune) state {
		switch { 
		case r == 'i':
			return 305 
		}
		return nullState
	}, 
	// Set270
	func(r rune) state {
		switch { 
		case r == 'n':
			return 306 
		}
		return nullState
	}, 
	// Set271
	func(r rune) state {
		switch { 
		case r == 'i':
			return 307 
		}
		return nullState
	}, 
	// Set272
	func(r rune) state {
		switch { 
		case r == 'r':
			return 308 
		}
		return nullState
	}, 
	// Set273
	func(r rune) state {
		switch { 
		case r == 'r':
			return 309 
		}
		return nullState
	}, 
	// Set274
	func(r rune) state {
		switch { 
		case r == 'C':
			return 310 
		}
		return nullState
	}, 
	// Set275
	func(r rune) state {
		switch { 
		case r == 'r':
			return 311 
		}
		return nullState
	}, 
	// Set276
	func(r rune) state {
		switch { 
		case r == 'a':
			return 312 
		}
		return nullState
	}, 
	// Set277
	func(r rune) state {
		switch { 
		case r == '}':
			return 313 
		}
		return nullState
	}, 
	// Set278
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set279
	func(r rune) state {
		switch { 
		case r == 'a':
			return 314 
		}
		return nullState
	}, 
	// Set280
	func(r rune) state {
		switch { 
		case r == 'r':
			return 315 
		}
		return nullState
	}, 
	// Set281
	func(r rune) state {
		switch { 
		case r == '_':
			return 316 
		case r == '}':
			return 317 
		}
		return nullState
	}, 
	// Set282
	func(r rune) state {
		switch { 
		case r == 'r':
			return 318 
		}
		return nullState
	}, 
	// Set283
	func(r rune) state {
		switch { 
		case r == 'n':
			return 319 
		}
		return nullState
	}, 
	// Set284
	func(r rune) state {
		switch { 
		case r == '}':
			return 320 
		}
		return nullState
	}, 
	// Set285
	func(r rune) state {
		switch { 
		case r == 't':
			return 321 
		}
		return nullState
	}, 
	// Set286
	func(r rune) state {
		switch { 
		case r == 'a':
			return 322 
		}
		return nullState
	}, 
	// Set287
	func(r rune) state {
		switch { 
		case r == 'n':
			return 323 
		}
		return nullState
	}, 
	// Set288
	func(r rune) state {
		switch { 
		case r == '}':
			return 324 
		}
		return nullState
	}, 
	// Set289
	func(r rune) state {
		switch { 
		case r == 'n':
			return 325 
		}
		return nullState
	}, 
	// Set290
	func(r rune) state {
		switch { 
		case r == 'D':
			return 326 
		}
		return nullState
	}, 
	// Set291
	func(r rune) state {
		switch { 
		case r == '}':
			return 327 
		}
		return nullState
	}, 
	// Set292
	func(r rune) state {
		switch { 
		case r == 'l':
			return 328 
		}
		return nullState
	}, 
	// Set293
	func(r rune) state {
		switch { 
		case r == 'n':
			return 329 
		}
		return nullState
	}, 
	// Set294
	func(r rune) state {
		switch { 
		case r == '}':
			return 330 
		}
		return nullState
	}, 
	// Set295
	func(r rune) state {
		switch { 
		case r == 'e':
			return 331 
		}
		return nullState
	}, 
	// Set296
	func(r rune) state {
		switch { 
		case r == '}':
			return 332 
		}
		return nullState
	}, 
	// Set297
	func(r rune) state {
		switch { 
		case r == 't':
			return 333 
		}
		return nullState
	}, 
	// Set298
	func(r rune) state {
		switch { 
		case r == '_':
			return 334 
		}
		return nullState
	}, 
	// Set299
	func(r rune) state {
		switch { 
		case r == 'H':
			return 335 
		}
		return nullState
	}, 
	// Set300
	func(r rune) state {
		switch { 
		case r == 'o':
			return 336 
		}
		return nullState
	}, 
	// Set301
	func(r rune) state {
		switch { 
		case r == 'a':
			return 337 
		}
		return nullState
	}, 
	// Set302
	func(r rune) state {
		switch { 
		case r == 't':
			return 338 
		}
		return nullState
	}, 
	// Set303
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set304
	func(r rune) state {
		switch { 
		case r == 'e':
			return 339 
		}
		return nullState
	}, 
	// Set305
	func(r rune) state {
		switch { 
		case r == 'g':
			return 340 
		}
		return nullState
	}, 
	// Set306
	func(r rune) state {
		switch { 
		case r == '}':
			return 341 
		}
		return nullState
	}, 
	// Set307
	func(r rune) state {
		switch { 
		case r == 'n':
			return 342 
		}
		return nullState
	}, 
	// Set308
	func(r rune) state {
		switch { 
		case r == 'i':
			return 343 
		}
		return nullState
	}, 
	// Set309
	func(r rune) state {
		switch { 
		case r == 'a':
			return 344 
		}
		return nullState
	}, 
	// Set310
	func(r rune) state {
		switch { 
		case r == 'o':
			return 345 
		}
		return nullState
	}, 
	// Set311
	func(r rune) state {
		switch { 
		case r == '}':
			return 346 
		}
		return nullState
	}, 
	// Set312
	func(r rune) state {
		switch { 
		case r == 'l':
			return 347 
		}
		return nullState
	}, 
	// Set313
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set314
	func(r rune) state {
		switch { 
		case r == 'r':
			return 348 
		}
		return nullState
	}, 
	// Set315
	func(r rune) state {
		switch { 
		case r == '}':
			return 349 
		}
		return nullState
	}, 
	// Set316
	func(r rune) state {
		switch { 
		case r == 'A':
			return 350 
		case r == 'D':
			return 351 
		case r == 'G':
			return 352 
		case r == 'I':
			return 353 
		case r == 'L':
			return 354 
		case r == 'M':
			return 355 
		case r == 'U':
			return 356 
		}
		return nullState
	}, 
	// Set317
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set318
	func(r rune) state {
		switch { 
		case r == 'n':
			return 357 
		}
		return nullState
	}, 
	// Set319
	func(r rune) state {
		switch { 
		case r == 'd':
			return 358 
		}
		return nullState
	}, 
	// Set320
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set321
	func(r rune) state {
		switch { 
		case r == 'i':
			return 359 
		}
		return nullState
	}, 
	// Set322
	func(r rune) state {
		switch { 
		case r == 'l':
			return 360 
		}
		return nullState
	}, 
	// Set323
	func(r rune) state {
		switch { 
		case r == 'a':
			return 361 
		}
		return nullState
	}, 
	// Set324
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set325
	func(r rune) state {
		switch { 
		case r == 'c':
			return 362 
		}
		return nullState
	}, 
	// Set326
	func(r rune) state {
		switch { 
		case r == 'o':
			return 363 
		}
		return nullState
	}, 
	// Set327
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set328
	func(r rune) state {
		switch { 
		case r == '}':
			return 364 
		}
		return nullState
	}, 
	// Set329
	func(r rune) state {
		switch { 
		case r == 'a':
			return 365 
		}
		return nullState
	}, 
	// Set330
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set331
	func(r rune) state {
		switch { 
		case r == 'd':
			return 366 
		}
		return nullState
	}, 
	// Set332
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set333
	func(r rune) state {
		switch { 
		case r == 'i':
			return 367 
		}
		return nullState
	}, 
	// Set334
	func(r rune) state {
		switch { 
		case r == 'S':
			return 368 
		}
		return nullState
	}, 
	// Set335
	func(r rune) state {
		switch { 
		case r == 'e':
			return 369 
		}
		return nullState
	}, 
	// Set336
	func(r rune) state {
		switch { 
		case r == 'n':
			return 370 
		}
		return nullState
	}, 
	// Set337
	func(r rune) state {
		switch { 
		case r == 't':
			return 371 
		}
		return nullState
	}, 
	// Set338
	func(r rune) state {
		switch { 
		case r == 'i':
			return 372 
		}
		return nullState
	}, 
	// Set339
	func(r rune) state {
		switch { 
		case r == 'r':
			return 373 
		}
		return nullState
	}, 
	// Set340
	func(r rune) state {
		switch { 
		case r == 'i':
			return 374 
		}
		return nullState
	}, 
	// Set341
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set342
	func(r rune) state {
		switch { 
		case r == 'a':
			return 375 
		}
		return nullState
	}, 
	// Set343
	func(r rune) state {
		switch { 
		case r == 'n':
			return 376 
		}
		return nullState
	}, 
	// Set344
	func(r rune) state {
		switch { 
		case r == 'p':
			return 377 
		}
		return nullState
	}, 
	// Set345
	func(r rune) state {
		switch { 
		case r == 'n':
			return 378 
		}
		return nullState
	}, 
	// Set346
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set347
	func(r rune) state {
		switch { 
		case r == '_':
			return 379 
		}
		return nullState
	}, 
	// Set348
	func(r rune) state {
		switch { 
		case r == 'a':
			return 380 
		}
		return nullState
	}, 
	// Set349
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set350
	func(r rune) state {
		switch { 
		case r == 'l':
			return 381 
		}
		return nullState
	}, 
	// Set351
	func(r rune) state {
		switch { 
		case r == 'e':
			return 382 
		}
		return nullState
	}, 
	// Set352
	func(r rune) state {
		switch { 
		case r == 'r':
			return 383 
		}
		return nullState
	}, 
	// Set353
	func(r rune) state {
		switch { 
		case r == 'D':
			return 384 
		}
		return nullState
	}, 
	// Set354
	func(r rune) state {
		switch { 
		case r == 'o':
			return 385 
		}
		return nullState
	}, 
	// Set355
	func(r rune) state {
		switch { 
		case r == 'a':
			return 386 
		}
		return nullState
	}, 
	// Set356
	func(r rune) state {
		switch { 
		case r == 'p':
			return 387 
		}
		return nullState
	}, 
	// Set357
	func(r rune) state {
		switch { 
		case r == '_':
			return 388 
		}
		return nullState
	}, 
	// Set358
	func(r rune) state {
		switch { 
		case r == 'e':
			return 389 
		}
		return nullState
	}, 
	// Set359
	func(r rune) state {
		switch { 
		case r == 'o':
			return 390 
		}
		return nullState
	}, 
	// Set360
	func(r rune) state {
		switch { 
		case r == '}':
			return 391 
		}
		return nullState
	}, 
	// Set361
	func(r rune) state {
		switch { 
		case r == 'l':
			return 392 
		}
		return nullState
	}, 
	// Set362
	func(r rune) state {
		switch { 
		case r == 'e':
			return 393 
		}
		return nullState
	}, 
	// Set363
	func(r rune) state {
		switch { 
		case r == 't':
			return 394 
		}
		return nullState
	}, 
	// Set364
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set365
	func(r rune) state {
		switch { 
		case r == 'l':
			return 395 
		}
		return nullState
	}, 
	// Set366
	func(r rune) state {
		switch { 
		case r == '_':
			return 396 
		}
		return nullState
	}, 
	// Set367
	func(r rune) state {
		switch { 
		case r == 'o':
			return 397 
		}
		return nullState
	}, 
	// Set368
	func(r rune) state {
		switch { 
		case r == 'p':
			return 398 
		}
		return nullState
	}, 
	// Set369
	func(r rune) state {
		switch { 
		case r == 'x':
			return 399 
		}
		return nullState
	}, 
	// Set370
	func(r rune) state {
		switch { 
		case r == 't':
			return 400 
		}
		return nullState
	}, 
	// Set371
	func(r rune) state {
		switch { 
		case r == 'e':
			return 401 
		}
		return nullState
	}, 
	// Set372
	func(r rune) state {
		switch { 
		case r == 'c':
			return 402 
		}
		return nullState
	}, 
	// Set373
	func(r rune) state {
		switch { 
		case r == '}':
			return 403 
		}
		return nullState
	}, 
	// Set374
	func(r rune) state {
		switch { 
		case r == 't':
			return 404 
		}
		return nullState
	}, 
	// Set375
	func(r rune) state {
		switch { 
		case r == 'r':
			return 405 
		}
		return nullState
	}, 
	// Set376
	func(r rune) state {
		switch { 
		case r == 'a':
			return 406 
		}
		return nullState
	}, 
	// Set377
	func(r rune) state {
		switch { 
		case r == 'h':
			return 407 
		}
		return nullState
	}, 
	// Set378
	func(r rune) state {
		switch { 
		case r == 't':
			return 408 
		}
		return nullState
	}, 
	// Set379
	func(r rune) state {
		switch { 
		case r == 'O':
			return 409 
		}
		return nullState
	}, 
	// Set380
	func(r rune) state {
		switch { 
		case r == 'c':
			return 410 
		}
		return nullState
	}, 
	// Set381
	func(r rune) state {
		switch { 
		case r == 'p':
			return 411 
		}
		return nullState
	}, 
	// Set382
	func(r rune) state {
		switch { 
		case r == 'f':
			return 412 
		}
		return nullState
	}, 
	// Set383
	func(r rune) state {
		switch { 
		case r == 'a':
			return 413 
		}
		return nullState
	}, 
	// Set384
	func(r rune) state {
		switch { 
		case r == '_':
			return 414 
		}
		return nullState
	}, 
	// Set385
	func(r rune) state {
		switch { 
		case r == 'w':
			return 415 
		}
		return nullState
	}, 
	// Set386
	func(r rune) state {
		switch { 
		case r == 't':
			return 416 
		}
		return nullState
	}, 
	// Set387
	func(r rune) state {
		switch { 
		case r == 'p':
			return 417 
		}
		return nullState
	}, 
	// Set388
	func(r rune) state {
		switch { 
		case r == 'S':
			return 418 
		case r == 'W':
			return 419 
		}
		return nullState
	}, 
	// Set389
	func(r rune) state {
		switch { 
		case r == 'd':
			return 420 
		}
		return nullState
	}, 
	// Set390
	func(r rune) state {
		switch { 
		case r == 'n':
			return 421 
		}
		return nullState
	}, 
	// Set391
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set392
	func(r rune) state {
		switch { 
		case r == '_':
			return 422 
		}
		return nullState
	}, 
	// Set393
	func(r rune) state {
		switch { 
		case r == '_':
			return 423 
		}
		return nullState
	}, 
	// Set394
	func(r rune) state {
		switch { 
		case r == 't':
			return 424 
		}
		return nullState
	}, 
	// Set395
	func(r rune) state {
		switch { 
		case r == '_':
			return 425 
		}
		return nullState
	}, 
	// Set396
	func(r rune) state {
		switch { 
		case r == 'I':
			return 426 
		}
		return nullState
	}, 
	// Set397
	func(r rune) state {
		switch { 
		case r == 'n':
			return 427 
		}
		return nullState
	}, 
	// Set398
	func(r rune) state {
		switch { 
		case r == 'a':
			return 428 
		}
		return nullState
	}, 
	// Set399
	func(r rune) state {
		switch { 
		case r == '_':
			return 429 
		}
		return nullState
	}, 
	// Set400
	func(r rune) state {
		switch { 
		case r == 'r':
			return 430 
		}
		return nullState
	}, 
	// Set401
	func(r rune) state {
		switch { 
		case r == 'd':
			return 431 
		}
		return nullState
	}, 
	// Set402
	func(r rune) state {
		switch { 
		case r == '}':
			return 432 
		}
		return nullState
	}, 
	// Set403
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set404
	func(r rune) state {
		switch { 
		case r == '}':
			return 433 
		}
		return nullState
	}, 
	// Set405
	func(r rune) state {
		switch { 
		case r == 'y':
			return 434 
		}
		return nullState
	}, 
	// Set406
	func(r rune) state {
		switch { 
		case r == 'r':
			return 435 
		}
		return nullState
	}, 
	// Set407
	func(r rune) state {
		switch { 
		case r == 'i':
			return 436 
		}
		return nullState
	}, 
	// Set408
	func(r rune) state {
		switch { 
		case r == 'r':
			return 437 
		}
		return nullState
	}, 
	// Set409
	func(r rune) state {
		switch { 
		case r == 'r':
			return 438 
		}
		return nullState
	}, 
	// Set410
	func(r rune) state {
		switch { 
		case r == 't':
			return 439 
		}
		return nullState
	}, 
	// Set411
	func(r rune) state {
		switch { 
		case r == 'h':
			return 440 
		}
		return nullState
	}, 
	// Set412
	func(r rune) state {
		switch { 
		case r == 'a':
			return 441 
		}
		return nullState
	}, 
	// Set413
	func(r rune) state {
		switch { 
		case r == 'p':
			return 442 
		}
		return nullState
	}, 
	// Set414
	func(r rune) state {
		switch { 
		case r == 'C':
			return 443 
		case r == 'S':
			return 444 
		}
		return nullState
	}, 
	// Set415
	func(r rune) state {
		switch { 
		case r == 'e':
			return 445 
		}
		return nullState
	}, 
	// Set416
	func(r rune) state {
		switch { 
		case r == 'h':
			return 446 
		}
		return nullState
	}, 
	// Set417
	func(r rune) state {
		switch { 
		case r == 'e':
			return 447 
		}
		return nullState
	}, 
	// Set418
	func(r rune) state {
		switch { 
		case r == 'y':
			return 448 
		}
		return nullState
	}, 
	// Set419
	func(r rune) state {
		switch { 
		case r == 'h':
			return 449 
		}
		return nullState
	}, 
	// Set420
	func(r rune) state {
		switch { 
		case r == '_':
			return 450 
		}
		return nullState
	}, 
	// Set421
	func(r rune) state {
		switch { 
		case r == '_':
			return 451 
		}
		return nullState
	}, 
	// Set422
	func(r rune) state {
		switch { 
		case r == 'I':
			return 452 
		}
		return nullState
	}, 
	// Set423
	func(r rune) state {
		switch { 
		case r == 'T':
			return 453 
		}
		return nullState
	}, 
	// Set424
	func(r rune) state {
		switch { 
		case r == 'e':
			return 454 
		}
		return nullState
	}, 
	// Set425
	func(r rune) state {
		switch { 
		case r == 'P':
			return 455 
		}
		return nullState
	}, 
	// Set426
	func(r rune) state {
		switch { 
		case r == 'd':
			return 456 
		}
		return nullState
	}, 
	// Set427
	func(r rune) state {
		switch { 
		case r == '_':
			return 457 
		}
		return nullState
	}, 
	// Set428
	func(r rune) state {
		switch { 
		case r == 'c':
			return 458 
		}
		return nullState
	}, 
	// Set429
	func(r rune) state {
		switch { 
		case r == 'D':
			return 459 
		}
		return nullState
	}, 
	// Set430
	func(r rune) state {
		switch { 
		case r == 'o':
			return 460 
		}
		return nullState
	}, 
	// Set431
	func(r rune) state {
		switch { 
		case r == '}':
			return 461 
		}
		return nullState
	}, 
	// Set432
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set433
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set434
	func(r rune) state {
		switch { 
		case r == '_':
			return 462 
		}
		return nullState
	}, 
	// Set435
	func(r rune) state {
		switch { 
		case r == 'y':
			return 463 
		}
		return nullState
	}, 
	// Set436
	func(r rune) state {
		switch { 
		case r == 'c':
			return 464 
		}
		return nullState
	}, 
	// Set437
	func(r rune) state {
		switch { 
		case r == 'o':
			return 465 
		}
		return nullState
	}, 
	// Set438
	func(r rune) state {
		switch { 
		case r == 'd':
			return 466 
		}
		return nullState
	}, 
	// Set439
	func(r rune) state {
		switch { 
		case r == 'e':
			return 467 
		}
		return nullState
	}, 
	// Set440
	func(r rune) state {
		switch { 
		case r == 'a':
			return 468 
		}
		return nullState
	}, 
	// Set441
	func(r rune) state {
		switch { 
		case r == 'u':
			return 469 
		}
		return nullState
	}, 
	// Set442
	func(r rune) state {
		switch { 
		case r == 'h':
			return 470 
		}
		return nullState
	}, 
	// Set443
	func(r rune) state {
		switch { 
		case r == 'o':
			return 471 
		}
		return nullState
	}, 
	// Set444
	func(r rune) state {
		switch { 
		case r == 't':
			return 472 
		}
		return nullState
	}, 
	// Set445
	func(r rune) state {
		switch { 
		case r == 'r':
			return 473 
		}
		return nullState
	}, 
	// Set446
	func(r rune) state {
		switch { 
		case r == '}':
			return 474 
		}
		return nullState
	}, 
	// Set447
	func(r rune) state {
		switch { 
		case r == 'r':
			return 475 
		}
		return nullState
	}, 
	// Set448
	func(r rune) state {
		switch { 
		case r == 'n':
			return 476 
		}
		return nullState
	}, 
	// Set449
	func(r rune) state {
		switch { 
		case r == 'i':
			return 477 
		}
		return nullState
	}, 
	// Set450
	func(r rune) state {
		switch { 
		case r == 'C':
			return 478 
		}
		return nullState
	}, 
	// Set451
	func(r rune) state {
		switch { 
		case r == 'M':
			return 479 
		}
		return nullState
	}, 
	// Set452
	func(r rune) state {
		switch { 
		case r == 'n':
			return 480 
		}
		return nullState
	}, 
	// Set453
	func(r rune) state {
		switch { 
		case r == 'e':
			return 481 
		}
		return nullState
	}, 
	// Set454
	func(r rune) state {
		switch { 
		case r == 'd':
			return 482 
		}
		return nullState
	}, 
	// Set455
	func(r rune) state {
		switch { 
		case r == 'u':
			return 483 
		}
		return nullState
	}, 
	// Set456
	func(r rune) state {
		switch { 
		case r == 'e':
			return 484 
		}
		return nullState
	}, 
	// Set457
	func(r rune) state {
		switch { 
		case r == 'S':
			return 485 
		}
		return nullState
	}, 
	// Set458
	func(r rune) state {
		switch { 
		case r == 'e':
			return 486 
		}
		return nullState
	}, 
	// Set459
	func(r rune) state {
		switch { 
		case r == 'i':
			return 487 
		}
		return nullState
	}, 
	// Set460
	func(r rune) state {
		switch { 
		case r == 'l':
			return 488 
		}
		return nullState
	}, 
	// Set461
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set462
	func(r rune) state {
		switch { 
		case r == 'O':
			return 489 
		}
		return nullState
	}, 
	// Set463
	func(r rune) state {
		switch { 
		case r == '_':
			return 490 
		}
		return nullState
	}, 
	// Set464
	func(r rune) state {
		switch { 
		case r == '}':
			return 491 
		}
		return nullState
	}, 
	// Set465
	func(r rune) state {
		switch { 
		case r == 'l':
			return 492 
		}
		return nullState
	}, 
	// Set466
	func(r rune) state {
		switch { 
		case r == 'e':
			return 493 
		}
		return nullState
	}, 
	// Set467
	func(r rune) state {
		switch { 
		case r == 'r':
			return 494 
		}
		return nullState
	}, 
	// Set468
	func(r rune) state {
		switch { 
		case r == 'b':
			return 495 
		}
		return nullState
	}, 
	// Set469
	func(r rune) state {
		switch { 
		case r == 'l':
			return 496 
		}
		return nullState
	}, 
	// Set470
	func(r rune) state {
		switch { 
		case r == 'e':
			return 497 
		}
		return nullState
	}, 
	// Set471
	func(r rune) state {
		switch { 
		case r == 'n':
			return 498 
		}
		return nullState
	}, 
	// Set472
	func(r rune) state {
		switch { 
		case r == 'a':
			return 499 
		}
		return nullState
	}, 
	// Set473
	func(r rune) state {
		switch { 
		case r == 'c':
			return 500 
		}
		return nullState
	}, 
	// Set474
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set475
	func(r rune) state {
		switch { 
		case r == 'c':
			return 501 
		}
		return nullState
	}, 
	// Set476
	func(r rune) state {
		switch { 
		case r == 't':
			return 502 
		}
		return nullState
	}, 
	// Set477
	func(r rune) state {
		switch { 
		case r == 't':
			return 503 
		}
		return nullState
	}, 
	// Set478
	func(r rune) state {
		switch { 
		case r == 'o':
			return 504 
		}
		return nullState
	}, 
	// Set479
	func(r rune) state {
		switch { 
		case r == 'a':
			return 505 
		}
		return nullState
	}, 
	// Set480
	func(r rune) state {
		switch { 
		case r == 'd':
			return 506 
		}
		return nullState
	}, 
	// Set481
	func(r rune) state {
		switch { 
		case r == 'r':
			return 507 
		}
		return nullState
	}, 
	// Set482
	func(r rune) state {
		switch { 
		case r == '}':
			return 508 
		}
		return nullState
	}, 
	// Set483
	func(r rune) state {
		switch { 
		case r == 'n':
			return 509 
		}
		return nullState
	}, 
	// Set484
	func(r rune) state {
		switch { 
		case r == 'o':
			return 510 
		}
		return nullState
	}, 
	// Set485
	func(r rune) state {
		switch { 
		case r == 'e':
			return 511 
		}
		return nullState
	}, 
	// Set486
	func(r rune) state {
		switch { 
		case r == '}':
			return 512 
		}
		return nullState
	}, 
	// Set487
	func(r rune) state {
		switch { 
		case r == 'g':
			return 513 
		}
		return nullState
	}, 
	// Set488
	func(r rune) state {
		switch { 
		case r == '}':
			return 514 
		}
		return nullState
	}, 
	// Set489
	func(r rune) state {
		switch { 
		case r == 'p':
			return 515 
		}
		return nullState
	}, 
	// Set490
	func(r rune) state {
		switch { 
		case r == 'O':
			return 516 
		}
		return nullState
	}, 
	// Set491
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set492
	func(r rune) state {
		switch { 
		case r == '}':
			return 517 
		}
		return nullState
	}, 
	// Set493
	func(r rune) state {
		switch { 
		case r == 'r':
			return 518 
		}
		return nullState
	}, 
	// Set494
	func(r rune) state {
		switch { 
		case r == '_':
			return 519 
		}
		return nullState
	}, 
	// Set495
	func(r rune) state {
		switch { 
		case r == 'e':
			return 520 
		}
		return nullState
	}, 
	// Set496
	func(r rune) state {
		switch { 
		case r == 't':
			return 521 
		}
		return nullState
	}, 
	// Set497
	func(r rune) state {
		switch { 
		case r == 'm':
			return 522 
		}
		return nullState
	}, 
	// Set498
	func(r rune) state {
		switch { 
		case r == 't':
			return 523 
		}
		return nullState
	}, 
	// Set499
	func(r rune) state {
		switch { 
		case r == 'r':
			return 524 
		}
		return nullState
	}, 
	// Set500
	func(r rune) state {
		switch { 
		case r == 'a':
			return 525 
		}
		return nullState
	}, 
	// Set501
	func(r rune) state {
		switch { 
		case r == 'a':
			return 526 
		}
		return nullState
	}, 
	// Set502
	func(r rune) state {
		switch { 
		case r == 'a':
			return 527 
		}
		return nullState
	}, 
	// Set503
	func(r rune) state {
		switch { 
		case r == 'e':
			return 528 
		}
		return nullState
	}, 
	// Set504
	func(r rune) state {
		switch { 
		case r == 'n':
			return 529 
		}
		return nullState
	}, 
	// Set505
	func(r rune) state {
		switch { 
		case r == 'r':
			return 530 
		}
		return nullState
	}, 
	// Set506
	func(r rune) state {
		switch { 
		case r == 'i':
			return 531 
		}
		return nullState
	}, 
	// Set507
	func(r rune) state {
		switch { 
		case r == 'm':
			return 532 
		}
		return nullState
	}, 
	// Set508
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set509
	func(r rune) state {
		switch { 
		case r == 'c':
			return 533 
		}
		return nullState
	}, 
	// Set510
	func(r rune) state {
		switch { 
		case r == 'g':
			return 534 
		}
		return nullState
	}, 
	// Set511
	func(r rune) state {
		switch { 
		case r == 'l':
			return 535 
		}
		return nullState
	}, 
	// Set512
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set513
	func(r rune) state {
		switch { 
		case r == 'i':
			return 536 
		}
		return nullState
	}, 
	// Set514
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set515
	func(r rune) state {
		switch { 
		case r == 'e':
			return 537 
		}
		return nullState
	}, 
	// Set516
	func(r rune) state {
		switch { 
		case r == 'p':
			return 538 
		}
		return nullState
	}, 
	// Set517
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set518
	func(r rune) state {
		switch { 
		case r == '_':
			return 539 
		}
		return nullState
	}, 
	// Set519
	func(r rune) state {
		switch { 
		case r == 'C':
			return 540 
		}
		return nullState
	}, 
	// Set520
	func(r rune) state {
		switch { 
		case r == 't':
			return 541 
		}
		return nullState
	}, 
	// Set521
	func(r rune) state {
		switch { 
		case r == '_':
			return 542 
		}
		return nullState
	}, 
	// Set522
	func(r rune) state {
		switch { 
		case r == 'e':
			return 543 
		}
		return nullState
	}, 
	// Set523
	func(r rune) state {
		switch { 
		case r == 'i':
			return 544 
		}
		return nullState
	}, 
	// Set524
	func(r rune) state {
		switch { 
		case r == 't':
			return 545 
		}
		return nullState
	}, 
	// Set525
	func(r rune) state {
		switch { 
		case r == 's':
			return 546 
		}
		return nullState
	}, 
	// Set526
	func(r rune) state {
		switch { 
		case r == 's':
			return 547 
		}
		return nullState
	}, 
	// Set527
	func(r rune) state {
		switch { 
		case r == 'x':
			return 548 
		}
		return nullState
	}, 
	// Set528
	func(r rune) state {
		switch { 
		case r == '_':
			return 549 
		}
		return nullState
	}, 
	// Set529
	func(r rune) state {
		switch { 
		case r == 'c':
			return 550 
		}
		return nullState
	}, 
	// Set530
	func(r rune) state {
		switch { 
		case r == 'k':
			return 551 
		}
		return nullState
	}, 
	// Set531
	func(r rune) state {
		switch { 
		case r == 'c':
			return 552 
		}
		return nullState
	}, 
	// Set532
	func(r rune) state {
		switch { 
		case r == 'i':
			return 553 
		}
		return nullState
	}, 
	// Set533
	func(r rune) state {
		switch { 
		case r == 't':
			return 554 
		}
		return nullState
	}, 
	// Set534
	func(r rune) state {
		switch { 
		case r == 'r':
			return 555 
		}
		return nullState
	}, 
	// Set535
	func(r rune) state {
		switch { 
		case r == 'e':
			return 556 
		}
		return nullState
	}, 
	// Set536
	func(r rune) state {
		switch { 
		case r == 't':
			return 557 
		}
		return nullState
	}, 
	// Set537
	func(r rune) state {
		switch { 
		case r == 'r':
			return 558 
		}
		return nullState
	}, 
	// Set538
	func(r rune) state {
		switch { 
		case r == 'e':
			return 559 
		}
		return nullState
	}, 
	// Set539
	func(r rune) state {
		switch { 
		case r == 'E':
			return 560 
		}
		return nullState
	}, 
	// Set540
	func(r rune) state {
		switch { 
		case r == 'o':
			return 561 
		}
		return nullState
	}, 
	// Set541
	func(r rune) state {
		switch { 
		case r == 'i':
			return 562 
		}
		return nullState
	}, 
	// Set542
	func(r rune) state {
		switch { 
		case r == 'I':
			return 563 
		}
		return nullState
	}, 
	// Set543
	func(r rune) state {
		switch { 
		case r == '_':
			return 564 
		}
		return nullState
	}, 
	// Set544
	func(r rune) state {
		switch { 
		case r == 'n':
			return 565 
		}
		return nullState
	}, 
	// Set545
	func(r rune) state {
		switch { 
		case r == '}':
			return 566 
		}
		return nullState
	}, 
	// Set546
	func(r rune) state {
		switch { 
		case r == 'e':
			return 567 
		}
		return nullState
	}, 
	// Set547
	func(r rune) state {
		switch { 
		case r == 'e':
			return 568 
		}
		return nullState
	}, 
	// Set548
	func(r rune) state {
		switch { 
		case r == '}':
			return 569 
		}
		return nullState
	}, 
	// Set549
	func(r rune) state {
		switch { 
		case r == 'S':
			return 570 
		}
		return nullState
	}, 
	// Set550
	func(r rune) state {
		switch { 
		case r == 'a':
			return 571 
		}
		return nullState
	}, 
	// Set551
	func(r rune) state {
		switch { 
		case r == '}':
			return 572 
		}
		return nullState
	}, 
	// Set552
	func(r rune) state {
		switch { 
		case r == 'a':
			return 573 
		}
		return nullState
	}, 
	// Set553
	func(r rune) state {
		switch { 
		case r == 'n':
			return 574 
		}
		return nullState
	}, 
	// Set554
	func(r rune) state {
		switch { 
		case r == 'u':
			return 575 
		}
		return nullState
	}, 
	// Set555
	func(r rune) state {
		switch { 
		case r == 'a':
			return 576 
		}
		return nullState
	}, 
	// Set556
	func(r rune) state {
		switch { 
		case r == 'c':
			return 577 
		}
		return nullState
	}, 
	// Set557
	func(r rune) state {
		switch { 
		case r == '}':
			return 578 
		}
		return nullState
	}, 
	// Set558
	func(r rune) state {
		switch { 
		case r == 'a':
			return 579 
		}
		return nullState
	}, 
	// Set559
	func(r rune) state {
		switch { 
		case r == 'r':
			return 580 
		}
		return nullState
	}, 
	// Set560
	func(r rune) state {
		switch { 
		case r == 'x':
			return 581 
		}
		return nullState
	}, 
	// Set561
	func(r rune) state {
		switch { 
		case r == 'd':
			return 582 
		}
		return nullState
	}, 
	// Set562
	func(r rune) state {
		switch { 
		case r == 'c':
			return 583 
		}
		return nullState
	}, 
	// Set563
	func(r rune) state {
		switch { 
		case r == 'g':
			return 584 
		}
		return nullState
	}, 
	// Set564
	func(r rune) state {
		switch { 
		case r == 'E':
			return 585 
		}
		return nullState
	}, 
	// Set565
	func(r rune) state {
		switch { 
		case r == 'u':
			return 586 
		}
		return nullState
	}, 
	// Set566
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set567
	func(r rune) state {
		switch { 
		case r == '}':
			return 587 
		}
		return nullState
	}, 
	// Set568
	func(r rune) state {
		switch { 
		case r == '}':
			return 588 
		}
		return nullState
	}, 
	// Set569
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set570
	func(r rune) state {
		switch { 
		case r == 'p':
			return 589 
		}
		return nullState
	}, 
	// Set571
	func(r rune) state {
		switch { 
		case r == 't':
			return 590 
		}
		return nullState
	}, 
	// Set572
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set573
	func(r rune) state {
		switch { 
		case r == 't':
			return 591 
		}
		return nullState
	}, 
	// Set574
	func(r rune) state {
		switch { 
		case r == 'a':
			return 592 
		}
		return nullState
	}, 
	// Set575
	func(r rune) state {
		switch { 
		case r == 'a':
			return 593 
		}
		return nullState
	}, 
	// Set576
	func(r rune) state {
		switch { 
		case r == 'p':
			return 594 
		}
		return nullState
	}, 
	// Set577
	func(r rune) state {
		switch { 
		case r == 't':
			return 595 
		}
		return nullState
	}, 
	// Set578
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set579
	func(r rune) state {
		switch { 
		case r == 't':
			return 596 
		}
		return nullState
	}, 
	// Set580
	func(r rune) state {
		switch { 
		case r == 'a':
			return 597 
		}
		return nullState
	}, 
	// Set581
	func(r rune) state {
		switch { 
		case r == 'c':
			return 598 
		}
		return nullState
	}, 
	// Set582
	func(r rune) state {
		switch { 
		case r == 'e':
			return 599 
		}
		return nullState
	}, 
	// Set583
	func(r rune) state {
		switch { 
		case r == '}':
			return 600 
		}
		return nullState
	}, 
	// Set584
	func(r rune) state {
		switch { 
		case r == 'n':
			return 601 
		}
		return nullState
	}, 
	// Set585
	func(r rune) state {
		switch { 
		case r == 'x':
			return 602 
		}
		return nullState
	}, 
	// Set586
	func(r rune) state {
		switch { 
		case r == 'e':
			return 603 
		}
		return nullState
	}, 
	// Set587
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set588
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set589
	func(r rune) state {
		switch { 
		case r == 'a':
			return 604 
		}
		return nullState
	}, 
	// Set590
	func(r rune) state {
		switch { 
		case r == 'e':
			return 605 
		}
		return nullState
	}, 
	// Set591
	func(r rune) state {
		switch { 
		case r == 'o':
			return 606 
		}
		return nullState
	}, 
	// Set592
	func(r rune) state {
		switch { 
		case r == 'l':
			return 607 
		}
		return nullState
	}, 
	// Set593
	func(r rune) state {
		switch { 
		case r == 't':
			return 608 
		}
		return nullState
	}, 
	// Set594
	func(r rune) state {
		switch { 
		case r == 'h':
			return 609 
		}
		return nullState
	}, 
	// Set595
	func(r rune) state {
		switch { 
		case r == 'o':
			return 610 
		}
		return nullState
	}, 
	// Set596
	func(r rune) state {
		switch { 
		case r == 'o':
			return 611 
		}
		return nullState
	}, 
	// Set597
	func(r rune) state {
		switch { 
		case r == 't':
			return 612 
		}
		return nullState
	}, 
	// Set598
	func(r rune) state {
		switch { 
		case r == 'e':
			return 613 
		}
		return nullState
	}, 
	// Set599
	func(r rune) state {
		switch { 
		case r == '_':
			return 614 
		}
		return nullState
	}, 
	// Set600
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set601
	func(r rune) state {
		switch { 
		case r == 'o':
			return 615 
		}
		return nullState
	}, 
	// Set602
	func(r rune) state {
		switch { 
		case r == 't':
			return 616 
		}
		return nullState
	}, 
	// Set603
	func(r rune) state {
		switch { 
		case r == '}':
			return 617 
		}
		return nullState
	}, 
	// Set604
	func(r rune) state {
		switch { 
		case r == 'c':
			return 618 
		}
		return nullState
	}, 
	// Set605
	func(r rune) state {
		switch { 
		case r == 'n':
			return 619 
		}
		return nullState
	}, 
	// Set606
	func(r rune) state {
		switch { 
		case r == 'r':
			return 620 
		}
		return nullState
	}, 
	// Set607
	func(r rune) state {
		switch { 
		case r == '}':
			return 621 
		}
		return nullState
	}, 
	// Set608
	func(r rune) state {
		switch { 
		case r == 'i':
			return 622 
		}
		return nullState
	}, 
	// Set609
	func(r rune) state {
		switch { 
		case r == '}':
			return 623 
		}
		return nullState
	}, 
	// Set610
	func(r rune) state {
		switch { 
		case r == 'r':
			return 624 
		}
		return nullState
	}, 
	// Set611
	func(r rune) state {
		switch { 
		case r == 'r':
			return 625 
		}
		return nullState
	}, 
	// Set612
	func(r rune) state {
		switch { 
		case r == 'o':
			return 626 
		}
		return nullState
	}, 
	// Set613
	func(r rune) state {
		switch { 
		case r == 'p':
			return 627 
		}
		return nullState
	}, 
	// Set614
	func(r rune) state {
		switch { 
		case r == 'P':
			return 628 
		}
		return nullState
	}, 
	// Set615
	func(r rune) state {
		switch { 
		case r == 'r':
			return 629 
		}
		return nullState
	}, 
	// Set616
	func(r rune) state {
		switch { 
		case r == 'e':
			return 630 
		}
		return nullState
	}, 
	// Set617
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set618
	func(r rune) state {
		switch { 
		case r == 'e':
			return 631 
		}
		return nullState
	}, 
	// Set619
	func(r rune) state {
		switch { 
		case r == 'a':
			return 632 
		}
		return nullState
	}, 
	// Set620
	func(r rune) state {
		switch { 
		case r == '}':
			return 633 
		}
		return nullState
	}, 
	// Set621
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set622
	func(r rune) state {
		switch { 
		case r == 'o':
			return 634 
		}
		return nullState
	}, 
	// Set623
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set624
	func(r rune) state {
		switch { 
		case r == '}':
			return 635 
		}
		return nullState
	}, 
	// Set625
	func(r rune) state {
		switch { 
		case r == '}':
			return 636 
		}
		return nullState
	}, 
	// Set626
	func(r rune) state {
		switch { 
		case r == 'r':
			return 637 
		}
		return nullState
	}, 
	// Set627
	func(r rune) state {
		switch { 
		case r == 't':
			return 638 
		}
		return nullState
	}, 
	// Set628
	func(r rune) state {
		switch { 
		case r == 'o':
			return 639 
		}
		return nullState
	}, 
	// Set629
	func(r rune) state {
		switch { 
		case r == 'a':
			return 640 
		}
		return nullState
	}, 
	// Set630
	func(r rune) state {
		switch { 
		case r == 'n':
			return 641 
		}
		return nullState
	}, 
	// Set631
	func(r rune) state {
		switch { 
		case r == '}':
			return 642 
		}
		return nullState
	}, 
	// Set632
	func(r rune) state {
		switch { 
		case r == 't':
			return 643 
		}
		return nullState
	}, 
	// Set633
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set634
	func(r rune) state {
		switch { 
		case r == 'n':
			return 644 
		}
		return nullState
	}, 
	// Set635
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set636
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set637
	func(r rune) state {
		switch { 
		case r == '}':
			return 645 
		}
		return nullState
	}, 
	// Set638
	func(r rune) state {
		switch { 
		case r == 'i':
			return 646 
		}
		return nullState
	}, 
	// Set639
	func(r rune) state {
		switch { 
		case r == 'i':
			return 647 
		}
		return nullState
	}, 
	// Set640
	func(r rune) state {
		switch { 
		case r == 'b':
			return 648 
		}
		return nullState
	}, 
	// Set641
	func(r rune) state {
		switch { 
		case r == 'd':
			return 649 
		}
		return nullState
	}, 
	// Set642
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set643
	func(r rune) state {
		switch { 
		case r == 'i':
			return 650 
		}
		return nullState
	}, 
	// Set644
	func(r rune) state {
		switch { 
		case r == '}':
			return 651 
		}
		return nullState
	}, 
	// Set645
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set646
	func(r rune) state {
		switch { 
		case r == 'o':
			return 652 
		}
		return nullState
	}, 
	// Set647
	func(r rune) state {
		switch { 
		case r == 'n':
			return 653 
		}
		return nullState
	}, 
	// Set648
	func(r rune) state {
		switch { 
		case r == 'l':
			return 654 
		}
		return nullState
	}, 
	// Set649
	func(r rune) state {
		switch { 
		case r == '}':
			return 655 
		}
		return nullState
	}, 
	// Set650
	func(r rune) state {
		switch { 
		case r == 'o':
			return 656 
		}
		return nullState
	}, 
	// Set651
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set652
	func(r rune) state {
		switch { 
		case r == 'n':
			return 657 
		}
		return nullState
	}, 
	// Set653
	func(r rune) state {
		switch { 
		case r == 't':
			return 658 
		}
		return nullState
	}, 
	// Set654
	func(r rune) state {
		switch { 
		case r == 'e':
			return 659 
		}
		return nullState
	}, 
	// Set655
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set656
	func(r rune) state {
		switch { 
		case r == 'n':
			return 660 
		}
		return nullState
	}, 
	// Set657
	func(r rune) state {
		switch { 
		case r == '}':
			return 661 
		}
		return nullState
	}, 
	// Set658
	func(r rune) state {
		switch { 
		case r == '}':
			return 662 
		}
		return nullState
	}, 
	// Set659
	func(r rune) state {
		switch { 
		case r == '_':
			return 663 
		}
		return nullState
	}, 
	// Set660
	func(r rune) state {
		switch { 
		case r == '_':
			return 664 
		}
		return nullState
	}, 
	// Set661
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set662
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set663
	func(r rune) state {
		switch { 
		case r == 'C':
			return 665 
		}
		return nullState
	}, 
	// Set664
	func(r rune) state {
		switch { 
		case r == 'M':
			return 666 
		}
		return nullState
	}, 
	// Set665
	func(r rune) state {
		switch { 
		case r == 'o':
			return 667 
		}
		return nullState
	}, 
	// Set666
	func(r rune) state {
		switch { 
		case r == 'a':
			return 668 
		}
		return nullState
	}, 
	// Set667
	func(r rune) state {
		switch { 
		case r == 'd':
			return 669 
		}
		return nullState
	}, 
	// Set668
	func(r rune) state {
		switch { 
		case r == 'r':
			return 670 
		}
		return nullState
	}, 
	// Set669
	func(r rune) state {
		switch { 
		case r == 'e':
			return 671 
		}
		return nullState
	}, 
	// Set670
	func(r rune) state {
		switch { 
		case r == 'k':
			return 672 
		}
		return nullState
	}, 
	// Set671
	func(r rune) state {
		switch { 
		case r == '_':
			return 673 
		}
		return nullState
	}, 
	// Set672
	func(r rune) state {
		switch { 
		case r == '}':
			return 674 
		}
		return nullState
	}, 
	// Set673
	func(r rune) state {
		switch { 
		case r == 'P':
			return 675 
		}
		return nullState
	}, 
	// Set674
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
	// Set675
	func(r rune) state {
		switch { 
		case r == 'o':
			return 676 
		}
		return nullState
	}, 
	// Set676
	func(r rune) state {
		switch { 
		case r == 'i':
			return 677 
		}
		return nullState
	}, 
	// Set677
	func(r rune) state {
		switch { 
		case r == 'n':
			return 678 
		}
		return nullState
	}, 
	// Set678
	func(r rune) state {
		switch { 
		case r == 't':
			return 679 
		}
		return nullState
	}, 
	// Set679
	func(r rune) state {
		switch { 
		case r == '}':
			return 680 
		}
		return nullState
	}, 
	// Set680
	func(r rune) state {
		switch { 
		}
		return nullState
	}, 
}
