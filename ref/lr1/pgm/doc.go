/*
This package implements LR(1) parser state machine generation by the Practical General Method (PGM) of Pager:

A Practical General Method for Constructing LR(k) Parsers
David Pager
Acta Informatica Vol 7, 249-268, 1977
*/
package pgm
