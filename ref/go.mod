module github.com/goccmack/gogll/v3

go 1.15

require (
	github.com/goccmack/goutil v1.2.3
	github.com/iancoleman/strcase v0.1.3 // indirect
)

