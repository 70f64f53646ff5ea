module github.com/mediocregopher/radix/v3

go 1.24
