module github.com/cespare/xxhash/v2

go 1.11
