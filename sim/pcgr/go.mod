module github.com/dgryski/go-pcgr

go 1.21
