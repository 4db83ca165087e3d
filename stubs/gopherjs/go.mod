module github.com/gopherjs/gopherjs

go 1.27.3
