module gv

go 1.24
