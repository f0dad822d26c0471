module verif

go 1.25

require github.com/zeldovich/go-rpcgen v0.0.0

replace github.com/zeldovich/go-rpcgen => /repo
