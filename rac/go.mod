module verif/rac

go 1.26.0

require (
	github.com/zeldovich/go-rpcgen v0.0.0
	verif/vc v0.0.0
)

replace github.com/zeldovich/go-rpcgen => /repo

replace verif/vc => ../vc
