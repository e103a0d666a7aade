module verifharness

go 1.23

require (
	github.com/bytedance/mockey v0.0.0
	github.com/bytedance/mockeyextra v0.0.0
	github.com/smartystreets/goconvey v1.7.2
	golang.org/x/arch v0.11.0
)

require (
	github.com/gopherjs/gopherjs v1.12.80 // indirect
	github.com/jtolds/gls v4.20.0+incompatible // indirect
	github.com/smartystreets/assertions v1.2.0 // indirect
	golang.org/x/sys v0.26.0 // indirect
)

replace github.com/bytedance/mockey => /repo

replace github.com/bytedance/mockeyextra => ./mockeyextra
