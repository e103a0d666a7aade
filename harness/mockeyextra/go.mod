module github.com/bytedance/mockeyextra

go 1.23

require github.com/bytedance/mockey v0.0.0
