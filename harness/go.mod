module verif/harness

go 1.26.0

require (
	github.com/golang/geo v0.0.0-20210211234256-740aa86cb551
	github.com/hzw456/go-geo v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/mmcloughlin/geohash v0.10.0 // indirect

replace github.com/hzw456/go-geo => /repo
