module verif/harness

go 1.27

require (
	github.com/WatchBeam/amf0 v0.0.0
	github.com/WatchBeam/rtmp v0.0.0
	verif/sim v0.0.0
)
