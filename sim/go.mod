module wpkverif

go 1.26

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/edsrzf/mmap-go v1.2.0
	github.com/h2non/filetype v1.1.3
	github.com/schwarzlichtbezirk/wpk v0.0.0
	github.com/yuin/gopher-lua v1.1.1
	gopkg.in/djherbis/times.v1 v1.3.0
	golang.org/x/sys v0.22.0
)

replace github.com/schwarzlichtbezirk/wpk => /repo

replace github.com/yuin/gopher-lua => ../.build/gopher-lua
