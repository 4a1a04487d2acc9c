module vh

go 1.23

require (
	github.com/h2non/filetype v1.1.3
	github.com/schwarzlichtbezirk/wpk v0.0.0-00010101000000-000000000000
	github.com/yuin/gopher-lua v1.1.1
)

require (
	github.com/edsrzf/mmap-go v1.2.0 // indirect
	golang.org/x/sys v0.22.0 // indirect
	gopkg.in/djherbis/times.v1 v1.3.0 // indirect
)

replace github.com/schwarzlichtbezirk/wpk => /repo
