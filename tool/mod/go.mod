module aqwari.net/xml

go 1.18

require (
	golang.org/x/net v0.0.0-20200813134508-3edf25e44fcc
	golang.org/x/tools v0.0.0-20200821192610-3366bbee4705
)

require (
	golang.org/x/mod v0.3.0 // indirect
	golang.org/x/text v0.3.0 // indirect
	golang.org/x/xerrors v0.0.0-20200804184101-5ec99f83aff1 // indirect
)
