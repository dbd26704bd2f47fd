module verif/sim

go 1.23

require (
	github.com/shabbyrobe/xmlwriter v0.0.0
	golang.org/x/text v0.3.2
)

replace github.com/shabbyrobe/xmlwriter => /repo
