module github.com/xtfly/log4g/verif

go 1.26

require (
	github.com/xtfly/log4g v0.0.0
	pgregory.net/rapid v1.3.0
)

require gopkg.in/yaml.v2 v2.2.2

replace github.com/xtfly/log4g => /repo
