module vmon

go 1.27

require (
	github.com/xtfly/log4g v0.0.0
	gopkg.in/yaml.v2 v2.2.2
)

replace github.com/xtfly/log4g => /repo
