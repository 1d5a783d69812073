module simh

go 1.23

require (
	github.com/KSpaceer/yamly v0.1.1
	github.com/KSpaceer/yamly/engines/goyaml v0.1.1
	github.com/KSpaceer/yamly/engines/yayamls v0.1.1
	gopkg.in/yaml.v3 v3.0.1
)

replace github.com/KSpaceer/yamly => /repo

replace github.com/KSpaceer/yamly/engines/yayamls => /repo/engines/yayamls

replace github.com/KSpaceer/yamly/engines/goyaml => /repo/engines/goyaml
