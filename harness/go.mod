module verif/harness

go 1.21

require (
	github.com/binzume/modelconv v0.0.0
	github.com/qmuntal/gltf v0.21.0
	golang.org/x/text v0.11.0
)

require (
	github.com/blezek/tga v0.0.0-20150626111426-80720cbc1017 // indirect
	github.com/oov/psd v0.0.0-20160830175917-fe6d1f744881 // indirect
	golang.org/x/image v0.10.0 // indirect
	gopkg.in/yaml.v2 v2.4.0 // indirect
)

replace github.com/binzume/modelconv => /repo
