// Package kind holds types given to the code generator.
package kind

type Item struct {
	X int
	S []Part
}

type Part struct {
	Name string `yaml:"name,omitempty"`
	M    map[string]Level
}

type Level uint8

func (l Level) MarshalText() ([]byte, error) { return []byte{byte(l)}, nil }

func (l *Level) UnmarshalText(b []byte) error { *l = Level(len(b)); return nil }

type Names []string
