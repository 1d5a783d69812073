// Package cbg holds the callback types of the goyaml models.
package cbg

import (
	"gopkg.in/yaml.v3"

	"simh/models/cb"
)

type (
	CT  = cb.CT
	CM  = cb.CM
	CL  = cb.CL
	Ifc = cb.Ifc
	TP  = cb.TP
	TS  = cb.TS
	TA  = cb.TA
	ML  = cb.ML
	MP  = cb.MP
	MD  = cb.MD
)

// Describe renders a node; set by the simulator.
var Describe func(*yaml.Node) string

// CY is an engine-specific (un)marshaler.
type CY struct{ S string }

func (c *CY) UnmarshalYAML(n *yaml.Node) error {
	if n == nil {
		return cb.Raw("<absent>")
	}
	c.S = Describe(n)
	return cb.Raw(c.S)
}

func (c CY) MarshalYAML() (any, error) {
	if err := cb.Raw(c.S); err != nil {
		return string(cb.Partial(err)), err
	}
	return c.S, nil
}

// CX has engine-specific and text methods.
type CX struct{ S string }

func (c *CX) UnmarshalYAML(n *yaml.Node) error {
	if n == nil {
		return cb.Raw("<absent>")
	}
	c.S = Describe(n)
	return cb.Raw(c.S)
}

func (c CX) MarshalYAML() (any, error) {
	if err := cb.Raw(c.S); err != nil {
		return string(cb.Partial(err)), err
	}
	return c.S, nil
}

func (c *CX) UnmarshalText(b []byte) error { c.S = "wrong method"; return nil }

func (c CX) MarshalText() ([]byte, error) { return []byte("wrong method"), nil }

// YM is an engine-specific (un)marshaler of a map kind.
type YM map[string]string

func (c *YM) UnmarshalYAML(n *yaml.Node) error {
	if n == nil {
		return cb.Raw("<absent>")
	}
	*c = YM{"p": Describe(n)}
	return cb.Raw((*c)["p"])
}

func (c YM) MarshalYAML() (any, error) {
	if err := cb.Raw(c["p"]); err != nil {
		return c, err
	}
	return c["p"], nil
}
