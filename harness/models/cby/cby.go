// Package cby holds the callback types of the yayamls models.
package cby

import (
	"simh/models/cb"
)

type (
	CT  = cb.CT
	CM  = cb.CM
	CL  = cb.CL
	Ifc = cb.Ifc
	TP  = cb.TP
	TS  = cb.TS
	TA  = cb.TA
	ML  = cb.ML
	MP  = cb.MP
	MD  = cb.MD
)

// Describe renders raw bytes; set by the simulator.
var Describe func([]byte) string

// CY is an engine-specific (un)marshaler.
type CY struct{ S string }

func (c *CY) UnmarshalYAML(b []byte) error {
	if len(b) == 0 {
		return cb.Raw("")
	}
	c.S = Describe(b)
	cb.Take(b)
	return cb.Raw(c.S)
}

func (c CY) MarshalYAML() ([]byte, error) {
	if err := cb.Raw(c.S); err != nil {
		return cb.Partial(err), err
	}
	if c.S == "" {
		return cb.Bytes("\"\"\n"), nil
	}
	return cb.Bytes(c.S + "\n"), nil
}

// CX has engine-specific and text methods.
type CX struct{ S string }

func (c *CX) UnmarshalYAML(b []byte) error {
	if len(b) == 0 {
		return cb.Raw("")
	}
	c.S = Describe(b)
	cb.Take(b)
	return cb.Raw(c.S)
}

func (c CX) MarshalYAML() ([]byte, error) {
	if err := cb.Raw(c.S); err != nil {
		return cb.Partial(err), err
	}
	if c.S == "" {
		return cb.Bytes("\"\"\n"), nil
	}
	return cb.Bytes(c.S + "\n"), nil
}

func (c *CX) UnmarshalText(b []byte) error { c.S = "wrong method"; return nil }

func (c CX) MarshalText() ([]byte, error) { return []byte("wrong method"), nil }

// YM is an engine-specific (un)marshaler of a map kind.
type YM map[string]string

func (c *YM) UnmarshalYAML(b []byte) error {
	if len(b) == 0 {
		return cb.Raw("")
	}
	*c = YM{"p": Describe(b)}
	cb.Take(b)
	return cb.Raw((*c)["p"])
}

func (c YM) MarshalYAML() ([]byte, error) {
	if err := cb.Raw(c["p"]); err != nil {
		return cb.Partial(err), err
	}
	if c["p"] == "" {
		return cb.Bytes("\"\"\n"), nil
	}
	return cb.Bytes(c["p"] + "\n"), nil
}
