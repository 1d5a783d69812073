// Package cb holds the user-written (un)marshalers the model types are made of. What they do is a
// function of what they are given: a payload containing "fail:" makes them fail with an error
// naming it, one containing "panic:" makes them panic.
package cb

import (
	"errors"
	"io"
	"os"
	"strings"

	"github.com/KSpaceer/yamly"
)

// Err is the error of a failing callback; errors.Is compares by value.
type Err struct{ ID string }

func (e Err) Error() string { return "callback error " + e.ID }

// Unwrap makes some of the errors wrap errors the library or its dependencies use themselves.
func (e Err) Unwrap() error {
	n := 0
	for _, b := range []byte(e.ID) {
		n += int(b)
	}
	return Special(n)
}

var special = []error{
	yamly.DenyError(errors.New("user denial")), yamly.ErrEndOfStream, io.EOF, io.ErrUnexpectedEOF,
	&yamly.UnknownFieldError{Field: "user"}, yamly.ErrUnmarshalerImplementation, io.ErrShortWrite, os.ErrNotExist,
}

// Special is one of the errors with a meaning to the library, or (in one of two cases) nil.
func Special(n int) error {
	if n < 0 || n%2 == 1 {
		return nil
	}
	return special[n/2%len(special)]
}

// Panic is what a panicking callback panics with.
type Panic struct{ ID string }

// Note is called with every payload handed to a callback, when set.
var Note func(kind, payload string)

// Lend is called with every byte slice a callback returns, when set, and Given with every slice
// the library read for a callback.
var (
	Lend  func([]byte)
	Given func([]byte)
)

// Bytes is what a callback returns.
func Bytes(s string) []byte {
	if s == "" {
		return nil
	}
	b := make([]byte, len(s), len(s)+3)
	copy(b, s)
	if Lend != nil {
		Lend(b)
	}
	return b
}

// Take ends the use of a slice the library read for a callback.
func Take(b []byte) {
	if Given != nil {
		Given(b)
	}
}

func act(kind, payload string) error {
	if Note != nil {
		Note(kind, payload)
	}
	return Act(payload)
}

// Act is the effect of a payload.
func Act(payload string) error {
	if id := Token(payload, "fail:"); id != "" {
		return Err{id}
	}
	if id := Token(payload, "panic:"); id != "" {
		panic(Panic{id})
	}
	return nil
}

// Token is the first word of the payload starting with prefix.
func Token(payload, prefix string) string {
	i := strings.Index(payload, prefix)
	if i < 0 {
		return ""
	}
	j := i + len(prefix)
	for j < len(payload) && (payload[j] >= 'a' && payload[j] <= 'z' || payload[j] >= '0' && payload[j] <= '9') {
		j++
	}
	return payload[i:j]
}

// Partial is what a failing callback returns next to its error: nothing, or something useless.
func Partial(err error) []byte {
	if err == nil || !strings.ContainsAny(err.Error()[len(err.Error())-1:], "13579") {
		return nil
	}
	return Bytes("partial")
}

// CT is a text (un)marshaler.
type CT struct{ S string }

func (c *CT) UnmarshalText(b []byte) error {
	c.S = string(b)
	return act("text", c.S)
}

func (c CT) MarshalText() ([]byte, error) {
	if err := act("text", c.S); err != nil {
		return Partial(err), err
	}
	return Bytes(c.S), nil
}

// TP is a text (un)marshaler with pointer receivers only.
type TP struct{ S string }

func (c *TP) UnmarshalText(b []byte) error {
	c.S = string(b)
	return act("text", c.S)
}

func (c *TP) MarshalText() ([]byte, error) {
	if err := act("text", c.S); err != nil {
		return Partial(err), err
	}
	return Bytes(c.S), nil
}

// TS is a text (un)marshaler of kind string.
type TS string

func (c *TS) UnmarshalText(b []byte) error {
	*c = TS(b)
	return act("text", string(*c))
}

func (c TS) MarshalText() ([]byte, error) {
	if err := act("text", string(c)); err != nil {
		return Partial(err), err
	}
	return Bytes(string(c)), nil
}

// TA is a text (un)marshaler of an array kind.
type TA [2]string

func (c *TA) UnmarshalText(b []byte) error {
	c[0] = string(b)
	return act("text", c[0])
}

func (c TA) MarshalText() ([]byte, error) {
	if err := act("text", c[0]); err != nil {
		return Partial(err), err
	}
	return Bytes(c[0]), nil
}

// ML is a yamly (un)marshaler of a slice kind.
type ML []string

func (c *ML) UnmarshalYamly(in yamly.Decoder) {
	s := in.String()
	if in.Error() != nil {
		return
	}
	*c = ML{s}
	in.AddError(act("yamly", s))
}

func (c ML) MarshalYamly(out yamly.Inserter) {
	s := ""
	if len(c) > 0 {
		s = c[0]
	}
	if err := act("yamly", s); err != nil {
		out.InsertRawText(Partial(err), err)
		return
	}
	out.InsertString(s)
}

// MP is a yamly (un)marshaler with pointer receivers only.
type MP struct{ S string }

func (c *MP) UnmarshalYamly(in yamly.Decoder) {
	c.S = in.String()
	if in.Error() == nil {
		in.AddError(act("yamly", c.S))
	}
}

func (c *MP) MarshalYamly(out yamly.Inserter) {
	if err := act("yamly", c.S); err != nil {
		out.InsertRaw(Partial(err), err)
		return
	}
	out.InsertString(c.S)
}

// CM is a yamly (un)marshaler of a scalar.
type CM struct{ S string }

func (c *CM) UnmarshalYamly(in yamly.Decoder) {
	c.S = in.String()
	if in.Error() != nil {
		return
	}
	if err := act("yamly", c.S); err != nil {
		in.AddError(err)
	}
}

func (c CM) MarshalYamly(out yamly.Inserter) {
	if err := act("yamly", c.S); err != nil {
		out.InsertRaw(Partial(err), err)
		return
	}
	out.InsertString(c.S)
}

// CL is a yamly (un)marshaler of a sequence, with the usual loop.
type CL struct{ L []int64 }

func (c *CL) UnmarshalYamly(in yamly.Decoder) {
	c.L = nil
	s := in.Sequence()
	for s.HasUnprocessedItems() {
		c.L = append(c.L, in.Integer(64))
	}
	if in.Error() == nil && len(c.L) > 0 && c.L[len(c.L)-1] == 99 {
		in.AddError(act("list", "fail:99"))
	}
}

func (c CL) MarshalYamly(out yamly.Inserter) {
	out.StartSequence()
	for _, v := range c.L {
		if v == 99 {
			out.InsertRawText(nil, act("list", "fail:99"))
			continue
		}
		out.InsertInteger(v)
	}
	out.EndSequence()
}

// MD is a yamly (un)marshaler of a mapping whose values are themselves such.
type MD struct {
	K []string
	V []CM
}

func (c *MD) UnmarshalYamly(in yamly.Decoder) {
	*c = MD{}
	s := in.Mapping()
	for s.HasUnprocessedItems() {
		c.K = append(c.K, in.String())
		var v CM
		v.UnmarshalYamly(in)
		c.V = append(c.V, v)
	}
}

func (c MD) MarshalYamly(out yamly.Inserter) {
	out.StartMapping()
	for i := range c.K {
		out.InsertString(c.K[i])
		c.V[i].MarshalYamly(out)
	}
	out.EndMapping()
}

// Ifc is an interface field type.
type Ifc interface {
	yamly.MarshalerYamly
	yamly.UnmarshalerYamly
}

// Raw is what engine-specific callbacks share.
func Raw(payload string) error { return act("raw", payload) }
