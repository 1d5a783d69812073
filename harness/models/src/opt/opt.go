package opt

import cbg "simh/models/cbg"

type Opt struct {
	A  int
	S  string
	F  float64
	B  bool
	P  *Inner
	L  []Inner
	LP []*Inner
	M  map[string]int
	MM map[string]map[string]*cbg.CM
	Y  *cbg.CY
	T  cbg.CT
	TS []*cbg.CT
}

type Inner struct {
	K string
	V *cbg.CM
	L []int
}
