package doc

import (
	"time"

	cbg "simh/models/cbg"
)

type Doc struct {
	Name  string `yaml:"name"`
	Count int8
	Big   uint64
	Ratio float64
	Flag  bool
	When  time.Time
	Any   any
	Sub   Sub
	PSub  *Sub
	Subs  []Sub
	PSubs []*Sub
	ByKey map[string]Sub
	Y     cbg.CY
	PY    *cbg.CY
	Ys    []cbg.CY
	YMap  map[string]cbg.CY
	YArr  [2]cbg.CY
	X     cbg.CX
	Xs    []*cbg.CX
	T     cbg.CT
	PT    *cbg.CT
	Ts    []cbg.CT
	TKey  map[cbg.CT]cbg.CM
	M     cbg.CM
	PM    *cbg.CM
	Ms    []cbg.CM
	MMap  map[string]*cbg.CM
	MArr  [2]cbg.CM
	L     cbg.CL
	Ls    []cbg.CL
	Arr   [2]int
	Deep  map[string]map[string][]int
	Blob  []byte
	Ifc   cbg.Ifc
	Skip  string `yaml:"-"`
	inner string
}

type Sub struct {
	A    int
	B    string `yaml:"bee"`
	T    cbg.CT
	M    *cbg.CM
	Y    cbg.CY
	Next *Sub
	Tail []string
}
