package kinds

import (
	"time"

	cbg "simh/models/cbg"
)

type Kinds struct {
	TP   cbg.TP
	PTP  *cbg.TP
	TPs  []cbg.TP
	TPm  map[string]cbg.TP
	TS   cbg.TS
	PTS  *cbg.TS
	TSs  []cbg.TS
	TSk  map[cbg.TS]int
	TSm  map[string]cbg.TS
	TSa  [2]cbg.TS
	TA   cbg.TA
	PTA  *cbg.TA
	TAs  []cbg.TA
	TAk  map[cbg.TA]string
	TAm  map[string]*cbg.TA
	ML   cbg.ML
	PML  *cbg.ML
	MLs  []cbg.ML
	MLm  map[string]cbg.ML
	MP   cbg.MP
	PMP  *cbg.MP
	MPs  []cbg.MP
	MPm  map[string]cbg.MP
	MD   cbg.MD
	PMD  *cbg.MD
	MDs  []cbg.MD
	MDm  map[string]*cbg.MD
	YM   cbg.YM
	PYM  *cbg.YM
	YMs  []cbg.YM
	YMm  map[string]cbg.YM
	PPT  **cbg.CT
	PPY  **cbg.CY
	LL   [][]cbg.CT
	AA   [2][2]cbg.CM
	MM   map[string]map[cbg.TS]cbg.CY
	LM   []map[string]cbg.CX
	PL   *[]cbg.CT
	Anon struct {
		A int
		T cbg.CT `yaml:"t"`
	}
	Anon2 struct {
		A int
		T cbg.CT `yaml:"tee"`
	}
	Anons []struct{ X cbg.ML }
	PAnon *struct {
		Y  cbg.CY
		In Part
	}
	Name  Name `yaml:"name,omitempty"`
	IDs   IDs  `yaml:",omitempty"`
	Table Table
	Parts [2]*Part
	N16   int16
	N32   int32
	U8    uint8
	U16   uint16
	U32   uint32
	F32   float32
	KI    map[int]string
	KU    map[uint8][]Part
	Times []time.Time
	PTime *time.Time
}

type Name string

type IDs []int

type Table map[string]Part

type Part struct {
	V Name
	T *cbg.TS
	Y cbg.CX
}
