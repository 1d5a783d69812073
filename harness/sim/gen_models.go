//go:build models

package main

import (
	"reflect"

	gdict "simh/models/g/dict"
	gdoc "simh/models/g/doc"
	gemb "simh/models/g/emb"
	gkinds "simh/models/g/kinds"
	gopt "simh/models/g/opt"
	gptr "simh/models/g/ptr"
	gseq "simh/models/g/seq"
	gstrict "simh/models/g/strict"
	ydict "simh/models/y/dict"
	ydoc "simh/models/y/doc"
	yemb "simh/models/y/emb"
	ykinds "simh/models/y/kinds"
	yopt "simh/models/y/opt"
	yptr "simh/models/y/ptr"
	yseq "simh/models/y/seq"
	ystrict "simh/models/y/strict"
)

func init() {
	modelTypes = map[string]reflect.Type{
		"g/doc": reflect.TypeOf(gdoc.Doc{}), "y/doc": reflect.TypeOf(ydoc.Doc{}),
		"g/strict": reflect.TypeOf(gstrict.Strict{}), "y/strict": reflect.TypeOf(ystrict.Strict{}),
		"g/opt": reflect.TypeOf(gopt.Opt{}), "y/opt": reflect.TypeOf(yopt.Opt{}),
		"g/emb": reflect.TypeOf(gemb.Emb{}), "y/emb": reflect.TypeOf(yemb.Emb{}),
		"g/ptr": reflect.TypeOf(gptr.Ptr{}), "y/ptr": reflect.TypeOf(yptr.Ptr{}),
		"g/seq": reflect.TypeOf(gseq.Seq{}), "y/seq": reflect.TypeOf(yseq.Seq{}),
		"g/kinds": reflect.TypeOf(gkinds.Kinds{}), "y/kinds": reflect.TypeOf(ykinds.Kinds{}),
		"g/dict": reflect.TypeOf(gdict.Dict{}), "y/dict": reflect.TypeOf(ydict.Dict{}),
	}
}
