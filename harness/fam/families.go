package fam

import "verif/harness/core"

// Families maps a family name to its scenario generator.
var Families = map[string]func(*Cfg) []core.Job{
	"theta":  ThetaJobs,
	"tuple":  TupleJobs,
	"hll":    hllJobs,
	"cpc":    cpcJobs,
	"kll":    quantJobs("kll"),
	"req":    quantJobs("req"),
	"tdig":   tdJobs,
	"freq":   fqJobs,
	"cms":    cmJobs,
	"bloom":  bfJobs,
	"resv":   rsJobs,
	"vopt":   voJobs,
	"image":  imJobs,
	"layout": lyJobs,
	"params": paJobs,
}
