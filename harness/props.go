package main

const ruleHist = "evaluations are single comparisons of an observed result (lookup, flag, enumeration) with the model; distinct_nontrivial counts distinct (tree type, set of stored keys) states with at least two entries that were judged"

func allProps() []*Prop {
	out := []*Prop{}
	out = append(out, contentProps()...)
	out = append(out, nameProps()...)
	out = append(out, persistProps()...)
	out = append(out, concProps()...)
	out = append(out, miscProps()...)
	out = append(out, numProps()...)
	out = append(out, ipProps()...)
	out = append(out, etcProps()...)
	out = append(out, costProps()...)
	for _, p := range out {
		mul := effort[p.ID]
		for i := range p.Sections {
			if s := &p.Sections[i]; !exhaustive[s.Name] {
				s.Quick *= max(1, mul[0])
				s.Thorough *= max(1, mul[1])
			}
		}
	}
	return out
}

// exhaustive sections go through a finite list; more cases would only repeat it.
var exhaustive = map[string]bool{"perm6": true, "perm7": true, "grammar": true, "grammar7": true, "all-bytes": true, "short": true, "huge": true, "large-dump": true, "patience": true}

// effort multiplies the numbers of cases of a property (quick, thorough).
var effort = map[string][2]int{
	"C01": {12, 12}, "C02": {15, 12}, "C03": {12, 12}, "C04": {15, 12}, "C05": {6, 6},
	"C06": {6, 6}, "C07": {3, 6}, "C08": {2, 4}, "C09": {6, 8},
	"C10": {4, 8}, "C11": {9, 8}, "C12": {3, 5},
	"C13": {3, 12}, "C14": {16, 15}, "C15": {3, 10}, "C16": {24, 12}, "C17": {6, 12},
	"C18": {2, 3}, "C19": {1, 2}, "C20": {1, 2},
	"C21": {1, 2}, "C22": {2, 4}, "C23": {1, 2}, "C24": {1, 2}, "C25": {2, 4},
	"C26": {9, 8}, "C27": {2, 4}, "C28": {1, 5}, "C29": {6, 6}, "C30": {6, 6}, "C31": {1, 5}, "C32": {3, 8}, "C33": {10, 6}, "C34": {1, 4}, "C35": {2, 2}, "C36": {6, 8}, "C37": {2, 4},
}

func contentProps() []*Prop {
	num, ip, str, lab, dom := numFams(), ipFams(), everyStrFams(), []*Fam{famLab()}, domFams()
	return []*Prop{
		{ID: "C01", Rule: ruleHist, MinEvals: 100000, Sections: standard(num, focus{lpm: true}, 20)},
		{ID: "C02", Rule: ruleHist, MinEvals: 100000, Sections: standard(num, focus{exact: true}, 20)},
		{ID: "C03", Rule: ruleHist, MinEvals: 100000, Sections: standard(num, focus{flag: true, exact: true, enum: true}, 20)},
		{ID: "C04", Rule: ruleHist, MinEvals: 20000, Sections: standard(num, focus{enum: true, order: true}, 20)},
		{ID: "C06", Rule: ruleHist, MinEvals: 100000, Sections: standard(ip, focus{lpm: true}, 30)},
		{ID: "C07", Rule: ruleHist, MinEvals: 100000, Sections: standard(ip, focus{flag: true, lpm: true, enum: true}, 30)},
		{ID: "C10", Rule: ruleHist, MinEvals: 100000, Sections: standard(str, focus{exact: true, flag: true, enum: true, order: true, empty: true}, 20)},
		{ID: "C11", Rule: ruleHist, MinEvals: 100000, Sections: standard(lab, focus{exact: true, flag: true, enum: true, order: true, empty: true}, 20)},
		{ID: "C18", Rule: ruleHist, MinEvals: 100000, Sections: standard(dom, focus{lpm: true}, 20)},
		{ID: "C19", Rule: ruleHist, MinEvals: 100000, Sections: standard(dom, focus{flag: true, lpm: true, enum: true}, 20)},
		{ID: "C20", Rule: ruleHist, MinEvals: 20000, Sections: standard(dom, focus{enum: true, repeat: true}, 20)},
	}
}
