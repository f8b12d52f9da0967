package main

func init() {
	register("C01", 100, func(p *Prog, rep *Report) error { return failChecks(p, rep, "C01") })
	register("C02", 100, func(p *Prog, rep *Report) error { return failChecks(p, rep, "C02") })
	register("C03", 50, escapeChecks)
	register("C04", 100, detChecks)
	register("C05", 100, func(p *Prog, rep *Report) error { return mutationChecks(p, rep, true) })
	register("C06", 500, func(p *Prog, rep *Report) error { return mutationChecks(p, rep, false) })
	register("C11", 10, iterChecks)
	register("C12", 10, panicChecks)
	register("C13", 8, nameChecks)
	register("C14", 50, nilChecks)
	register("C24", 50, callbackChecks)
	register("C15", 30, valueChecks)
	register("C16", 200, voidChecks)
	register("C18", 20, func(p *Prog, rep *Report) error { return failChecks(p, rep, "C18") })
	register("C19", 300, func(p *Prog, r *Report) error {
		if err := tableChecks(p, r); err != nil {
			return err
		}
		return genChecks(p, r, "C19")
	})
	register("C21", 10, templateChecks)
	register("C23", 1500, vocabChecks)
	register("C17", 10, func(p *Prog, r *Report) error { return genChecks(p, r, "C17") })
	register("C20", 10, func(p *Prog, r *Report) error { return genChecks(p, r, "C20") })
	register("C10", 10, condChecks)
	register("C07", 20, func(p *Prog, r *Report) error { return markupChecks(p, r, "C07") })
	register("C08", 10, func(p *Prog, r *Report) error { return markupChecks(p, r, "C08") })
	register("C26", 10, func(p *Prog, rep *Report) error {
		err := wholeChecks(p, rep)
		doubtCollectors(p, rep)
		return err
	})
	register("C25", 10, delimChecks)
	register("C22", 10, allocChecks)
	register("C09", 10, onceChecks)
}
