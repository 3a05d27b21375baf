package par

import "strings"

// Job is one program with its bounds.
type Job struct {
	P     *Prog
	Bound int
	Fine  bool
	Max   int
}

// jobs lists the programs of a property with their bounds.
func jobs(prop string, thorough bool) []Job {
	var out []Job
	add := func(p *Prog, fails, bound int, fine bool, max int) {
		for _, q := range withFails(p, fails) {
			out = append(out, Job{q, bound, fine, max})
		}
	}
	// Two nested blocks side by side make too many schedules for a quick run.
	nb := func(w string, b int) int {
		if strings.Count(w, "n")+strings.Count(w, "m") > 1 {
			return 0
		}
		return b
	}
	vb := func(w string) int {
		if strings.Count(w, "v") > 1 {
			return 0
		}
		return 1
	}
	const kinds = "crqsuvdenmo"
	switch prop {
	case "P03":
		for _, w := range words(kinds, 2) {
			add(build(w, 0, 0, 0, ""), 1, nb(w, 1), false, 0)
			add(build(w, 1, 0, 0, ""), 1, nb(w, 1), false, 0)
		}
		for _, w := range []string{"cc", "ss", "su", "uv", "de", "oo"} {
			add(build(w, 0, 0, 0, ""), 0, 2, false, 0)
		}
		for _, w := range []string{"cs", "ss", "uu", "ue"} {
			add(build(w, 0, 0, 0, ""), 0, 1, true, 0)
			add(build(w, 1, 0, 0, ""), 0, 1, true, 0)
		}
		for _, w := range []string{"cc", "cs", "su", "ud", "mo"} {
			add(build(w, 0, 0, 1, ""), 1, 1, false, 0)
			add(build(w, 0, 0, 2, ""), 0, 1, false, 0)
		}
		for _, w := range words("csv", 3) {
			add(build(w, 0, 0, 0, ""), 0, vb(w), false, 0)
			add(build(w, 2, 0, 0, ""), 1, 0, false, 0)
		}
		for _, w := range []string{"ccc", "cqr", "css"} {
			add(build(w, 1, 0, 0, ""), 1, 0, false, 0)
		}
		for l := 0; l <= 2; l++ {
			add(build("cccc", l, 0, 0, ""), 1, 0, false, 0)
		}
		if !thorough {
			break
		}
		for _, w := range words(kinds, 2) {
			add(build(w, 0, 1, 0, ""), 2, 2, false, 20000)
			add(build(w, 0, 0, 2, ""), 1, 1, false, 20000)
			add(build(w, 0, 0, 0, ""), 0, 1, true, 20000)
			add(build(w, 1, 0, 0, ""), 1, 2, false, 20000)
		}
		for _, w := range words(kinds, 3) {
			for l := 0; l <= 2; l++ {
				add(build(w, l, 0, 0, ""), 1, 1, false, 5000)
			}
		}
	case "P04":
		for _, w := range words("crqn", 2) {
			for l := 0; l <= 3; l++ {
				for nl := 0; nl <= 1; nl++ {
					if nl == 1 && w[1] != 'n' {
						continue
					}
					add(build(w, l, nl, 0, ""), 1, nb(w, 1), false, 0)
				}
			}
		}
		for _, w := range words("crq", 3) {
			for l := 0; l <= 3; l++ {
				add(build(w, l, 0, 0, ""), 1, 0, false, 0)
			}
		}
		for l := 1; l <= 4; l++ {
			add(build("cccc", l, 0, 0, ""), 1, 0, false, 0)
			add(build("crcr", l, 0, 0, ""), 0, 0, false, 0)
		}
		for _, w := range []string{"cs", "ss", "sv", "nm"} {
			add(build(w, 1, 1, 0, ""), 1, 1, false, 0)
		}
		add(build("ccc", 1, 0, 0, ""), 0, 1, false, 0)
		add(build("ccc", 2, 0, 0, ""), 0, 1, false, 0)
		add(build("cc", 1, 0, 0, ""), 0, 1, true, 0)
		add(build("ccc", 2, 0, 0, ""), 0, 1, true, 3000)
		if !thorough {
			break
		}
		for _, w := range words("crqnsv", 3) {
			for l := 1; l <= 3; l++ {
				add(build(w, l, 1, 0, ""), 1, 1, false, 10000)
			}
		}
		for _, w := range words("crq", 2) {
			add(build(w, 1, 0, 0, ""), 2, 3, false, 20000)
			add(build(w, 2, 0, 0, ""), 2, 3, false, 20000)
		}
		for _, w := range words("crq", 4) {
			for l := 1; l <= 4; l++ {
				add(build(w, l, 0, 0, ""), 1, 0, false, 10000)
			}
		}
		add(build("ccc", 2, 0, 0, ""), 1, 2, false, 50000)
		add(build("ccc", 2, 0, 0, ""), 0, 1, true, 50000)
	case "P07":
		for _, w := range words("crqsudn", 2) {
			for l := 0; l <= 1; l++ {
				if l == 0 && w == "nn" && !thorough {
					continue
				}
				add(build(w, l, 0, 0, ""), 0, 0, false, 0)
			}
		}
		for _, w := range []string{"cc", "cs", "cq", "su"} {
			add(build(w, 1, 0, 0, ""), 1, 1, false, 0)
			add(build(w, 0, 0, 1, ""), 1, 1, false, 0)
		}
		add(build("ccc", 1, 0, 0, ""), 0, 0, false, 0)
		add(build("ccc", 2, 0, 0, ""), 0, 0, false, 0)
		if !thorough {
			break
		}
		for _, w := range words("crqsudn", 2) {
			for l := 0; l <= 1; l++ {
				add(build(w, l, 1, 2, ""), 1, 1, false, 20000)
			}
		}
		for _, w := range words("crqsv", 3) {
			for l := 0; l <= 2; l++ {
				add(build(w, l, 0, 0, ""), 1, 0, false, 20000)
			}
		}
	}
	return out
}
