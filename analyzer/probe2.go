package main

func init() {
	checks["probe2"] = check{run: func(t *Target, r *Report) {
		styleLaws(t, r)
	}}
}
