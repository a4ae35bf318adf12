module perturb

go 1.18
