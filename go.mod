module github.com/google/licensecheck/verif

go 1.22

require github.com/google/licensecheck v0.0.0

replace github.com/google/licensecheck => /repo
