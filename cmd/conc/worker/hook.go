//go:build lrehook

package main

import "github.com/google/licensecheck/internal/match"

func init() { lreMatch = match.VerifMatch }
