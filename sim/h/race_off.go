//go:build !race

package main

const raceBuild = false

func raceErrors() int { return 0 }

func raceReports() []string { return nil }
